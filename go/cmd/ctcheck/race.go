//go:build race

package main

const isRace = true
