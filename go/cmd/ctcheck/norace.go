//go:build !race

package main

const isRace = false
