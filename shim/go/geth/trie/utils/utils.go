// Package utils is an offline stand-in for go-ethereum/trie/utils.
package utils

type PointCache struct{}
