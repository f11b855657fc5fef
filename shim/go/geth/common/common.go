// Package common is an offline stand-in for go-ethereum/common.
package common

import (
	"encoding/hex"
	"math/big"
	"strings"
)

const (
	HashLength    = 32
	AddressLength = 20
)

var Big256 = big.NewInt(256)

type Hash [HashLength]byte
type Address [AddressLength]byte

func FromHex(s string) []byte {
	s = strings.TrimPrefix(strings.TrimPrefix(s, "0x"), "0X")
	if len(s)%2 == 1 {
		s = "0" + s
	}
	b, _ := hex.DecodeString(s)
	return b
}
func BytesToAddress(b []byte) (a Address) {
	if len(b) > 20 {
		b = b[len(b)-20:]
	}
	copy(a[20-len(b):], b)
	return
}
func BytesToHash(b []byte) (h Hash) {
	if len(b) > 32 {
		b = b[len(b)-32:]
	}
	copy(h[32-len(b):], b)
	return
}
func HexToAddress(s string) Address { return BytesToAddress(FromHex(s)) }
func HexToHash(s string) Hash       { return BytesToHash(FromHex(s)) }
func Hex2Bytes(s string) []byte     { b, _ := hex.DecodeString(s); return b }
func BigToHash(b *big.Int) Hash     { return BytesToHash(b.Bytes()) }
func (h Hash) Bytes() []byte        { return h[:] }
func (h Hash) Hex() string          { return "0x" + hex.EncodeToString(h[:]) }
func (h Hash) String() string       { return h.Hex() }
func (h Hash) Big() *big.Int        { return new(big.Int).SetBytes(h[:]) }
func (a Address) Bytes() []byte     { return a[:] }
func (a Address) Hex() string       { return "0x" + hex.EncodeToString(a[:]) }
func (a Address) String() string    { return a.Hex() }
