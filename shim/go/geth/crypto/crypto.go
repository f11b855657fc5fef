// Package crypto is an offline stand-in for go-ethereum/crypto.
package crypto

import (
	"github.com/ethereum/go-ethereum/common"
	"golang.org/x/crypto/sha3"
)

func Keccak256(data ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range data {
		h.Write(b)
	}
	return h.Sum(nil)
}
func Keccak256Hash(data ...[]byte) (h common.Hash) { copy(h[:], Keccak256(data...)); return }

// CreateAddress is keccak(rlp([address, nonce]))[12:].
func CreateAddress(b common.Address, nonce uint64) common.Address {
	var n []byte
	switch {
	case nonce == 0:
		n = []byte{0x80}
	case nonce < 0x80:
		n = []byte{byte(nonce)}
	default:
		var be []byte
		for v := nonce; v > 0; v >>= 8 {
			be = append([]byte{byte(v)}, be...)
		}
		n = append([]byte{0x80 + byte(len(be))}, be...)
	}
	payload := append(append([]byte{0x94}, b[:]...), n...)
	return common.BytesToAddress(Keccak256(append([]byte{0xc0 + byte(len(payload))}, payload...))[12:])
}

func CreateAddress2(b common.Address, salt [32]byte, inithash []byte) common.Address {
	return common.BytesToAddress(Keccak256([]byte{0xff}, b[:], salt[:], inithash)[12:])
}
