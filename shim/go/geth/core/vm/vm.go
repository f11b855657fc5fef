// Package vm is an offline stand-in for the precompiled contracts of
// go-ethereum/core/vm. Identity and SHA-256 are real; the others charge a fixed
// price and return a hash of their input, failing on inputs that start with 0xbad0.
package vm

import (
	"crypto/sha256"
	"errors"

	"github.com/ethereum/go-ethereum/common"
)

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}

type identity struct{}

func (identity) RequiredGas(in []byte) uint64  { return uint64(len(in)+31)/32*3 + 15 }
func (identity) Run(in []byte) ([]byte, error) { return append([]byte{}, in...), nil }

type sha struct{}

func (sha) RequiredGas(in []byte) uint64  { return uint64(len(in)+31)/32*12 + 60 }
func (sha) Run(in []byte) ([]byte, error) { h := sha256.Sum256(in); return h[:], nil }

type opaque struct {
	id  byte
	gas uint64
}

func (o opaque) RequiredGas(in []byte) uint64 { return o.gas }
func (o opaque) Run(in []byte) ([]byte, error) {
	if len(in) >= 2 && in[0] == 0xba && in[1] == 0xd0 {
		return nil, errors.New("invalid input")
	}
	h := sha256.Sum256(append([]byte{o.id}, in...))
	return h[:], nil
}

func table(n byte, modexp uint64) map[common.Address]PrecompiledContract {
	m := map[common.Address]PrecompiledContract{}
	for i := byte(1); i <= n; i++ {
		a := common.BytesToAddress([]byte{i})
		switch i {
		case 2:
			m[a] = sha{}
		case 4:
			m[a] = identity{}
		case 5:
			m[a] = opaque{i, modexp}
		case 10:
			m[a] = opaque{i, 50000}
		default:
			m[a] = opaque{i, 3000}
		}
	}
	return m
}

var PrecompiledContractsIstanbul = table(9, 500)
var PrecompiledContractsBerlin = table(9, 200)
var PrecompiledContractsCancun = table(10, 200)
