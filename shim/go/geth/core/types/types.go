// Package types is an offline stand-in for go-ethereum/core/types.
package types

import "github.com/ethereum/go-ethereum/common"

type Log struct {
	Address     common.Address
	Topics      []common.Hash
	Data        []byte
	BlockNumber uint64
}

type AccessTuple struct {
	Address     common.Address
	StorageKeys []common.Hash
}

type AccessList []AccessTuple

var EmptyCodeHash = common.HexToHash("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")
