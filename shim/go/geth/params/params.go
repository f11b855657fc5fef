// Package params is an offline stand-in for go-ethereum/params.
package params

import "math/big"

const (
	TxGas                     uint64 = 21000
	TxGasContractCreation     uint64 = 53000
	TxDataZeroGas             uint64 = 4
	TxDataNonZeroGasEIP2028   uint64 = 16
	TxAccessListAddressGas    uint64 = 2400
	TxAccessListStorageKeyGas uint64 = 1900
	CallValueTransferGas      uint64 = 9000
	CreateGas                 uint64 = 32000
	CreateDataGas             uint64 = 200
	MemoryGas                 uint64 = 3
	SstoreSetGasEIP2200       uint64 = 20000
	CallCreateDepth           uint64 = 1024
	MaxCodeSize                      = 24576
	MaxInitCodeSize                  = 2 * MaxCodeSize
)

type ChainConfig struct {
	ChainID             *big.Int
	HomesteadBlock      *big.Int
	EIP150Block         *big.Int
	EIP155Block         *big.Int
	EIP158Block         *big.Int
	ByzantiumBlock      *big.Int
	ConstantinopleBlock *big.Int
	PetersburgBlock     *big.Int
	IstanbulBlock       *big.Int
	BerlinBlock         *big.Int
	LondonBlock         *big.Int
	MergeNetsplitBlock  *big.Int
	ShanghaiTime        *uint64
	CancunTime          *uint64
}

func zero() *big.Int { return big.NewInt(0) }

var AllEthashProtocolChanges = &ChainConfig{
	ChainID: big.NewInt(1337), HomesteadBlock: zero(), EIP150Block: zero(), EIP155Block: zero(), EIP158Block: zero(),
	ByzantiumBlock: zero(), ConstantinopleBlock: zero(), PetersburgBlock: zero(), IstanbulBlock: zero(), BerlinBlock: zero(), LondonBlock: zero(),
}

type Rules struct {
	ChainID                                                 *big.Int
	IsHomestead, IsEIP150, IsEIP155, IsEIP158               bool
	IsByzantium, IsConstantinople, IsPetersburg, IsIstanbul bool
	IsBerlin, IsLondon                                      bool
	IsMerge, IsShanghai, IsCancun                           bool
}

func at(fork, head *big.Int) bool { return fork != nil && head != nil && fork.Cmp(head) <= 0 }

func since(fork *uint64, time uint64) bool { return fork != nil && *fork <= time }

func (c *ChainConfig) IsLondon(num *big.Int) bool { return at(c.LondonBlock, num) }
func (c *ChainConfig) IsShanghai(num *big.Int, time uint64) bool {
	return c.IsLondon(num) && since(c.ShanghaiTime, time)
}
func (c *ChainConfig) IsCancun(num *big.Int, time uint64) bool {
	return c.IsLondon(num) && since(c.CancunTime, time)
}

func (c *ChainConfig) Rules(num *big.Int, isMerge bool, timestamp uint64) Rules {
	id := c.ChainID
	if id == nil {
		id = new(big.Int)
	}
	isMerge = isMerge && c.IsLondon(num)
	return Rules{
		ChainID: new(big.Int).Set(id), IsHomestead: at(c.HomesteadBlock, num), IsEIP150: at(c.EIP150Block, num), IsEIP155: at(c.EIP155Block, num),
		IsEIP158: at(c.EIP158Block, num), IsByzantium: at(c.ByzantiumBlock, num), IsConstantinople: at(c.ConstantinopleBlock, num),
		IsPetersburg: at(c.PetersburgBlock, num), IsIstanbul: at(c.IstanbulBlock, num), IsBerlin: at(c.BerlinBlock, num), IsLondon: c.IsLondon(num),
		IsMerge: isMerge, IsShanghai: isMerge && c.IsShanghai(num, timestamp), IsCancun: isMerge && c.IsCancun(num, timestamp),
	}
}
