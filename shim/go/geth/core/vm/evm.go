package vm

// The call machinery of go-ethereum v1.14.8 with the extensions of the fork the
// repository uses: exchangeable interpreters, contracts with access to the
// state, call interceptors and an accessible call depth.

import (
	"errors"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

var (
	ErrOutOfGas                 = errors.New("out of gas")
	ErrCodeStoreOutOfGas        = errors.New("contract creation code storage out of gas")
	ErrDepth                    = errors.New("max call depth exceeded")
	ErrInsufficientBalance      = errors.New("insufficient balance for transfer")
	ErrContractAddressCollision = errors.New("contract address collision")
	ErrExecutionReverted        = errors.New("execution reverted")
	ErrMaxCodeSizeExceeded      = errors.New("max code size exceeded")
	ErrMaxInitCodeSizeExceeded  = errors.New("max initcode size exceeded")
	ErrInvalidJump              = errors.New("invalid jump destination")
	ErrWriteProtection          = errors.New("write protection")
	ErrReturnDataOutOfBounds    = errors.New("return data out of bounds")
	ErrGasUintOverflow          = errors.New("gas uint64 overflow")
	ErrInvalidCode              = errors.New("invalid code: must not begin with 0xef")
	ErrNonceUintOverflow        = errors.New("nonce uint64 overflow")
)

type ErrStackUnderflow struct{}
type ErrStackOverflow struct{}
type ErrInvalidOpCode struct{}

func (ErrStackUnderflow) Error() string { return "stack underflow" }
func (ErrStackOverflow) Error() string  { return "stack limit reached" }
func (ErrInvalidOpCode) Error() string  { return "invalid opcode" }

type StateDB interface {
	CreateAccount(common.Address)
	CreateContract(common.Address)
	SubBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	AddBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	GetBalance(common.Address) *uint256.Int
	GetNonce(common.Address) uint64
	SetNonce(common.Address, uint64)
	GetCodeHash(common.Address) common.Hash
	GetCode(common.Address) []byte
	SetCode(common.Address, []byte)
	GetCodeSize(common.Address) int
	AddRefund(uint64)
	SubRefund(uint64)
	GetRefund() uint64
	GetCommittedState(common.Address, common.Hash) common.Hash
	GetState(common.Address, common.Hash) common.Hash
	SetState(common.Address, common.Hash, common.Hash)
	GetStorageRoot(common.Address) common.Hash
	GetTransientState(common.Address, common.Hash) common.Hash
	SetTransientState(common.Address, common.Hash, common.Hash)
	SelfDestruct(common.Address)
	HasSelfDestructed(common.Address) bool
	Selfdestruct6780(common.Address)
	Exist(common.Address) bool
	Empty(common.Address) bool
	AddressInAccessList(common.Address) bool
	SlotInAccessList(common.Address, common.Hash) (addressOk bool, slotOk bool)
	AddAddressToAccessList(common.Address)
	AddSlotToAccessList(common.Address, common.Hash)
	PointCache() *utils.PointCache
	Prepare(rules params.Rules, sender, coinbase common.Address, dest *common.Address, precompiles []common.Address, txAccesses types.AccessList)
	RevertToSnapshot(int)
	Snapshot() int
	AddLog(*types.Log)
	AddPreimage(common.Hash, []byte)
	Witness() *stateless.Witness
}

type (
	CanTransferFunc func(StateDB, common.Address, *uint256.Int) bool
	TransferFunc    func(StateDB, common.Address, common.Address, *uint256.Int)
	GetHashFunc     func(uint64) common.Hash
)

type BlockContext struct {
	CanTransfer CanTransferFunc
	Transfer    TransferFunc
	GetHash     GetHashFunc
	Coinbase    common.Address
	GasLimit    uint64
	BlockNumber *big.Int
	Time        uint64
	Difficulty  *big.Int
	BaseFee     *big.Int
	BlobBaseFee *big.Int
	Random      *common.Hash
}

type TxContext struct {
	Origin     common.Address
	GasPrice   *big.Int
	BlobHashes []common.Hash
	BlobFeeCap *big.Int
}

type PrecompiledStateContract interface {
	Run(stateDB StateDB, ctx BlockContext, txCtx TxContext, caller common.Address, input []byte, suppliedGas uint64) ([]byte, uint64, error)
}

type Interpreter interface {
	Run(contract *Contract, input []byte, readOnly bool) ([]byte, error)
}

type InterpreterFactory func(*EVM) Interpreter

type Config struct {
	NoBaseFee        bool
	Interpreter      InterpreterFactory
	StatePrecompiles map[common.Address]PrecompiledStateContract
}

type CallInterceptor interface {
	Call(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	CallCode(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	DelegateCall(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64) ([]byte, uint64, error)
	StaticCall(env *EVM, me ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error)
	Create(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int) ([]byte, common.Address, uint64, error)
	Create2(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int, salt *uint256.Int) ([]byte, common.Address, uint64, error)
}

type EVM struct {
	Context BlockContext
	TxContext
	StateDB         StateDB
	CallInterceptor CallInterceptor
	Config          Config

	depth       int
	chainConfig *params.ChainConfig
	chainRules  params.Rules
	interpreter Interpreter
}

func NewEVM(blockCtx BlockContext, txCtx TxContext, statedb StateDB, chainConfig *params.ChainConfig, config Config) *EVM {
	evm := &EVM{Context: blockCtx, TxContext: txCtx, StateDB: statedb, Config: config, chainConfig: chainConfig,
		chainRules: chainConfig.Rules(blockCtx.BlockNumber, blockCtx.Random != nil, blockCtx.Time)}
	if config.Interpreter != nil {
		evm.interpreter = config.Interpreter(evm)
	} else {
		evm.interpreter = &EVMInterpreter{evm}
	}
	return evm
}

func (evm *EVM) GetDepth() int                    { return evm.depth }
func (evm *EVM) SetDepth(d int)                   { evm.depth = d }
func (evm *EVM) ChainConfig() *params.ChainConfig { return evm.chainConfig }
func (evm *EVM) Interpreter() Interpreter         { return evm.interpreter }

func (evm *EVM) precompile(addr common.Address) (PrecompiledContract, bool) {
	t := PrecompiledContractsIstanbul
	switch {
	case evm.chainRules.IsCancun:
		t = PrecompiledContractsCancun
	case evm.chainRules.IsBerlin:
		t = PrecompiledContractsBerlin
	}
	p, ok := t[addr]
	return p, ok
}

func RunPrecompiledContract(p PrecompiledContract, input []byte, gas uint64) ([]byte, uint64, error) {
	cost := p.RequiredGas(input)
	if gas < cost {
		return nil, 0, ErrOutOfGas
	}
	out, err := p.Run(input)
	return out, gas - cost, err
}

func (evm *EVM) finish(snapshot int, ret []byte, gas uint64, err error) ([]byte, uint64, error) {
	if err != nil {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			gas = 0
		}
	}
	return ret, gas, err
}

func (evm *EVM) Call(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Call(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !value.IsZero() && !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	snapshot := evm.StateDB.Snapshot()
	p, isPrecompile := evm.precompile(addr)
	sp, isStatePrecompile := evm.Config.StatePrecompiles[addr]
	if !evm.StateDB.Exist(addr) {
		if !isPrecompile && !isStatePrecompile && evm.chainRules.IsEIP158 && value.IsZero() {
			return nil, gas, nil
		}
		evm.StateDB.CreateAccount(addr)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), addr, value)
	switch {
	case isPrecompile:
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	case isStatePrecompile:
		ret, gas, err = sp.Run(evm.StateDB, evm.Context, evm.TxContext, caller.Address(), input, gas)
	default:
		if code := evm.StateDB.GetCode(addr); len(code) > 0 {
			contract := NewContract(caller, AccountRef(addr), value, gas)
			contract.SetCallCode(&addr, evm.StateDB.GetCodeHash(addr), code)
			ret, err = evm.interpreter.Run(contract, input, false)
			gas = contract.Gas
		}
	}
	return evm.finish(snapshot, ret, gas, err)
}

func (evm *EVM) other(snapshot int, contract *Contract, addr common.Address, input []byte, gas uint64, readOnly bool) (ret []byte, left uint64, err error) {
	if p, isPrecompile := evm.precompile(addr); isPrecompile {
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	} else {
		contract.SetCallCode(&addr, evm.StateDB.GetCodeHash(addr), evm.StateDB.GetCode(addr))
		ret, err = evm.interpreter.Run(contract, input, readOnly)
		gas = contract.Gas
	}
	return evm.finish(snapshot, ret, gas, err)
}

func (evm *EVM) CallCode(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.CallCode(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	return evm.other(evm.StateDB.Snapshot(), NewContract(caller, AccountRef(caller.Address()), value, gas), addr, input, gas, false)
}

func (evm *EVM) DelegateCall(caller ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.DelegateCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	return evm.other(evm.StateDB.Snapshot(), NewContract(caller, AccountRef(caller.Address()), nil, gas).AsDelegate(), addr, input, gas, false)
}

func (evm *EVM) StaticCall(caller ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.StaticCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	snapshot := evm.StateDB.Snapshot()
	evm.StateDB.AddBalance(addr, new(uint256.Int), tracing.BalanceChangeTouchAccount)
	return evm.other(snapshot, NewContract(caller, AccountRef(addr), new(uint256.Int), gas), addr, input, gas, true)
}

func (evm *EVM) Create(caller ContractRef, code []byte, gas uint64, value *uint256.Int) ([]byte, common.Address, uint64, error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create(evm, caller, code, gas, value)
	}
	addr := crypto.CreateAddress(caller.Address(), evm.StateDB.GetNonce(caller.Address()))
	return evm.create(caller, code, common.Hash{}, gas, value, addr)
}

func (evm *EVM) Create2(caller ContractRef, code []byte, gas uint64, endowment *uint256.Int, salt *uint256.Int) ([]byte, common.Address, uint64, error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create2(evm, caller, code, gas, endowment, salt)
	}
	hash := crypto.Keccak256Hash(code)
	return evm.create(caller, code, hash, gas, endowment, crypto.CreateAddress2(caller.Address(), salt.Bytes32(), hash[:]))
}

func (evm *EVM) create(caller ContractRef, code []byte, hash common.Hash, gas uint64, value *uint256.Int, address common.Address) ([]byte, common.Address, uint64, error) {
	if evm.depth > int(params.CallCreateDepth) {
		return nil, common.Address{}, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, common.Address{}, gas, ErrInsufficientBalance
	}
	nonce := evm.StateDB.GetNonce(caller.Address())
	if nonce+1 < nonce {
		return nil, common.Address{}, gas, ErrNonceUintOverflow
	}
	evm.StateDB.SetNonce(caller.Address(), nonce+1)
	if evm.chainRules.IsBerlin {
		evm.StateDB.AddAddressToAccessList(address)
	}
	contractHash := evm.StateDB.GetCodeHash(address)
	if evm.StateDB.GetNonce(address) != 0 || contractHash != (common.Hash{}) && contractHash != types.EmptyCodeHash {
		return nil, common.Address{}, 0, ErrContractAddressCollision
	}
	snapshot := evm.StateDB.Snapshot()
	if !evm.StateDB.Exist(address) {
		evm.StateDB.CreateAccount(address)
	}
	evm.StateDB.CreateContract(address)
	if evm.chainRules.IsEIP158 {
		evm.StateDB.SetNonce(address, 1)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), address, value)
	contract := NewContract(caller, AccountRef(address), value, gas)
	contract.SetCallCode(&address, hash, code)
	contract.IsDeployment = true
	ret, err := evm.interpreter.Run(contract, nil, false)
	if err == nil && evm.chainRules.IsEIP158 && len(ret) > params.MaxCodeSize {
		err = ErrMaxCodeSizeExceeded
	}
	if err == nil && len(ret) >= 1 && ret[0] == 0xEF && evm.chainRules.IsLondon {
		err = ErrInvalidCode
	}
	if err == nil {
		if contract.UseGas(uint64(len(ret)) * params.CreateDataGas) {
			evm.StateDB.SetCode(address, ret)
		} else {
			err = ErrCodeStoreOutOfGas
		}
	}
	ret, contract.Gas, err = evm.finish(snapshot, ret, contract.Gas, err)
	return ret, address, contract.Gas, err
}

// ContractRef and Contract as in go-ethereum.
type ContractRef interface{ Address() common.Address }

type AccountRef common.Address

func (ar AccountRef) Address() common.Address { return (common.Address)(ar) }

type Contract struct {
	CallerAddress common.Address
	caller        ContractRef
	self          ContractRef
	Code          []byte
	CodeHash      common.Hash
	CodeAddr      *common.Address
	Input         []byte
	IsDeployment  bool
	Gas           uint64
	value         *uint256.Int
}

func NewContract(caller ContractRef, object ContractRef, value *uint256.Int, gas uint64) *Contract {
	return &Contract{CallerAddress: caller.Address(), caller: caller, self: object, Gas: gas, value: value}
}

func (c *Contract) AsDelegate() *Contract {
	parent := c.caller.(*Contract)
	c.CallerAddress, c.value = parent.CallerAddress, parent.value
	return c
}

func (c *Contract) SetCallCode(addr *common.Address, hash common.Hash, code []byte) {
	c.Code, c.CodeHash, c.CodeAddr = code, hash, addr
}
func (c *Contract) Caller() common.Address  { return c.CallerAddress }
func (c *Contract) Address() common.Address { return c.self.Address() }
func (c *Contract) Value() *uint256.Int     { return c.value }
func (c *Contract) UseGas(gas uint64) bool {
	if c.Gas < gas {
		return false
	}
	c.Gas -= gas
	return true
}

// The interpreter of go-ethereum itself is not available: harnesses provide it.
type Status int

const (
	Running Status = iota
	Reverted
	Stopped
	Failed
)

type InterpreterState struct {
	Contract           *Contract
	ReadOnly           bool
	Input              []byte
	Status             Status
	Error              error
	Pc                 uint64
	Stack              *Stack
	Memory             *Memory
	LastCallReturnData []byte
	ReturnData         []byte
}

type EVMInterpreter struct{ evm *EVM }

var (
	RunHook  func(evm *EVM, contract *Contract, input []byte, readOnly bool) ([]byte, error)
	StepHook func(evm *EVM, s *InterpreterState)
)

func (in *EVMInterpreter) Run(contract *Contract, input []byte, readOnly bool) ([]byte, error) {
	if RunHook == nil {
		return nil, fmt.Errorf("no interpreter in this stand-in")
	}
	return RunHook(in.evm, contract, input, readOnly)
}

func (in *EVMInterpreter) Step(s *InterpreterState) { StepHook(in.evm, s) }

type Stack struct{ data []uint256.Int }

func NewStack() *Stack               { return &Stack{} }
func (s *Stack) Push(d *uint256.Int) { s.data = append(s.data, *d) }
func (s *Stack) Len() int            { return len(s.data) }
func (s *Stack) Data() []uint256.Int { return s.data }
func (s *Stack) Set(d []uint256.Int) { s.data = d }

type Memory struct {
	store       []byte
	lastGasCost uint64
}

func NewMemory() *Memory           { return &Memory{} }
func (m *Memory) Data() []byte     { return m.store }
func (m *Memory) Len() int         { return len(m.store) }
func (m *Memory) LastCost() uint64 { return m.lastGasCost }
func (m *Memory) Resize(size uint64) {
	if uint64(m.Len()) < size {
		m.store = append(m.store, make([]byte, size-uint64(m.Len()))...)
	}
}
func (m *Memory) Set(offset, size uint64, value []byte) {
	if size > 0 {
		if offset+size > uint64(len(m.store)) {
			panic("invalid memory: store empty")
		}
		copy(m.store[offset:offset+size], value)
	}
}

func MemoryGasCost(mem *Memory, newMemSize uint64) (uint64, error) {
	if newMemSize == 0 {
		return 0, nil
	}
	if newMemSize > 0x1FFFFFFFE0 {
		return 0, ErrGasUintOverflow
	}
	words := (newMemSize + 31) / 32
	newMemSize = words * 32
	if newMemSize > uint64(mem.Len()) {
		total := words*3 + words*words/512
		fee := total - mem.lastGasCost
		mem.lastGasCost = total
		return fee, nil
	}
	return 0, nil
}

func addresses(m map[common.Address]PrecompiledContract) (r []common.Address) {
	for a := range m {
		r = append(r, a)
	}
	return
}

var (
	PrecompiledAddressesIstanbul = addresses(PrecompiledContractsIstanbul)
	PrecompiledAddressesBerlin   = addresses(PrecompiledContractsBerlin)
	PrecompiledAddressesCancun   = addresses(PrecompiledContractsCancun)
)
