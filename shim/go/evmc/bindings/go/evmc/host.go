package evmc

/*
#include "glue.h"
*/
import "C"

import (
	"sync"
	"unsafe"
)

type CallKind int

const (
	Call         CallKind = C.EVMC_CALL
	DelegateCall CallKind = C.EVMC_DELEGATECALL
	CallCode     CallKind = C.EVMC_CALLCODE
	Create       CallKind = C.EVMC_CREATE
	Create2      CallKind = C.EVMC_CREATE2
)

type AccessStatus int

const (
	ColdAccess AccessStatus = C.EVMC_ACCESS_COLD
	WarmAccess AccessStatus = C.EVMC_ACCESS_WARM
)

type StorageStatus int

const (
	StorageAssigned         StorageStatus = C.EVMC_STORAGE_ASSIGNED
	StorageAdded            StorageStatus = C.EVMC_STORAGE_ADDED
	StorageDeleted          StorageStatus = C.EVMC_STORAGE_DELETED
	StorageModified         StorageStatus = C.EVMC_STORAGE_MODIFIED
	StorageDeletedAdded     StorageStatus = C.EVMC_STORAGE_DELETED_ADDED
	StorageModifiedDeleted  StorageStatus = C.EVMC_STORAGE_MODIFIED_DELETED
	StorageDeletedRestored  StorageStatus = C.EVMC_STORAGE_DELETED_RESTORED
	StorageAddedDeleted     StorageStatus = C.EVMC_STORAGE_ADDED_DELETED
	StorageModifiedRestored StorageStatus = C.EVMC_STORAGE_MODIFIED_RESTORED
)

type TxContext struct {
	GasPrice    Hash
	Origin      Address
	Coinbase    Address
	Number      int64
	Timestamp   int64
	GasLimit    int64
	PrevRandao  Hash
	ChainID     Hash
	BaseFee     Hash
	BlobBaseFee Hash
	BlobHashes  []Hash
}

type HostContext interface {
	AccountExists(addr Address) bool
	GetStorage(addr Address, key Hash) Hash
	SetStorage(addr Address, key Hash, value Hash) StorageStatus
	GetBalance(addr Address) Hash
	GetCodeSize(addr Address) int
	GetCodeHash(addr Address) Hash
	GetCode(addr Address) []byte
	Selfdestruct(addr Address, beneficiary Address) bool
	GetTxContext() TxContext
	GetBlockHash(number int64) Hash
	EmitLog(addr Address, topics []Hash, data []byte)
	Call(kind CallKind, recipient Address, sender Address, value Hash, input []byte, gas int64, depth int, static bool, salt Hash, codeAddress Address) (output []byte, gasLeft int64, gasRefund int64, createAddr Address, err error)
	AccessAccount(addr Address) AccessStatus
	AccessStorage(addr Address, key Hash) AccessStatus
	GetTransientStorage(addr Address, key Hash) Hash
	SetTransientStorage(addr Address, key Hash, value Hash)
}

var (
	mu       sync.Mutex
	counter  uintptr
	contexts = map[uintptr]*entry{}
)

type entry struct {
	ctx    HostContext
	hashes unsafe.Pointer // blob hashes handed out, kept until the end
}

func addHostContext(ctx HostContext) uintptr {
	mu.Lock()
	defer mu.Unlock()
	counter++
	contexts[counter] = &entry{ctx: ctx}
	return counter
}

func removeHostContext(id uintptr) {
	mu.Lock()
	defer mu.Unlock()
	if e := contexts[id]; e != nil && e.hashes != nil {
		C.free(e.hashes)
	}
	delete(contexts, id)
}

func get(id C.uintptr_t) *entry {
	mu.Lock()
	defer mu.Unlock()
	return contexts[uintptr(id)]
}

func host(id C.uintptr_t) HostContext { return get(id).ctx }

func goAddress(a *C.evmc_address) (r Address) { return *(*Address)(unsafe.Pointer(a)) }
func goHash(a *C.evmc_bytes32) (r Hash)       { return *(*Hash)(unsafe.Pointer(a)) }

//export verifAccountExists
func verifAccountExists(id C.uintptr_t, a *C.evmc_address) C.bool {
	return C.bool(host(id).AccountExists(goAddress(a)))
}

//export verifGetStorage
func verifGetStorage(id C.uintptr_t, a *C.evmc_address, k *C.evmc_bytes32) C.evmc_bytes32 {
	return evmcBytes32(host(id).GetStorage(goAddress(a), goHash(k)))
}

//export verifSetStorage
func verifSetStorage(id C.uintptr_t, a *C.evmc_address, k, v *C.evmc_bytes32) C.enum_evmc_storage_status {
	return C.enum_evmc_storage_status(host(id).SetStorage(goAddress(a), goHash(k), goHash(v)))
}

//export verifGetBalance
func verifGetBalance(id C.uintptr_t, a *C.evmc_address) C.evmc_bytes32 {
	return evmcBytes32(host(id).GetBalance(goAddress(a)))
}

//export verifGetCodeSize
func verifGetCodeSize(id C.uintptr_t, a *C.evmc_address) C.size_t {
	return C.size_t(host(id).GetCodeSize(goAddress(a)))
}

//export verifGetCodeHash
func verifGetCodeHash(id C.uintptr_t, a *C.evmc_address) C.evmc_bytes32 {
	return evmcBytes32(host(id).GetCodeHash(goAddress(a)))
}

//export verifCopyCode
func verifCopyCode(id C.uintptr_t, a *C.evmc_address, offset C.size_t, p *C.uint8_t, size C.size_t) C.size_t {
	code := host(id).GetCode(goAddress(a))
	if uint64(offset) >= uint64(len(code)) {
		return 0
	}
	n := min(uint64(len(code))-uint64(offset), uint64(size))
	if n == 0 {
		return 0
	}
	copy(unsafe.Slice((*byte)(unsafe.Pointer(p)), n), code[offset:])
	return C.size_t(n)
}

//export verifSelfdestruct
func verifSelfdestruct(id C.uintptr_t, a, b *C.evmc_address) C.bool {
	return C.bool(host(id).Selfdestruct(goAddress(a), goAddress(b)))
}

//export verifGetTxContext
func verifGetTxContext(id C.uintptr_t) (r C.struct_evmc_tx_context) {
	e := get(id)
	x := e.ctx.GetTxContext()
	r.tx_gas_price = evmcBytes32(x.GasPrice)
	r.tx_origin = evmcAddress(x.Origin)
	r.block_coinbase = evmcAddress(x.Coinbase)
	r.block_number = C.int64_t(x.Number)
	r.block_timestamp = C.int64_t(x.Timestamp)
	r.block_gas_limit = C.int64_t(x.GasLimit)
	r.block_prev_randao = evmcBytes32(x.PrevRandao)
	r.chain_id = evmcBytes32(x.ChainID)
	r.block_base_fee = evmcBytes32(x.BaseFee)
	r.blob_base_fee = evmcBytes32(x.BlobBaseFee)
	if n := len(x.BlobHashes); n > 0 {
		if e.hashes == nil {
			e.hashes = C.malloc(C.size_t(n * 32))
			for i, h := range x.BlobHashes {
				copy(unsafe.Slice((*byte)(e.hashes), n*32)[i*32:], h[:])
			}
		}
		r.blob_hashes = (*C.evmc_bytes32)(e.hashes)
		r.blob_hashes_count = C.size_t(n)
	}
	return
}

//export verifGetBlockHash
func verifGetBlockHash(id C.uintptr_t, number C.int64_t) C.evmc_bytes32 {
	return evmcBytes32(host(id).GetBlockHash(int64(number)))
}

//export verifEmitLog
func verifEmitLog(id C.uintptr_t, a *C.evmc_address, data *C.uint8_t, size C.size_t, topics *C.evmc_bytes32, count C.size_t) {
	d := C.GoBytes(unsafe.Pointer(data), C.int(size))
	t := make([]Hash, int(count))
	for i := range t {
		t[i] = goHash((*C.evmc_bytes32)(unsafe.Add(unsafe.Pointer(topics), i*32)))
	}
	host(id).EmitLog(goAddress(a), t, d)
}

//export verifCall
func verifCall(id C.uintptr_t, m *C.struct_evmc_message) (r C.struct_evmc_result) {
	output, left, refund, created, err := host(id).Call(CallKind(m.kind), goAddress(&m.recipient), goAddress(&m.sender), goHash(&m.value),
		C.GoBytes(unsafe.Pointer(m.input_data), C.int(m.input_size)), int64(m.gas), int(m.depth), m.flags&C.EVMC_STATIC != 0, goHash(&m.create2_salt), goAddress(&m.code_address))
	if err != nil {
		if e, ok := err.(Error); ok {
			r.status_code = C.enum_evmc_status_code(e)
		} else {
			r.status_code = C.EVMC_INTERNAL_ERROR
		}
	}
	r.gas_left = C.int64_t(left)
	r.gas_refund = C.int64_t(refund)
	r.create_address = evmcAddress(created)
	if len(output) > 0 {
		r.output_data = (*C.uint8_t)(C.CBytes(output))
		r.output_size = C.size_t(len(output))
	}
	return
}

//export verifAccessAccount
func verifAccessAccount(id C.uintptr_t, a *C.evmc_address) C.enum_evmc_access_status {
	return C.enum_evmc_access_status(host(id).AccessAccount(goAddress(a)))
}

//export verifAccessStorage
func verifAccessStorage(id C.uintptr_t, a *C.evmc_address, k *C.evmc_bytes32) C.enum_evmc_access_status {
	return C.enum_evmc_access_status(host(id).AccessStorage(goAddress(a), goHash(k)))
}

//export verifGetTransientStorage
func verifGetTransientStorage(id C.uintptr_t, a *C.evmc_address, k *C.evmc_bytes32) C.evmc_bytes32 {
	return evmcBytes32(host(id).GetTransientStorage(goAddress(a), goHash(k)))
}

//export verifSetTransientStorage
func verifSetTransientStorage(id C.uintptr_t, a *C.evmc_address, k, v *C.evmc_bytes32) {
	host(id).SetTransientStorage(goAddress(a), goHash(k), goHash(v))
}
