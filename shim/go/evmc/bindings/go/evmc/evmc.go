// Package evmc is an offline stand-in for the Go bindings of EVMC v11 with the
// Fantom extensions (code hash in messages, step-wise execution, transient
// storage, blobs).
package evmc

/*
#cgo CFLAGS: -I${SRCDIR}/../../../../../cpp -Wall -Wextra
#cgo !windows LDFLAGS: -ldl
#include "glue.h"
*/
import "C"

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"
	"unsafe"
)

type Address [20]byte
type Hash [32]byte

type Error int32

func (e Error) IsInternalError() bool { return e < 0 }
func (e Error) Error() string         { return fmt.Sprintf("evmc status %d", int32(e)) }

const (
	Failure = Error(C.EVMC_FAILURE)
	Revert  = Error(C.EVMC_REVERT)
)

type Revision int32

const (
	Frontier         Revision = C.EVMC_FRONTIER
	Homestead        Revision = C.EVMC_HOMESTEAD
	TangerineWhistle Revision = C.EVMC_TANGERINE_WHISTLE
	SpuriousDragon   Revision = C.EVMC_SPURIOUS_DRAGON
	Byzantium        Revision = C.EVMC_BYZANTIUM
	Constantinople   Revision = C.EVMC_CONSTANTINOPLE
	Petersburg       Revision = C.EVMC_PETERSBURG
	Istanbul         Revision = C.EVMC_ISTANBUL
	Berlin           Revision = C.EVMC_BERLIN
	London           Revision = C.EVMC_LONDON
	Paris            Revision = C.EVMC_PARIS
	Shanghai         Revision = C.EVMC_SHANGHAI
	Cancun           Revision = C.EVMC_CANCUN
	Prague           Revision = C.EVMC_PRAGUE
)

type StepStatus int32

const (
	Running  StepStatus = C.EVMC_STEP_RUNNING
	Stopped  StepStatus = C.EVMC_STEP_STOPPED
	Returned StepStatus = C.EVMC_STEP_RETURNED
	Reverted StepStatus = C.EVMC_STEP_REVERTED
	Failed   StepStatus = C.EVMC_STEP_FAILED
)

type VM struct{ handle *C.struct_evmc_vm }

type VMSteppable struct{ handle *C.struct_evmc_vm_steppable }

// symbol derives the factory's name from the library's file name.
func symbol(filename, prefix string) string {
	n := filepath.Base(filename)
	n = strings.TrimPrefix(n, "lib")
	if i := strings.IndexByte(n, '.'); i >= 0 {
		n = n[:i]
	}
	return prefix + strings.ReplaceAll(n, "-", "_")
}

func load(filename, prefix string) (unsafe.Pointer, error) {
	f := C.CString(filename)
	s := C.CString(symbol(filename, prefix))
	defer C.free(unsafe.Pointer(f))
	defer C.free(unsafe.Pointer(s))
	var msg *C.char
	p := C.verif_load(f, s, &msg)
	if p == nil {
		if msg != nil {
			return nil, errors.New(C.GoString(msg))
		}
		return nil, errors.New("EVMC loading failed: " + filename)
	}
	return p, nil
}

func Load(filename string) (*VM, error) {
	p, err := load(filename, "evmc_create_")
	if err != nil {
		return nil, err
	}
	return &VM{(*C.struct_evmc_vm)(p)}, nil
}

func LoadSteppable(filename string) (*VMSteppable, error) {
	p, err := load(filename, "evmc_create_steppable_")
	if err != nil {
		return nil, err
	}
	return &VMSteppable{(*C.struct_evmc_vm_steppable)(p)}, nil
}

func (vm *VM) Destroy()                  { C.verif_destroy(vm.handle) }
func (vm *VM) GetHandle() unsafe.Pointer { return unsafe.Pointer(vm.handle) }
func (vm *VM) Name() string              { return C.GoString(vm.handle.name) }
func (vm *VM) Version() string           { return C.GoString(vm.handle.version) }

func (vm *VM) SetOption(name, value string) error {
	n, v := C.CString(name), C.CString(value)
	defer C.free(unsafe.Pointer(n))
	defer C.free(unsafe.Pointer(v))
	switch r := C.verif_set_option(vm.handle, n, v); r {
	case C.EVMC_SET_OPTION_SUCCESS:
		return nil
	case C.EVMC_SET_OPTION_INVALID_NAME:
		return fmt.Errorf("evmc: option '%s' not accepted", name)
	case C.EVMC_SET_OPTION_INVALID_VALUE:
		return fmt.Errorf("evmc: option '%s' has invalid value", name)
	default:
		return fmt.Errorf("evmc: setting an option answered %d", r)
	}
}

type Result struct {
	Output    []byte
	GasLeft   int64
	GasRefund int64
}

func (vm *VM) Execute(ctx HostContext, rev Revision, kind CallKind, static bool, depth int, gas int64,
	recipient Address, sender Address, input []byte, value Hash, codeHash *Hash, code []byte) (res Result, err error) {
	id := addHostContext(ctx)
	defer removeHostContext(id)
	flags := C.uint32_t(0)
	if static {
		flags |= C.EVMC_STATIC
	}
	r, s, v := evmcAddress(recipient), evmcAddress(sender), evmcBytes32(value)
	var h C.evmc_bytes32
	if codeHash != nil {
		h = evmcBytes32(*codeHash)
	}
	result := C.verif_execute(vm.handle, C.uintptr_t(id), uint32(rev), C.enum_evmc_call_kind(kind), flags, C.int32_t(depth), C.int64_t(gas),
		&r, &s, bytesPtr(input), C.size_t(len(input)), &v, C.bool(codeHash != nil), &h, bytesPtr(code), C.size_t(len(code)))
	res.Output = C.GoBytes(unsafe.Pointer(result.output_data), C.int(result.output_size))
	res.GasLeft = int64(result.gas_left)
	res.GasRefund = int64(result.gas_refund)
	if result.status_code != C.EVMC_SUCCESS {
		err = Error(result.status_code)
	}
	C.verif_release(&result)
	return res, err
}

type StepParameters struct {
	Context        HostContext
	Revision       Revision
	Kind           CallKind
	Static         bool
	Depth          int
	Gas            int64
	GasRefund      int64
	Recipient      Address
	Sender         Address
	Input          []byte
	LastCallResult []byte
	Value          Hash
	CodeHash       *Hash
	Code           []byte
	StepStatusCode StepStatus
	Pc             uint64
	Stack          []byte
	Memory         []byte
	NumSteps       int
}

type StepResult struct {
	StepStatusCode     StepStatus
	StatusCode         Error
	Revision           Revision
	Pc                 uint64
	GasLeft            int64
	GasRefund          int64
	Output             []byte
	Stack              []byte
	Memory             []byte
	LastCallReturnData []byte
}

func (vm *VMSteppable) Destroy() { C.verif_destroy_steppable(vm.handle) }

func (vm *VMSteppable) StepN(p StepParameters) (res StepResult, err error) {
	id := addHostContext(p.Context)
	defer removeHostContext(id)
	flags := C.uint32_t(0)
	if p.Static {
		flags |= C.EVMC_STATIC
	}
	r, s, v := evmcAddress(p.Recipient), evmcAddress(p.Sender), evmcBytes32(p.Value)
	var h C.evmc_bytes32
	if p.CodeHash != nil {
		h = evmcBytes32(*p.CodeHash)
	}
	result := C.verif_step_n(vm.handle, C.uintptr_t(id), uint32(p.Revision), C.enum_evmc_call_kind(p.Kind), flags, C.int32_t(p.Depth), C.int64_t(p.Gas),
		&r, &s, bytesPtr(p.Input), C.size_t(len(p.Input)), &v, C.bool(p.CodeHash != nil), &h, bytesPtr(p.Code), C.size_t(len(p.Code)),
		C.enum_evmc_step_status_code(p.StepStatusCode), C.uint64_t(p.Pc), C.int64_t(p.GasRefund),
		bytesPtr(p.Stack), C.size_t(len(p.Stack)/32), bytesPtr(p.Memory), C.size_t(len(p.Memory)), bytesPtr(p.LastCallResult), C.size_t(len(p.LastCallResult)), C.int32_t(p.NumSteps))
	res = StepResult{
		StepStatusCode:     StepStatus(result.step_status_code),
		StatusCode:         Error(result.status_code),
		Revision:           Revision(result.revision),
		Pc:                 uint64(result.pc),
		GasLeft:            int64(result.gas_left),
		GasRefund:          int64(result.gas_refund),
		Output:             C.GoBytes(unsafe.Pointer(result.output_data), C.int(result.output_size)),
		Stack:              C.GoBytes(unsafe.Pointer(result.stack), C.int(result.stack_size*32)),
		Memory:             C.GoBytes(unsafe.Pointer(result.memory), C.int(result.memory_size)),
		LastCallReturnData: C.GoBytes(unsafe.Pointer(result.last_call_return_data), C.int(result.last_call_return_data_size)),
	}
	C.verif_release_step(&result)
	return res, nil
}

func bytesPtr(b []byte) *C.uint8_t {
	if len(b) == 0 {
		return nil
	}
	return (*C.uint8_t)(unsafe.Pointer(&b[0]))
}

func evmcAddress(a Address) (r C.evmc_address) {
	for i := range a {
		r.bytes[i] = C.uint8_t(a[i])
	}
	return
}

func evmcBytes32(a Hash) (r C.evmc_bytes32) {
	for i := range a {
		r.bytes[i] = C.uint8_t(a[i])
	}
	return
}
