package main

import (
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/tosca/vm"

	"verif/ref"
	"verif/rep"
)

// The constants by name, so that the numbers are checked as well.
var constants = map[string]vm.OpCode{
	"STOP": vm.STOP, "ADD": vm.ADD, "MUL": vm.MUL, "SUB": vm.SUB, "DIV": vm.DIV, "SDIV": vm.SDIV, "MOD": vm.MOD, "SMOD": vm.SMOD, "ADDMOD": vm.ADDMOD, "MULMOD": vm.MULMOD, "EXP": vm.EXP, "SIGNEXTEND": vm.SIGNEXTEND,
	"LT": vm.LT, "GT": vm.GT, "SLT": vm.SLT, "SGT": vm.SGT, "EQ": vm.EQ, "ISZERO": vm.ISZERO, "AND": vm.AND, "OR": vm.OR, "XOR": vm.XOR, "NOT": vm.NOT, "BYTE": vm.BYTE, "SHL": vm.SHL, "SHR": vm.SHR, "SAR": vm.SAR, "SHA3": vm.SHA3,
	"ADDRESS": vm.ADDRESS, "BALANCE": vm.BALANCE, "ORIGIN": vm.ORIGIN, "CALLER": vm.CALLER, "CALLVALUE": vm.CALLVALUE, "CALLDATALOAD": vm.CALLDATALOAD, "CALLDATASIZE": vm.CALLDATASIZE, "CALLDATACOPY": vm.CALLDATACOPY, "CODESIZE": vm.CODESIZE, "CODECOPY": vm.CODECOPY, "GASPRICE": vm.GASPRICE, "EXTCODESIZE": vm.EXTCODESIZE, "EXTCODECOPY": vm.EXTCODECOPY, "RETURNDATASIZE": vm.RETURNDATASIZE, "RETURNDATACOPY": vm.RETURNDATACOPY, "EXTCODEHASH": vm.EXTCODEHASH,
	"BLOCKHASH": vm.BLOCKHASH, "COINBASE": vm.COINBASE, "TIMESTAMP": vm.TIMESTAMP, "NUMBER": vm.NUMBER, "PREVRANDAO": vm.PREVRANDAO, "GASLIMIT": vm.GASLIMIT, "CHAINID": vm.CHAINID, "SELFBALANCE": vm.SELFBALANCE, "BASEFEE": vm.BASEFEE, "BLOBHASH": vm.BLOBHASH, "BLOBBASEFEE": vm.BLOBBASEFEE,
	"POP": vm.POP, "MLOAD": vm.MLOAD, "MSTORE": vm.MSTORE, "MSTORE8": vm.MSTORE8, "SLOAD": vm.SLOAD, "SSTORE": vm.SSTORE, "JUMP": vm.JUMP, "JUMPI": vm.JUMPI, "PC": vm.PC, "MSIZE": vm.MSIZE, "GAS": vm.GAS, "JUMPDEST": vm.JUMPDEST, "TLOAD": vm.TLOAD, "TSTORE": vm.TSTORE, "MCOPY": vm.MCOPY, "PUSH0": vm.PUSH0,
	"PUSH1": vm.PUSH1, "PUSH2": vm.PUSH2, "PUSH3": vm.PUSH3, "PUSH4": vm.PUSH4, "PUSH5": vm.PUSH5, "PUSH6": vm.PUSH6, "PUSH7": vm.PUSH7, "PUSH8": vm.PUSH8, "PUSH9": vm.PUSH9, "PUSH10": vm.PUSH10, "PUSH11": vm.PUSH11, "PUSH12": vm.PUSH12, "PUSH13": vm.PUSH13, "PUSH14": vm.PUSH14, "PUSH15": vm.PUSH15, "PUSH16": vm.PUSH16,
	"PUSH17": vm.PUSH17, "PUSH18": vm.PUSH18, "PUSH19": vm.PUSH19, "PUSH20": vm.PUSH20, "PUSH21": vm.PUSH21, "PUSH22": vm.PUSH22, "PUSH23": vm.PUSH23, "PUSH24": vm.PUSH24, "PUSH25": vm.PUSH25, "PUSH26": vm.PUSH26, "PUSH27": vm.PUSH27, "PUSH28": vm.PUSH28, "PUSH29": vm.PUSH29, "PUSH30": vm.PUSH30, "PUSH31": vm.PUSH31, "PUSH32": vm.PUSH32,
	"DUP1": vm.DUP1, "DUP2": vm.DUP2, "DUP3": vm.DUP3, "DUP4": vm.DUP4, "DUP5": vm.DUP5, "DUP6": vm.DUP6, "DUP7": vm.DUP7, "DUP8": vm.DUP8, "DUP9": vm.DUP9, "DUP10": vm.DUP10, "DUP11": vm.DUP11, "DUP12": vm.DUP12, "DUP13": vm.DUP13, "DUP14": vm.DUP14, "DUP15": vm.DUP15, "DUP16": vm.DUP16,
	"SWAP1": vm.SWAP1, "SWAP2": vm.SWAP2, "SWAP3": vm.SWAP3, "SWAP4": vm.SWAP4, "SWAP5": vm.SWAP5, "SWAP6": vm.SWAP6, "SWAP7": vm.SWAP7, "SWAP8": vm.SWAP8, "SWAP9": vm.SWAP9, "SWAP10": vm.SWAP10, "SWAP11": vm.SWAP11, "SWAP12": vm.SWAP12, "SWAP13": vm.SWAP13, "SWAP14": vm.SWAP14, "SWAP15": vm.SWAP15, "SWAP16": vm.SWAP16,
	"LOG0": vm.LOG0, "LOG1": vm.LOG1, "LOG2": vm.LOG2, "LOG3": vm.LOG3, "LOG4": vm.LOG4,
	"CREATE": vm.CREATE, "CALL": vm.CALL, "CALLCODE": vm.CALLCODE, "RETURN": vm.RETURN, "DELEGATECALL": vm.DELEGATECALL, "CREATE2": vm.CREATE2, "STATICCALL": vm.STATICCALL, "REVERT": vm.REVERT, "SELFDESTRUCT": vm.SELFDESTRUCT,
}

func opcodes() {
	names := ref.OpNames()
	if len(constants) != len(names) {
		panic("table of constants incomplete")
	}
	for i, n := range names {
		R.Eval(1)
		if c, ok := constants[n]; !ok || int(c) != i {
			R.Violation("opcode:number:"+n, fmt.Sprintf("%s has number %#x, not %#x", n, int(constants[n]), i), "")
		}
	}
	if vm.INVALID != 0xfe {
		R.Violation("opcode:number:INVALID", fmt.Sprintf("%#x", int(vm.INVALID)), "")
	}
	printed := map[string]int{}
	// several times over, as the table may be shared and must not change
	for round := 0; round < 3; round++ {
		var listed []vm.OpCode
		listed = vm.ValidOpCodesNoPush()
		in := map[vm.OpCode]int{}
		for _, o := range listed {
			in[o]++
		}
		for i := 0; i < 256; i++ {
			op := vm.OpCode(i)
			name, valid := names[i]
			R.Eval(1)
			R.Distinct(rep.Fnv(i))
			if valid {
				R.Add("valid_opcodes", 1)
			}
			if got := vm.IsValid(op); got != valid {
				R.Violation(fmt.Sprintf("opcode:validity:%02x", i), fmt.Sprintf("IsValid(%#02x) = %v", i, got), "")
			}
			width := 1
			if i >= 0x60 && i <= 0x7f {
				width = i - 0x5f + 1
			}
			if got := op.Width(); got != width {
				R.Violation(fmt.Sprintf("opcode:width:%02x", i), fmt.Sprintf("width of %#02x is %d, not %d", i, got, width), "")
			}
			text := op.String()
			if valid && text != name {
				R.Violation(fmt.Sprintf("opcode:name:%02x", i), fmt.Sprintf("%#02x prints as %q, not %q", i, text, name), "")
			}
			if j, found := printed[text]; found && j != i {
				R.Violation(fmt.Sprintf("opcode:same-name:%02x", i), fmt.Sprintf("%#02x and %#02x both print as %q", j, i, text), "")
			}
			printed[text] = i
			want := 0
			if valid && (i < 0x5f || i > 0x7f) {
				want = 1
			}
			if in[op] != want {
				R.Violation(fmt.Sprintf("opcode:list-without-push:%02x", i), fmt.Sprintf("%#02x is listed %d times, not %d", i, in[op], want), "")
			}
		}
		for i := range listed { // the caller owns the list
			listed[i] = vm.INVALID
		}
	}
	R.Sample("0x00 %v ... 0x5f %v width %d, 0x7f %v width %d", vm.OpCode(0), vm.OpCode(0x5f), vm.OpCode(0x5f).Width(), vm.OpCode(0x7f), vm.OpCode(0x7f).Width())
}
