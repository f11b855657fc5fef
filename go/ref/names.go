package ref

import (
	"fmt"
	"strings"
)

// OpNames lists the opcodes of the Ethereum specification by number; SHA3 and PREVRANDAO
// under the names used in this project.
func OpNames() map[int]string {
	m := map[int]string{0x20: "SHA3"}
	list := func(from int, names string) {
		for i, n := range strings.Fields(names) {
			m[from+i] = n
		}
	}
	list(0x00, "STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND")
	list(0x10, "LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR")
	list(0x30, "ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH")
	list(0x40, "BLOCKHASH COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID SELFBALANCE BASEFEE BLOBHASH BLOBBASEFEE")
	list(0x50, "POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI PC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY PUSH0")
	for i := 1; i <= 32; i++ {
		m[0x5f+i] = fmt.Sprintf("PUSH%d", i)
	}
	for i := 1; i <= 16; i++ {
		m[0x7f+i] = fmt.Sprintf("DUP%d", i)
		m[0x8f+i] = fmt.Sprintf("SWAP%d", i)
	}
	list(0xa0, "LOG0 LOG1 LOG2 LOG3 LOG4")
	list(0xf0, "CREATE CALL CALLCODE RETURN DELEGATECALL CREATE2")
	m[0xfa], m[0xfd], m[0xff] = "STATICCALL", "REVERT", "SELFDESTRUCT"
	return m
}
