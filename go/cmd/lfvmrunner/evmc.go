//go:build evmc

package main

import _ "github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"

const prefix = "evmzero"

func setup() error { return nil }
