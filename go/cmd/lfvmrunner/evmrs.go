//go:build evmrs

package main

import _ "github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"

const prefix = "evmrs"

func setup() error { return nil }
