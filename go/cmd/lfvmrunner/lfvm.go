//go:build !evmc && !evmrs

package main

import "github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"

const prefix = "lfvm"

func setup() error { return lfvm.RegisterExperimentalInterpreterConfigurations() }
