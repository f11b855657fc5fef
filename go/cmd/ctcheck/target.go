//go:build !evmc && !evmrs

package main

import (
	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
)

func newTarget() ct.Evm { return lfvm.NewConformanceTestingTarget() }
