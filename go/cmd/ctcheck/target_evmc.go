//go:build evmc

package main

import (
	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"
)

func newTarget() ct.Evm { return evmzero.NewConformanceTestingTarget() }
