//go:build evmrs

package main

import (
	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"
)

func newTarget() ct.Evm { return evmrs.NewConformanceTestingTarget() }
