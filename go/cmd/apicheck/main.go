// Command apicheck monitors the shared interface package: opcode table, values,
// storage status, texts and registries.
package main

import (
	"flag"
	"os"

	"verif/rep"
)

var (
	R        = rep.New()
	seed     int64
	thorough bool
)

func main() {
	out := flag.String("out", "", "report")
	prop := flag.String("prop", "", "property")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.BoolVar(&thorough, "thorough", false, "explore deeper")
	flag.Parse()
	f, ok := map[string]func(){"T02": opcodes, "G01": values, "G02": storageStatus, "G03": registries, "G04": texts}[*prop]
	if !ok || *out == "" {
		os.Exit(9)
	}
	R.Guard(*prop, f)
	R.Write(*out)
}

func scale(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}
