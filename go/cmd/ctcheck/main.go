// Command ctcheck monitors the conformance test framework: its integers, states,
// generators, rule language, specification and interpreter adapters.
package main

import (
	"flag"
	"os"

	"verif/rep"
)

var (
	R        = rep.New()
	seed     int64
	thorough bool
)

func main() {
	out := flag.String("out", "", "report")
	prop := flag.String("prop", "", "property")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.BoolVar(&thorough, "thorough", false, "explore deeper")
	flag.Parse()
	f, ok := map[string]func(){"S03": copies, "S04": files, "S05": words, "S06": specification, "S07": conditions, "S08": lookupAndEnumeration, "S09": steps, "A02": steps, "A04": steps, "S01": generators, "S02": satisfiable}[*prop]
	if !ok || *out == "" {
		os.Exit(9)
	}
	R.Guard(*prop, f)
	R.Write(*out)
}

func scale(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}
