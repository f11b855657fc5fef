// evmcheck drives the monitors of one virtual-machine property: it generates
// executions, has the systems under test run them in their own processes, and
// checks the recorded outcomes offline against the reference machine or against
// each other.
package main

import (
	"flag"
	"os"
	"strings"

	"verif/rep"
)

func main() {
	prop := flag.String("prop", "", "property id")
	work := flag.String("work", "", "scratch directory")
	out := flag.String("out", "", "report file")
	seed := flag.Int64("seed", 1, "seed")
	thorough := flag.Bool("thorough", false, "thorough tier")
	bins := flag.String("bins", "", "name=path,...")
	flag.Parse()
	d := &drv{prop: *prop, work: *work, seed: *seed, thorough: *thorough, r: rep.New(), bins: map[string]string{}}
	for _, b := range strings.Split(*bins, ",") {
		if k, v, ok := strings.Cut(b, "="); ok {
			d.bins[k] = v
		}
	}
	f, ok := map[string]func(){
		"Z01": d.z01, "Z02": d.z02, "Z03": d.z03, "Z04": d.z04, "Z05": d.z05, "Z06": d.z06, "Z07": d.z07, "Z09": d.z09, "Z10": d.z10, "Z11": d.z11, "Z12": d.z12,
		"A01": d.a01, "A03": d.a03,
		"E01": d.e01, "E02": d.e02, "E03": d.e03, "E04": d.e04, "E05": d.e05, "E06": d.e06, "E07": d.e07, "E08": d.e08, "E09": d.e09,
		"L01": d.l01, "L02": d.l02, "L03": d.l03, "L04": d.l04, "L05": d.l05, "L06": d.l06, "L07": d.l07, "L08": d.l08, "L09": d.l09,
	}[*prop]
	if !ok {
		fatal("unknown property %s", *prop)
	}
	f()
	d.r.Write(*out)
	os.Exit(0)
}
