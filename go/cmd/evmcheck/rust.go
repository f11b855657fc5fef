package main

import (
	"fmt"
	"strconv"

	"verif/ref"
)

// rs is a build of the interpreter in Rust with one set of features.
func (d *drv) rs(bin string, args ...string) sut {
	s := d.evmz(bin, args...)
	s.name, s.rust, s.deep = bin, true, bin == "evmrs-tail"
	return s
}

// panics are caught at the interface and become internal errors.
func (d *drv) panics(s sut, cs []*ref.Case, rs map[int]*ref.Result, stderr string) {
	n := 0
	for _, c := range cs {
		if r := rs[c.ID]; r != nil && r.Detail == "-1" {
			if n++; n <= 3 {
				d.r.Violation(s.name+":internal-error", fmt.Sprintf("case %d (%s) ended with an internal error; standard error output:\n%s", c.ID, c.Tag, tail(stderr, 2000)), c.String())
			}
		}
	}
}

var rustSets = []string{"evmrs", "evmrs-perf", "evmrs-cached", "evmrs-inline", "evmrs-tail"}

// sets runs a workload on every build, most of it on the one that is shipped.
func (d *drv) sets(quick, thorough int, f func(s sut, first, shards int)) {
	for i, name := range rustSets {
		if d.bins[name] == "" {
			continue
		}
		n := d.scale(quick, thorough)
		if name == "evmrs-perf" {
			n *= 3
		}
		f(d.rs(name, "plain"), 1000*i, n)
	}
}

func (d *drv) e01() {
	d.sets(6, 80, func(s sut, first, shards int) {
		d.differentialFrom(first, s, shards, 2500, nil)
		d.long(s, d.scale(2, 20))
		d.longPc(s)
	})
}

func (d *drv) e02() {
	d.sets(4, 40, func(s sut, first, shards int) { d.gasSweepFrom(first, s, shards, 160, 16) })
}

func (d *drv) e03() {
	d.sets(4, 40, func(s sut, first, shards int) { d.stepping(s, s, first, shards) })
}

func (d *drv) e04() {
	for i, name := range []string{"evmrs-perf-tsan", "evmrs-cached", "evmrs-perf"} {
		s := d.rs(name)
		d.contend(s, "threads", "8", strconv.Itoa(d.scale([]int{15, 150, 500}[i], 5000)), "1")
		d.threads(s, i*100, d.scale(2, 25), 120, func(sh int) []string {
			return []string{"threads", strconv.Itoa([]int{4, 8, 2, 6}[sh%4]), "4", strconv.FormatInt(d.seed+int64(sh), 10)}
		})
	}
}

// e05 only asks for clean executions.
func (d *drv) e05() {
	for i, name := range []string{"evmrs-asan", "evmrs-perf-asan", "evmrs-inline-asan"} {
		asan, step, leak := nest(d.rs(name, "plain")), d.rs(name, "step", strconv.FormatInt(d.seed, 10)), d.rs(name, "leak", "6")
		step.name, leak.name = name+"-step", name+"-leak"
		d.clean(1000*i, d.scale(10, 100), asan, step, leak)
	}
}

func (d *drv) e06() {
	for i, name := range []string{"evmrs-perf", "evmrs-cached", "evmrs"} {
		d.options(d.rs("evmrs", "fresh"), nest(d.rs(name, "plain")), 1000*i, d.scale(6, 70), []string{"logging"}, "0", "0")
	}
	d.differentialFrom(7000, d.rs("evmrs-perf", "plain"), d.scale(4, 40), 800, hashSetup)
	d.differentialFrom(8000, d.rs("evmrs-cached", "plain"), d.scale(4, 40), 800, hashSetup)
}

func (d *drv) e07() {
	d.sets(4, 50, func(s sut, first, shards int) { d.logs(s, first, shards) })
}

func (d *drv) e08() {
	d.sets(4, 50, func(s sut, first, shards int) { d.staticFrom(first, s, "11", shards) })
}

func (d *drv) e09() {
	d.sets(4, 50, func(s sut, first, shards int) { d.differentialFrom(first, nest(s), shards, 2500, d.callCases()) })
}
