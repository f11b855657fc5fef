package main

import (
	"strconv"
	"strings"

	"verif/evmgen"
	"verif/rep"
)

// a01 judges evmzero as Go programs use it: through the registry and the
// adapter, in every registered configuration.
func (d *drv) a01() {
	cfgs := strings.Fields(d.bins["configs"])
	d.r.Add("configurations", int64(len(cfgs)))
	az := func(cfg string) sut {
		return sut{name: cfg, bin: d.bins["az"], args: []string{"plain", cfg}}
	}
	foci := map[string]func(g *evmgen.Gen, i int){
		"evmzero":                   nil,
		"evmzero-no-sha3-cache":     cycle("hashes", "structured", "calls"),
		"evmzero-no-analysis-cache": cycle("jumps", "structured", "mutated"),
	}
	for i, cfg := range cfgs {
		n := d.scale(4, 40)
		if cfg == "evmzero" {
			n = d.scale(12, 200)
		}
		setup, ok := foci[cfg]
		if !ok {
			setup = cycle("structured", "calls", "storage", "opfocus", "rawops", "memory")
		}
		d.shardsFrom(100*i, az(cfg), n, 1500, setup)
	}
	d.shardsFrom(2000, az("evmzero"), d.scale(10, 100), 1500, d.callCases())
	d.long(az("evmzero"), d.scale(4, 40))
	d.longPc(az("evmzero"))
	d.shardsFrom(3000, sut{name: "evmzero-mixed", bin: d.bins["az"], args: []string{"mixed", strconv.FormatInt(d.seed, 10)}}, d.scale(8, 80), 1200, nil)
	d.revisions(az("evmzero"), cfgs)
	d.profiles(d.scale(6, 60), func(sh int, dir, mode string) sut {
		cfg := map[string]string{"full": "evmzero-profiling", "external": "evmzero-profiling-external"}[mode]
		return sut{name: cfg, bin: d.bins["az"], args: []string{"profile", strconv.FormatInt(d.seed*100+int64(sh), 10), dir, cfg}}
	})
	d.adapterThreads("evmzero", "evmzero-no-analysis-cache", "evmzero-no-sha3-cache")
}

// a03 does the same for evmrs.
func (d *drv) a03() {
	cfgs := strings.Fields(d.bins["configs"])
	d.r.Add("configurations", int64(len(cfgs)))
	az := func(cfg string) sut {
		return sut{name: cfg, bin: d.bins["az"], args: []string{"plain", cfg}, rust: true}
	}
	for i, cfg := range cfgs {
		n := d.scale(8, 80)
		if cfg == "evmrs" {
			n = d.scale(16, 240)
		}
		d.shardsFrom(100*i, az(cfg), n, 1500, nil)
	}
	d.shardsFrom(2000, az("evmrs"), d.scale(10, 100), 1500, d.callCases())
	d.long(az("evmrs"), d.scale(4, 40))
	d.longPc(az("evmrs"))
	d.shardsFrom(3000, sut{name: "evmrs-mixed", bin: d.bins["az"], args: []string{"mixed", strconv.FormatInt(d.seed, 10)}}, d.scale(8, 80), 1200, nil)
	d.revisions(az("evmrs"), cfgs)
	d.adapterThreads("evmrs", "evmrs")
}

func (d *drv) adapterThreads(cfgs ...string) {
	for i, cfg := range cfgs {
		s := sut{name: cfg + "-race", bin: d.bins["az-race"], env: []string{"GORACE=halt_on_error=1 exitcode=66"}}
		d.threads(s, 5000+i*100, d.scale(1, 20), 120, func(sh int) []string {
			return []string{"threads", cfg, strconv.Itoa([]int{8, 3, 5}[(sh+i)%3]), "4", strconv.FormatInt(d.seed+int64(sh), 10)}
		})
	}
}

// shardsFrom is differential with its own range of generator seeds, for hosts
// that answer every call: the adapter has no way to hand on a host's failure.
func (d *drv) shardsFrom(first int, s sut, shards, per int, setup func(g *evmgen.Gen, i int)) {
	rep.Parallel(shards, func(sh int) {
		its := d.gen(first+sh, per, setup)
		kept := its[:0]
		for _, it := range its {
			failing := false
			for _, r := range it.c.Replies {
				failing = failing || r.Status == 3
			}
			if !failing {
				kept = append(kept, it)
			}
		}
		o := d.exec(cases(kept), s)
		d.compare(s, kept, o, full)
		d.observe(kept)
		if sh == 0 {
			d.r.Sample("%s", sampleOf(kept[len(kept)/2]))
		}
	})
}
