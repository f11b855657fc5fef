package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"verif/evmgen"
	"verif/lfvmrun"
	"verif/ref"
	"verif/rep"
)

func (d *drv) evmz(bin string, args ...string) sut {
	return sut{name: "evmzero", bin: d.bins[bin], args: args, env: []string{
		"ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:max_allocation_size_mb=3000:abort_on_error=0:exitcode=77:malloc_fill_byte=170:max_malloc_fill_size=65536",
		"UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1", "TSAN_OPTIONS=halt_on_error=1:exitcode=66:second_deadlock_stack=1"}}
}

func (d *drv) lfvm(cfg string) sut {
	return sut{name: cfg, bin: d.bins["lfvm"], args: []string{"plain", cfg}}
}

// compare checks recorded outcomes against the oracle with the given relation.
func (d *drv) compare(s sut, its []*item, o outcome, rel func(it *item, got *ref.Result) string) {
	for _, it := range its {
		got, ok := o.res[it.c.ID]
		if !ok {
			continue // crashed or hung; reported by exec
		}
		d.r.Add("compared", 1)
		if diff := rel(it, got); diff != "" {
			d.diff(s, it, diff, got)
		}
	}
}

func full(it *item, got *ref.Result) string {
	if it.vm.Inconclusive {
		return ""
	}
	return lfvmrun.Compare(&it.want, got)
}

// differential compares complete outcomes on generated cases.
func (d *drv) differential(s sut, shards, per int, setup func(g *evmgen.Gen, i int)) {
	d.differentialFrom(0, s, shards, per, setup)
}
func (d *drv) differentialFrom(first int, s sut, shards, per int, setup func(g *evmgen.Gen, i int)) {
	rep.Parallel(shards, func(i int) {
		sh := first + i
		its := d.gen(sh, per, setup)
		o := d.exec(cases(its), s)
		d.compare(s, its, o, full)
		d.observe(its)
		if sh%1000 < 3 {
			d.r.Sample("%s", sampleOf(its[len(its)/2]))
		}
		d.nested(s, o)
	})
}

func sampleOf(it *item) string {
	return fmt.Sprintf("case %d %s rev %d static %v gas %d code %x -> %s gas %d events %d steps %d", it.c.ID, it.c.Tag, it.c.Rev, it.c.Static, it.c.Gas, it.c.Code, it.want.Status, it.want.Gas, len(it.want.Events), it.vm.Steps)
}

// nested evaluates what the host saw when it used the instance re-entrantly.
func (d *drv) nested(s sut, o outcome) {
	if i := strings.Index(o.raw, "nested-mismatch"); i >= 0 {
		d.r.Violation(s.name+":reentrant-run-differs", tail(o.raw[i:], 3000), "")
	}
	if i := strings.LastIndex(o.raw, "nested runs "); i >= 0 {
		var a, b int64
		fmt.Sscanf(o.raw[i:], "nested runs %d compared %d", &a, &b)
		d.r.Add("nested_runs", a)
		d.r.Add("nested_compared", b)
	}
}

func nest(s sut) sut { s.env = append(s.env, "EVMZ_NEST=1"); return s }

// ---------------------------------------------------------------- conformance

func cycle(foci ...string) func(g *evmgen.Gen, i int) {
	return func(g *evmgen.Gen, i int) { g.Focus = foci[i%len(foci)] }
}

func (d *drv) z01() {
	s := d.evmz("evmz", "plain")
	d.differential(s, d.scale(32, 400), 2500, nil)
	d.long(s, d.scale(8, 80))
	d.longPc(s)
}
func (d *drv) l01() {
	s := d.lfvm("lfvm")
	d.differential(s, d.scale(32, 400), 2500, nil)
	d.long(s, d.scale(8, 80))
	d.longPc(s)
}

// long compares complete outcomes of programs beyond 64 KiB.
func (d *drv) long(s sut, shards int) {
	rep.Parallel(shards, func(sh int) {
		g := evmgen.New(d.seed*9176 + int64(sh))
		var its []*item
		for i := 0; i < 24; i++ {
			it := d.oracle(g.Long(900_000_000 + sh*1000 + i))
			its = append(its, it)
			d.r.Add("long_codes", 1)
			if it.want.Status == "success" {
				d.r.Add("long_codes_run_to_the_end", 1)
			}
			d.r.Max("longest_code", int64(len(it.c.Code)))
		}
		d.compare(s, its, d.exec(cases(its), s), full)
		d.observe(its)
	})
}

// longPc is judged apart, as lfvm has no room for such positions.
func (d *drv) longPc(s sut) {
	it := d.oracle(evmgen.New(d.seed).LongPc(990_000_000))
	o := d.exec(cases([]*item{it}), s)
	if got, ok := o.res[it.c.ID]; ok {
		if diff := full(it, got); diff != "" {
			d.r.Violation(s.name+":pc-beyond-64k", "PC at position 65539 of a longer code: "+diff, "")
		}
	}
	d.observe([]*item{it})
}

func (d *drv) callCases() func(g *evmgen.Gen, i int) {
	return cycle("calls", "calls", "calls", "structured")
}

func (d *drv) z11() {
	d.differential(nest(d.evmz("evmz", "plain")), d.scale(24, 300), 2500, d.callCases())
}
func (d *drv) l07() {
	d.differential(d.lfvm("lfvm"), d.scale(24, 300), 2500, d.callCases())
}

// ---------------------------------------------------------------- gas

// gasRel is the part of an outcome the gas properties speak about.
func gasRel(it *item, got *ref.Result) string {
	w := &it.want
	if got.Status == "panic" || got.Status == "error" {
		return got.Status + ": " + got.Detail
	}
	if got.Gas < 0 || got.Gas > it.c.Gas {
		return fmt.Sprintf("gas-created: %d left of %d", got.Gas, it.c.Gas)
	}
	if got.Status == "fail" && got.Gas != 0 {
		return fmt.Sprintf("failure-keeps-gas: %d", got.Gas)
	}
	if it.vm.Inconclusive {
		return ""
	}
	// the interface cannot tell a revert without gas and data from a failure
	if w.Status != got.Status && !(w.Status == "revert" && got.Status == "fail" && w.Gas == 0 && len(w.Output) == 0) {
		return fmt.Sprintf("status: want %s (%s) got %s %s", w.Status, w.Detail, got.Status, got.Detail)
	}
	kinds := func(es []string) (r []string) {
		for _, e := range es {
			k := e[:1]
			if k == "C" { // kind and gas handed out
				f := strings.Fields(e)
				k = f[1] + "/" + f[4]
			}
			r = append(r, k+" ")
		}
		return
	}
	if x := lfvmrun.CompareEvents(kinds(w.Events), kinds(got.Events), w.Status == "fail"); x != "" {
		return x
	}
	if w.Status != "fail" && w.Gas != got.Gas {
		return fmt.Sprintf("gas: want %d got %d", w.Gas, got.Gas)
	}
	return ""
}

var gasOps = []int{0x5a, 0xf0, 0xf1, 0xf2, 0xf4, 0xf5, 0xfa}

// gasSweep runs each program with gas limits at and around every point where
// an instruction boundary is crossed.
func (d *drv) gasSweep(s sut, shards, programs, variants int) {
	d.gasSweepFrom(0, s, shards, programs, variants)
}
func (d *drv) gasSweepFrom(first int, s sut, shards, programs, variants int) {
	rep.Parallel(shards, func(i int) {
		sh := first + i
		g := evmgen.New(d.seed*77_003 + int64(sh)*31 + int64(d.prop[0]))
		foci := []string{"structured", "storage", "calls", "opfocus", "memory", "super", "structured", "mutated"}
		id := sh * 1_000_000
		var its []*item
		base := map[int]*item{} // variant id -> base run
		for p := 0; p < programs; p++ {
			g.Focus = foci[p%len(foci)]
			c := g.Case(id)
			c.Gas = 4_000_000
			// record the gas remaining before each instruction
			w := ref.NewWorld(c)
			v := ref.NewVM(ref.EnvOf(c), w, c.Gas)
			used := map[int64]bool{}
			for n := 0; v.Status == ref.Running && n < 4000; n++ {
				used[c.Gas-v.Gas] = true
				v.Step()
			}
			if v.Status == ref.Running || v.Inconclusive {
				continue
			}
			used[c.Gas-v.Gas] = true
			b := d.oracle(c)
			id++
			its = append(its, b)
			var us []int64
			for u := range used {
				us = append(us, u)
			}
			sortInts(us)
			var limits []int64
			for k := 0; k < variants; k++ {
				u := us[g.R.Intn(len(us))]
				if k%4 == 0 {
					u = us[len(us)-1-g.R.Intn(min(len(us), 4))]
				}
				limits = append(limits, u+int64(g.R.Intn(3)-1))
			}
			if len(us) > 2 && g.R.Intn(2) == 0 {
				u := us[g.R.Intn(len(us))]
				for _, x := range []int64{2299, 2300, 2301} { // stipend and sentry
					limits = append(limits, u+x)
				}
			}
			if p%3 == 0 {
				limits = append(limits, 1<<31-1, 1<<31, 1<<32+1, 1<<53, 1<<62, 1<<63-1)
			}
			for _, l := range limits {
				if l < 0 {
					continue
				}
				x := *c
				x.ID, x.Gas = id, l
				it := &item{c: &x}
				wx := ref.NewWorld(&x)
				vx := ref.NewVM(ref.EnvOf(&x), wx, l)
				vx.MaxMem = 1 << 21
				vx.Run(60_000)
				if vx.Status == ref.Running || vx.Inconclusive {
					continue
				}
				it.want, it.vm = ref.RunCase(&x, &it.hist, 100_000)
				base[id] = b
				id++
				its = append(its, it)
			}
		}
		o := d.exec(cases(its), s)
		d.compare(s, its, o, gasRel)
		// smaller limits: same effects and exactly less gas left, or failure
		for _, it := range its {
			b, got := base[it.c.ID], o.res[it.c.ID]
			if b == nil || got == nil || got.Status == "fail" {
				continue
			}
			all, oblivious := o.res[b.c.ID], true
			for _, op := range gasOps {
				oblivious = oblivious && b.hist[op] == 0
			}
			if all == nil || !oblivious || it.c.Gas > b.c.Gas {
				continue
			}
			d.r.Add("metamorphic_pairs", 1)
			switch {
			case all.Status != got.Status || strings.Join(all.Events, "\n") != strings.Join(got.Events, "\n") || !bytes.Equal(all.Output, got.Output):
				d.diff(s, it, "smaller-limit-changes-behaviour: not a failure, yet different from the run with more gas", got)
			case all.Gas-got.Gas != b.c.Gas-it.c.Gas:
				d.diff(s, it, fmt.Sprintf("smaller-limit-changes-cost: limit lower by %d, gas left lower by %d", b.c.Gas-it.c.Gas, all.Gas-got.Gas), got)
			}
		}
		d.observe(its)
		if sh%1000 < 3 {
			d.r.Sample("%s; %d gas limits", sampleOf(its[0]), len(its))
		}
	})
}

func sortInts(x []int64) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func (d *drv) z02() { d.gasSweep(d.evmz("evmz", "plain"), d.scale(24, 240), 160, 16) }

// ---------------------------------------------------------------- hostile code

func hostile(g *evmgen.Gen, i int) {
	g.Focus = []string{"random", "mutated", "rawops", "opfocus", "memory", "calls", "deep", "jumps", "mutated", "structured"}[i%10]
}

// z03 only asks for clean executions; values are compared between two builds
// that differ in what uninitialized memory contains.
func (d *drv) z03() {
	asan, alt := nest(d.evmz("evmz-asan", "plain")), d.evmz("evmz-alt", "plain")
	asan.name, alt.name = "evmzero-asan", "evmzero-pattern-init"
	alt.env = append(alt.env, "MALLOC_PERTURB_=85")
	step := d.evmz("evmz-asan", "step", strconv.FormatInt(d.seed, 10))
	step.name = "evmzero-asan-step"
	leak := d.evmz("evmz-asan", "leak", "6")
	leak.name = "evmzero-leak"
	// no freed-memory quarantine effects on the numbers are involved: the count is of live bytes
	rep.Parallel(d.scale(24, 240), func(sh int) {
		its := d.gen(sh, 1200, hostile)
		d.observe(its)
		a := d.exec(cases(its), asan)
		d.nested(asan, a)
		b := d.exec(cases(its), alt)
		for _, it := range its {
			x, y := a.res[it.c.ID], b.res[it.c.ID]
			if x == nil || y == nil {
				continue
			}
			d.r.Add("compared_across_fill_patterns", 1)
			if p, q := flat(x), flat(y); p != q {
				d.diff(asan, it, "depends-on-uninitialized-memory: builds with different fill patterns disagree:\n"+p+"\nvs\n"+q, x)
			}
		}
		if sh%4 == 0 {
			d.exec(cases(its[:400]), step)
			o := d.exec(cases(its[:150]), leak)
			d.leak(leak, o)
		}
		if sh%1000 < 3 {
			d.r.Sample("%s", sampleOf(its[sh%5]))
		}
	})
}

// clean runs hostile programs under sanitizers, in one go, stepwise and over and over.
func (d *drv) clean(first, shards int, plain, step, leak sut) {
	rep.Parallel(shards, func(i int) {
		sh := first + i
		its := d.gen(sh, 1200, hostile)
		d.observe(its)
		a := d.exec(cases(its), plain)
		d.nested(plain, a)
		d.compare(plain, its, a, full)
		if sh%3 == 0 {
			d.exec(cases(its[:400]), step)
			d.leak(leak, d.exec(cases(its[:150]), leak))
		}
		if i == 0 {
			d.r.Sample("%s", sampleOf(its[sh%5]))
		}
	})
}

func (d *drv) leak(s sut, o outcome) {
	for _, l := range strings.Split(o.raw, "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "leak" && f[0] != "leakvm" {
			continue
		}
		d.r.Add("leak_measurements", int64(len(f)-1))
		var v []int64
		for _, x := range f[1:] {
			n, _ := strconv.ParseInt(x, 10, 64)
			v = append(v, n)
		}
		n := len(v)
		if n >= 4 && v[n-1] > v[n-2] && v[n-2] > v[n-3] && v[n-1]-v[n-3] >= 64 {
			d.r.Violation(s.name+":memory-leak", fmt.Sprintf("live heap keeps growing over repetitions of one batch (%s): %v", f[0], v), "")
		}
	}
}

func flat(r *ref.Result) string {
	return fmt.Sprintf("%s %s gas %d refund %d output %x\n%s\n%v %v", r.Status, r.Detail, r.Gas, r.Refund, r.Output, strings.Join(r.Events, "\n"), r.WarmAddrs, r.WarmSlots)
}

// ---------------------------------------------------------------- static mode

func staticSetup(g *evmgen.Gen, i int) {
	g.Static = 1
	g.Focus = []string{"structured", "calls", "storage", "structured", "mutated", "rawops", "opfocus", "super"}[i%8]
}

// static is the monitor over the log of effects of a static run.
func (d *drv) static(s sut, code string, shards int) { d.staticFrom(0, s, code, shards) }
func (d *drv) staticFrom(first int, s sut, code string, shards int) {
	rep.Parallel(shards, func(i int) {
		sh := first + i
		its := d.gen(sh, 2000, func(g *evmgen.Gen, i int) {
			staticSetup(g, i)
		})
		// a violation of static mode needs an attempt: many programs are cut to
		// end with one
		for i, it := range its {
			if i%3 == 0 && it.want.Status == "success" {
				d.attempt(it, i)
			}
		}
		o := d.exec(cases(its), s)
		d.compare(s, its, o, func(it *item, got *ref.Result) string {
			for _, e := range got.Events {
				f := strings.Fields(e)
				switch f[0] {
				case "S", "T", "L", "D", "MISUSE":
					return "state-change: " + e
				case "C":
					d.r.Add("nested_calls", 1)
					if f[1] == "create" || f[1] == "create2" {
						return "state-change: " + e
					}
					if f[1] == "call" {
						return "nested-call-not-static: " + e
					}
					if f[2] != "1" {
						return "nested-call-not-static: " + e
					}
					if f[1] == "staticcall" && strings.Trim(f[8], "0") != "" {
						return "value-transfer: " + e
					}
				}
			}
			if it.vm.Why == "static violation" {
				d.r.Add("attempts", 1)
				if got.Status != "fail" || got.Gas != 0 {
					return fmt.Sprintf("attempt-not-failed: %s gas %d", got.Status, got.Gas)
				}
				if code != "" && it.c.Tag == "attempt" && got.Detail != code {
					return "wrong-status-code: " + got.Detail
				}
			}
			return ""
		})
		d.observe(its)
		if sh%1000 < 3 {
			d.r.Sample("%s", sampleOf(its[sh%5]))
		}
	})
}

// attempt appends a state-changing instruction with generous gas to straight
// code.
func (d *drv) attempt(it *item, i int) {
	c := *it.c
	r := rand.New(rand.NewSource(int64(c.ID)))
	word := func() []byte {
		b := make([]byte, 33)
		b[0] = 0x7f
		switch r.Intn(4) {
		case 0:
			b[32] = byte(r.Intn(4))
		case 1:
			r.Read(b[1:])
		case 2: // nonzero only in one limb
			b[1+r.Intn(32)] = byte(1 + r.Intn(255))
		}
		return b
	}
	small := func() []byte { return []byte{0x60, byte(r.Intn(64))} }
	nonzero := func() []byte {
		for {
			if w := word(); !bytes.Equal(w[1:], make([]byte, 32)) {
				return w
			}
		}
	}
	var code []byte
	put := func(bs ...[]byte) {
		for _, b := range bs {
			code = append(code, b...)
		}
	}
	addr := append([]byte{0x73}, c.Recipient[:]...)
	if r.Intn(2) == 0 {
		addr = append([]byte{0x73}, c.Sender[:]...)
	}
	switch r.Intn(8) {
	case 0, 1:
		put(word(), word(), []byte{0x55})
	case 2:
		put(word(), word(), []byte{0x5d})
		c.Rev = ref.Cancun
	case 3:
		n := r.Intn(5)
		for k := 0; k < n; k++ {
			put(word())
		}
		put(small(), small(), []byte{byte(0xa0 + n)})
	case 4:
		put(small(), small(), small(), []byte{0xf0})
	case 5:
		put(word(), small(), small(), small(), []byte{0xf5})
	case 6:
		put(addr, []byte{0xff})
	case 7: // call with value, in all forms of nonzero
		put(small(), small(), small(), small(), nonzero(), addr, word(), []byte{0xf1})
	}
	c.Code = append(code, 0x00)
	c.Gas = 2_000_000
	c.Create = false
	c.Tag = "attempt"
	*it = *d.oracle(&c)
}

func (d *drv) z04() { d.static(d.evmz("evmz", "plain"), "11", d.scale(24, 300)) }
func (d *drv) l05() { d.static(d.lfvm("lfvm"), "", d.scale(24, 300)) }

// ---------------------------------------------------------------- stepping

type traceLine struct {
	total       int
	pc          uint64
	gas, refund int64
	n           int
	hs          uint64
	mem         int
	hm          uint64
	ret         int
	hr          uint64
	text        string
}

func fnvBytes(h uint64, b []byte) uint64 {
	for _, x := range b {
		h = (h ^ uint64(x)) * 0x100000001b3
	}
	return h
}

func (d *drv) parseTraces(s sut, raw string) (map[int][]traceLine, map[int]string) {
	res, final := map[int][]traceLine{}, map[int]string{}
	id := -1
	sc := bufio.NewScanner(strings.NewReader(raw))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "trace "):
			id, _ = strconv.Atoi(l[6:])
			res[id] = nil
		case strings.HasPrefix(l, "st "):
			var t traceLine
			fmt.Sscanf(l, "st %d %d %d %d %d %x %d %x %d %x", &t.total, &t.pc, &t.gas, &t.refund, &t.n, &t.hs, &t.mem, &t.hm, &t.ret, &t.hr)
			t.text = l
			res[id] = append(res[id], t)
		case strings.HasPrefix(l, "final "):
			final[id] = l[6:]
		case strings.HasPrefix(l, "idle"):
			d.r.Add("ended_runs_stepped", 1)
			if diff := l[4:]; diff != "" {
				d.r.Violation(s.name+":step-after-end", fmt.Sprintf("case %d: stepping the run that ended (%s) changed its%s", id, final[id], diff), "")
			}
		}
	}
	return res, final
}

// stateLine renders the reference state in the trace format.
func stateLine(total int, v *ref.VM) string {
	hs := uint64(0xcbf29ce484222325)
	hm, hr := hs, hs
	for _, x := range v.Stack {
		h := ref.ToHash(x)
		hs = fnvBytes(hs, h[:])
	}
	hm, hr = fnvBytes(hm, v.Mem), fnvBytes(hr, v.RetBuf)
	return fmt.Sprintf("st %d %d %d %d %d %x %d %x %d %x", total, v.PC, v.Gas, v.Refund, len(v.Stack), hs, len(v.Mem), hm, len(v.RetBuf), hr)
}

func (d *drv) z05() {
	d.stepping(d.evmz("evmz", "plain"), d.evmz("evmz"), 0, d.scale(24, 240))
}

// stepping compares uninterrupted runs with stepped ones.
func (d *drv) stepping(plain, stepped sut, first, shards int) {
	rep.Parallel(shards, func(i int) {
		sh := first + i
		its := d.gen(sh, 700, func(g *evmgen.Gen, i int) {
			g.Focus = []string{"structured", "calls", "storage", "super", "memory", "opfocus", "mutated", "jumps", "structured", "deep", "calls", "hashes"}[i%12]
		})
		a := d.exec(cases(its), plain)
		for k := 0; k < 2; k++ {
			s := stepped
			s.name += "-step"
			s.args = []string{"step", strconv.FormatInt(d.seed*100+int64(sh*2+k), 10)}
			b := d.exec(cases(its), s)
			tr, final := d.parseTraces(s, b.raw)
			for _, it := range its {
				x, y := a.res[it.c.ID], b.res[it.c.ID]
				if x == nil || y == nil {
					continue
				}
				want := map[string]string{"success": "stopped returned", "revert": "reverted", "fail": "failed"}[x.Status]
				if !strings.Contains(want, final[it.c.ID]) {
					d.diff(s, it, "final-step-status: "+final[it.c.ID]+" for "+x.Status, y)
				}
				d.r.Add("stepped_runs", 1)
				d.r.Add("cuts", int64(len(tr[it.c.ID])))
				p, q := *x, *y
				if x.Status != "success" { // a refund is only defined for successful runs
					p.Refund, q.Refund = 0, 0
				}
				if flat(&p) != flat(&q) {
					d.diff(s, it, "stepped-run-differs: uninterrupted run was\n"+flat(&p), y)
					continue
				}
				// intermediate states, where this build is known to execute the
				// program right at all
				if lfvmrun.Compare(&it.want, x) != "" {
					d.r.Add("programs_executed_wrongly", 1)
					continue
				}
				v := ref.NewVM(ref.EnvOf(it.c), ref.NewWorld(it.c), it.c.Gas)
				for _, t := range tr[it.c.ID] {
					for v.Steps < t.total && v.Status == ref.Running && v.PC < uint64(len(it.c.Code)) {
						v.Step()
					}
					if v.Status != ref.Running {
						d.diff(s, it, fmt.Sprintf("still-running: after %d steps although the run ended", t.total), y)
						break
					}
					d.r.Add("states_checked", 1)
					if w := stateLine(t.total, v); w != t.text {
						d.diff(s, it, fmt.Sprintf("state-after-steps: total pc gas refund stack# hash memory# hash returndata# hash\nwant %s\ngot  %s", w, t.text), y)
						break
					}
				}
			}
		}
		d.observe(its)
		if sh%1000 < 3 {
			d.r.Sample("%s", sampleOf(its[sh%5]))
		}
	})
}

// ---------------------------------------------------------------- options and caches

// history extends cases with relatives: the same code in another situation and
// slightly different codes, in random order with repetitions.
func (d *drv) history(its []*item, rng *rand.Rand) []*item {
	next := 0
	for _, it := range its {
		next = max(next, it.c.ID+1)
	}
	res := append([]*item(nil), its...)
	for _, it := range its {
		for k := rng.Intn(3); k > 0; k-- {
			c := *it.c
			c.ID = next
			next++
			switch rng.Intn(5) {
			case 0:
				c.Rev = rng.Intn(ref.NumRevisions)
			case 1:
				c.Input = make([]byte, rng.Intn(60))
				rng.Read(c.Input)
			case 2: // same length, other content
				if len(c.Code) > 0 {
					c.Code = append([]byte(nil), c.Code...)
					c.Code[rng.Intn(len(c.Code))] ^= byte(1 << rng.Intn(8))
				}
			case 3: // a prefix or an extension
				if n := len(c.Code); n > 0 && rng.Intn(2) == 0 {
					c.Code = append([]byte(nil), c.Code[:rng.Intn(n)]...)
				} else {
					c.Code = append(append([]byte(nil), c.Code...), byte(rng.Intn(256)), byte(rng.Intn(256)))
				}
			case 4:
				c.CodeHash, c.ZeroHash = !c.CodeHash, rng.Intn(2) == 0
			}
			res = append(res, d.oracle(&c))
		}
	}
	rng.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

func (d *drv) z06() {
	d.options(d.evmz("evmz", "fresh"), nest(d.evmz("evmz", "plain")), 0, d.scale(16, 200),
		[]string{"logging", "analysis_cache", "sha3_cache", "profiling", "profiling_external"}, "1", "2")
}

// options compares runs among others under changing options with runs alone.
// Unknown names and values must be answered with the given codes.
func (d *drv) options(alone, among sut, first, shards int, names []string, badName, badValue string) {
	bad := []string{"log", "Logging", "sha3-cache", "profiling_", "LOGGING", "analysis", "sha3_cach", "profiling_externals", "x"}
	badv := []string{"1", "TRUE", "True", "yes", "on", "false_", "tru", "0"}
	rep.Parallel(shards, func(i int) {
		sh := first + i
		rng := rand.New(rand.NewSource(d.seed*31 + int64(sh)))
		its := d.history(d.gen(sh, 500, func(g *evmgen.Gen, i int) {
			g.Focus = []string{"structured", "hashes", "jumps", "calls", "hashes", "super", "mutated"}[i%7]
			if i%120 == 17 {
				g.Focus = "hashloop"
			}
		}), rng)
		fresh := d.exec(cases(its), alone)
		type want struct{ id, name, value, code string }
		var wants []want
		on := map[string]bool{}
		logging, silent := map[int]bool{}, map[int]bool{}
		s := among
		for _, it := range its {
			long := it.vm.Steps > 3000
			c := it.c
			for rng.Intn(3) == 0 {
				n, v, code := names[rng.Intn(len(names))], []string{"true", "false"}[rng.Intn(2)], "0"
				kind := rng.Intn(8)
				switch kind {
				case 0:
					n, code = bad[rng.Intn(len(bad))], badName
				case 1:
					v, code = badv[rng.Intn(len(badv))], badValue
				}
				if kind > 1 {
					on[n] = v == "true"
				}
				c.Opts = append(c.Opts, [2]string{n, v})
				wants = append(wants, want{strconv.Itoa(c.ID), n, v, code})
			}
			if long && on["logging"] {
				on["logging"] = false
				c.Opts = append(c.Opts, [2]string{"logging", "false"})
				wants = append(wants, want{strconv.Itoa(c.ID), "logging", "false", "0"})
			}
			logging[c.ID] = on["logging"]
			silent[c.ID] = s.rust && (len(c.Code) == 0 || !known(c.Code[0]))
		}
		s.name += "-options"
		s.env = append(append([]string(nil), s.env...), "EVMZ_CAPTURE=@CAPTURE@")
		o := d.exec(cases(its), s)
		d.nested(s, o)
		// what the option interface answered, and what logging printed
		wi := 0
		cur := -1
		for _, l := range strings.Split(o.raw, "\n") {
			f := strings.Fields(l)
			switch {
			case len(f) == 5 && f[0] == "optresult":
				if wi < len(wants) {
					w := wants[wi]
					wi++
					d.r.Add("options_set", 1)
					if f[1] != w.id || f[2] != w.name || f[3] != w.value {
						fatal("option log out of step")
					}
					if f[4] != w.code {
						d.r.Violation(s.name+":option-answer", fmt.Sprintf("set_option(%q, %q) answered %s, not %s", w.name, w.value, f[4], w.code), "")
					}
				}
			case len(f) == 2 && f[0] == "begin":
				cur, _ = strconv.Atoi(f[1])
			case len(f) == 3 && f[0] == "stdout":
				if f[1] != "0" {
					d.r.Add("runs_with_log_output", 1)
				}
				if logging[cur] && !silent[cur] && f[1] == "0" {
					d.r.Violation(s.name+":logging-without-output", fmt.Sprintf("case %d ran with logging on and printed nothing", cur), "")
				}
				if !logging[cur] && f[1] != "0" {
					d.r.Violation(s.name+":output-without-logging", fmt.Sprintf("case %d ran with logging off and printed %s bytes", cur, f[1]), "")
				}
			}
		}
		for _, it := range its {
			x, y := fresh.res[it.c.ID], o.res[it.c.ID]
			if x == nil || y == nil {
				continue
			}
			d.r.Add("compared", 1)
			if flat(x) != flat(y) {
				d.diff(s, it, "depends-on-options-or-history: a fresh instance with default options gives\n"+flat(x), y)
			}
		}
		d.observe(its)
		if sh%1000 < 3 {
			d.r.Sample("%s opts %v", sampleOf(its[5]), its[5].c.Opts)
		}
	})
}

// ---------------------------------------------------------------- concurrency

func (d *drv) threads(s sut, first, shards, per int, args func(sh int) []string) {
	// the processes are multi-threaded themselves
	for sh := 0; sh < shards; sh++ {
		its := d.gen(first+sh, per, func(g *evmgen.Gen, i int) {
			g.Focus = []string{"structured", "hashes", "calls", "storage", "super", "memory", "hashes", "jumps", "deep"}[i%9]
			if i == 20 {
				g.Focus = "hashloop"
			}
		})
		for _, it := range its {
			it.c.CodeHash = it.c.ID%5 != 0
		}
		s := s
		s.args = args(sh)
		o := d.exec(cases(its), s)
		if i := strings.Index(o.raw, "mismatch "); i >= 0 {
			d.r.Violation(s.name+":concurrent-run-differs", tail(o.raw[i:], 3500), "")
		}
		if i := strings.LastIndex(o.raw, "threads runs "); i >= 0 {
			var a, b, c int64
			fmt.Sscanf(o.raw[i:], "threads runs %d overlapping %d bad %d", &a, &b, &c)
			d.r.Add("concurrent_runs", a)
			d.r.Add("overlapping_runs", b)
		}
		d.observe(its)
		if sh == 0 {
			d.r.Sample("%s", sampleOf(its[0]))
		}
	}
}

// contend has many threads hash very few values over and over again.
func (d *drv) contend(s sut, args ...string) {
	s.args = args
	g := evmgen.New(d.seed)
	var cs []*ref.Case
	for i := 0; i < 12; i++ {
		c, h := g.HashFew(i, []int{1, 3, 7}[i%3], 300+i, 32<<(i/3%2))
		cs = append(cs, c)
		if w, _ := ref.RunCase(c, nil, 400_000); string(w.Output) != string(h[:]) {
			panic("reference machine hashes differently")
		}
	}
	o := d.exec(cs, s)
	if i := strings.Index(o.raw, "mismatch "); i >= 0 {
		d.r.Violation(s.name+":concurrent-hashes-differ", tail(o.raw[i:], 3500), "")
	}
	if i := strings.LastIndex(o.raw, "threads runs "); i >= 0 {
		var a, b, c int64
		fmt.Sscanf(o.raw[i:], "threads runs %d overlapping %d bad %d", &a, &b, &c)
		d.r.Add("overlapping_runs_hashing_few_values", b)
	}
}

func (d *drv) z07() {
	s := d.evmz("evmz-tsan")
	s.name = "evmzero-tsan"
	d.threads(s, 0, d.scale(4, 60), 120, func(sh int) []string {
		return []string{"threads", strconv.Itoa([]int{2, 4, 8, 6}[sh%4]), "4", strconv.FormatInt(d.seed+int64(sh), 10)}
	})
	d.contend(s, "threads", "8", strconv.Itoa(d.scale(15, 200)), "1")
}

func (d *drv) l04() {
	d.evict()
	for i, cfg := range []string{"lfvm", "lfvm", "lfvm-si", "lfvm-no-sha-cache", "lfvm-no-code-cache"} {
		s := sut{name: cfg + "-race", bin: d.bins["lfvm-race"], env: []string{"GORACE=halt_on_error=1 exitcode=66"}}
		n := d.scale(1, 25)
		d.threads(s, i*100, n, 150, func(sh int) []string {
			return []string{"threads", cfg, strconv.Itoa([]int{8, 3, 5}[(sh+i)%3]), "5", strconv.FormatInt(d.seed+int64(sh), 10)}
		})
		if i < 2 {
			d.contend(s, "threads", cfg, "8", strconv.Itoa(d.scale(15, 200)), "1")
		}
	}
}

// evict has one thread replace the complete content of the hash cache while
// others, started later and done earlier, use what it held.
func (d *drv) evict() {
	s := sut{name: "lfvm-race", bin: d.bins["lfvm-race"], args: []string{"evict", "lfvm"}, env: []string{"GORACE=halt_on_error=1 exitcode=66"}}
	for i := 0; i < d.scale(2, 10); i++ {
		g := evmgen.New(d.seed + int64(i))
		size, n := 32, 160_000
		if i%2 == 1 {
			size, n = 64, 600_000
		}
		start := g.R.Intn(1 << 20)
		var cs []*ref.Case
		want := map[int]ref.Hash{}
		for k := 0; k < 4; k++ {
			m, off := 3, n-40*k-10 // known already when these run, so that the cache answers
			if k == 0 {
				m, off = n, 0
			}
			c, h := g.HashAccum(i*10+k, start+off, m, size)
			if k > 0 { // the second run through the same values is answered from the cache
				c, h = g.HashAccum(i*10+k, start+off, m, size)
			}
			cs = append(cs, c)
			want[c.ID] = h
		}
		o := d.exec(cs, s)
		for _, c := range cs {
			if r := o.res[c.ID]; r != nil {
				d.r.Add("compared", 1)
				if h := want[c.ID]; !bytes.Equal(r.Output, h[:]) {
					d.r.Violation("lfvm-race:hash", fmt.Sprintf("case %d: required output %x, got %x", c.ID, h, r.Output), c.String())
				}
			}
		}
		var e int64
		if k := strings.Index(o.raw, "evict inside "); k >= 0 {
			fmt.Sscanf(o.raw[k:], "evict inside %d", &e)
			d.r.Add("hash_cache_users_during_replacement", e)
		}
	}
}

// ---------------------------------------------------------------- profiling

var opNames = map[string]int{}

func (d *drv) z10() {
	d.profiles(d.scale(16, 160), func(sh int, dir, mode string) sut {
		s := d.evmz("evmz", "profile", strconv.FormatInt(d.seed*100+int64(sh), 10), dir, mode)
		s.name = "evmzero-profile-" + mode
		return s
	})
}

// profiles compares dumped counters with what the reference machine executed.
func (d *drv) profiles(shards int, sutOf func(sh int, dir, mode string) sut) {
	names := opcodeNames()
	rep.Parallel(shards, func(sh int) {
		mode := []string{"full", "external"}[sh%2]
		its := d.gen(sh, 400, func(g *evmgen.Gen, i int) {
			g.Focus = []string{"structured", "calls", "storage", "super", "memory", "opfocus", "rawops"}[i%7]
		})
		// exact counts are specified for instructions that complete
		var keep []*item
		for _, it := range its {
			if it.want.Status != "fail" {
				keep = append(keep, it)
			}
		}
		dir, err := os.MkdirTemp(d.work, "prof")
		if err != nil {
			fatal("%v", err)
		}
		s := sutOf(sh, dir, mode)
		o := d.exec(cases(keep), s)
		byID := map[int]*item{}
		for _, it := range keep {
			byID[it.c.ID] = it
		}
		var want [256]int64
		runs := int64(0)
		trusted := true
		var prev map[string][2]int64
		for _, l := range strings.Split(o.raw, "\n") {
			f := strings.Fields(l)
			if len(f) == 0 {
				continue
			}
			switch f[0] {
			case "begin":
				id, _ := strconv.Atoi(f[1])
				it := byID[id]
				if r := o.res[id]; r == nil || lfvmrun.Compare(&it.want, r) != "" {
					trusted = false // executed something else; not this property's business
					continue
				}
				for i, n := range it.hist {
					want[i] += int64(n)
				}
				if it.c.Depth == 0 {
					runs++
				}
			case "reset":
				want, runs, prev = [256]int64{}, 0, nil
			case "dump":
				got := parseDump(f[1])
				if !trusted {
					d.r.Add("untrusted_dumps", 1)
					continue
				}
				d.r.Add("profiles_checked", 1)
				for name, cnt := range got {
					if p, ok := prev[name]; ok && (cnt[0] < p[0] || cnt[1] < p[1]) {
						d.r.Violation(s.name+":not-monotone", fmt.Sprintf("%s went from %v to %v without a reset", name, p, cnt), "")
					}
					if name == "INTERPRETER" {
						if cnt[0] != runs {
							d.r.Violation(s.name+":interpreter-count", fmt.Sprintf("%d outermost executions, %d recorded", runs, cnt[0]), "")
						}
						continue
					}
					op, ok := names[name]
					if !ok {
						d.r.Violation(s.name+":unknown-instruction", name, "")
						continue
					}
					d.r.Add("counters_checked", 1)
					d.r.Add("instructions_counted", cnt[0])
					w := want[op]
					if op == 0x5b { // part of the jump that lands on it, or executed on its own
						if lo := w - want[0x56] - want[0x57]; cnt[0] > w || cnt[0] < lo {
							d.r.Violation(s.name+":count", fmt.Sprintf("JUMPDEST: reached %d times, recorded %d", w, cnt[0]), "")
						}
						continue
					}
					if op == 0 || op == 0xfe { // running off the end counts as a STOP; undefined ones as INVALID
						if cnt[0] < w {
							d.r.Violation(s.name+":count", fmt.Sprintf("%s: executed %d times, recorded %d", name, w, cnt[0]), "")
						}
						continue
					}
					if cnt[0] != w {
						d.r.Violation(s.name+":count", fmt.Sprintf("%s: executed %d times, recorded %d", name, w, cnt[0]), "")
					}
					if cnt[0] > 0 && cnt[1] == 0 && w > 50 {
						d.r.Violation(s.name+":ticks", fmt.Sprintf("%s: %d executions took no time", name, w), "")
					}
					if cnt[0] == 0 && cnt[1] != 0 {
						d.r.Violation(s.name+":ticks", fmt.Sprintf("%s: time without executions", name), "")
					}
				}
				for op, n := range want {
					if n > 0 && mode == "full" {
						if _, ok := got[opNameOf(op)]; !ok && op != 0xfe && op != 0x5b {
							d.r.Violation(s.name+":missing-instruction", fmt.Sprintf("0x%02x %s was executed %d times and is not in the profile", op, opNameOf(op), n), "")
						}
					}
				}
				prev = got
			}
		}
		os.RemoveAll(dir)
		d.observe(keep)
		if sh < 2 && len(keep) > 0 {
			d.r.Sample("%s", sampleOf(keep[0]))
		}
	})
}

func parseDump(path string) map[string][2]int64 {
	b, _ := os.ReadFile(path)
	res := map[string][2]int64{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, ",")
		if len(f) != 4 {
			continue
		}
		a, e1 := strconv.ParseInt(strings.TrimSpace(f[1]), 10, 64)
		t, e2 := strconv.ParseInt(strings.TrimSpace(f[2]), 10, 64)
		if e1 == nil && e2 == nil {
			res[strings.TrimSpace(f[0])] = [2]int64{a, t}
		}
	}
	return res
}

func opNameOf(op int) string { return yellowPaper[op] }

func opcodeNames() map[string]int {
	r := map[string]int{}
	for op, n := range yellowPaper {
		r[n] = op
	}
	return r
}

var yellowPaper = func() map[int]string {
	m := map[int]string{}
	list := func(start int, s string) {
		for i, n := range strings.Fields(s) {
			m[start+i] = n
		}
	}
	list(0x00, "STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND")
	list(0x10, "LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR")
	list(0x20, "SHA3")
	list(0x30, "ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH")
	list(0x40, "BLOCKHASH COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID SELFBALANCE BASEFEE BLOBHASH BLOBBASEFEE")
	list(0x50, "POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI PC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY PUSH0")
	for i := 1; i <= 32; i++ {
		m[0x5f+i] = fmt.Sprintf("PUSH%d", i)
	}
	for i := 1; i <= 16; i++ {
		m[0x7f+i], m[0x8f+i] = fmt.Sprintf("DUP%d", i), fmt.Sprintf("SWAP%d", i)
	}
	list(0xa0, "LOG0 LOG1 LOG2 LOG3 LOG4")
	list(0xf0, "CREATE CALL CALLCODE RETURN DELEGATECALL CREATE2")
	m[0xfa], m[0xfd], m[0xfe], m[0xff] = "STATICCALL", "REVERT", "INVALID", "SELFDESTRUCT"
	return m
}()

// ---------------------------------------------------------------- hashing in programs

func hashSetup(g *evmgen.Gen, i int) {
	g.Focus = "hashes"
	if i%60 == 7 {
		g.Focus = "hashloop"
	}
}

// z09 and l08 watch hashes through programs, on one long-lived instance; the
// caches themselves are driven directly by other harnesses.
func (d *drv) z09() { d.differential(d.evmz("evmz", "plain"), d.scale(8, 80), 800, hashSetup) }
func (d *drv) l08() {
	d.differential(d.lfvm("lfvm"), d.scale(8, 80), 800, hashSetup)
	d.differential(d.lfvm("lfvm-no-sha-cache"), d.scale(4, 40), 400, hashSetup)
	// more values than any cache holds, in orders that meet entries of all ages
	rep.Parallel(d.scale(4, 24), func(sh int) {
		g := evmgen.New(d.seed*71 + int64(sh))
		size, n := 32, 70_000
		if sh%4 == 1 {
			size, n = 64, 270_000
		}
		var cs []*ref.Case
		want := map[int]ref.Hash{}
		for k := 0; k < 5; k++ {
			from, m := []int{0, n / 2, 0, n - 100, n / 3}[k], n
			if k >= 2 {
				m = 1 + g.R.Intn(n)
			}
			c, h := g.HashAccum(sh*100+k, from, m, size)
			cs, want[c.ID] = append(cs, c), h
			d.r.Add("values_hashed", int64(m))
		}
		s := d.lfvm("lfvm")
		o := d.exec(cs, s)
		for _, c := range cs {
			if r := o.res[c.ID]; r != nil {
				d.r.Add("compared", 1)
				if h := want[c.ID]; !bytes.Equal(r.Output, h[:]) {
					d.r.Violation("lfvm:hash", fmt.Sprintf("case %d: required output %x, got %x (%s)", c.ID, h, r.Output, r.Detail), c.String())
				}
			}
		}
	})
}

// ---------------------------------------------------------------- lfvm configurations

func (d *drv) l02() {
	cfgs := strings.Fields(d.bins["configs"])
	rep.Parallel(d.scale(16, 160), func(sh int) {
		rng := rand.New(rand.NewSource(d.seed*41 + int64(sh)))
		its := d.history(d.gen(sh, 700, func(g *evmgen.Gen, i int) {
			g.Focus = []string{"super", "structured", "super", "hashes", "jumps", "mutated", "super", "calls"}[i%8]
			if i%200 == 17 {
				g.Focus = "hashloop"
			}
		}), rng)
		for _, it := range its { // fused instructions at exact gas boundaries
			if it.c.Tag == "super" && rng.Intn(3) == 0 && it.want.Status != "fail" {
				it.c.Gas = max(0, it.c.Gas-it.want.Gas-int64(rng.Intn(12)))
				*it = *d.oracle(it.c)
			}
		}
		// one process per case history keeps the base free of history: fresh
		// instances are cheap in Go, see "alone"
		base := d.exec(cases(its), sut{name: "lfvm", bin: d.bins["lfvm"], args: []string{"alone", "lfvm"}})
		check := func(s sut) {
			o := d.exec(cases(its), s)
			for _, it := range its {
				x, y := base.res[it.c.ID], o.res[it.c.ID]
				if x == nil || y == nil {
					continue
				}
				d.r.Add("compared", 1)
				if flat(x) != flat(y) {
					d.diff(s, it, "differs-from-default-configuration: which gives\n"+flat(x), y)
				}
			}
		}
		for _, c := range cfgs {
			s := d.lfvm(c)
			check(s)
		}
		check(sut{name: "lfvm-mixed", bin: d.bins["lfvm"], args: []string{"mixed", strconv.Itoa(sh)}})
		d.observe(its)
		if sh%1000 < 3 {
			d.r.Sample("%s", sampleOf(its[sh%5]))
		}
	})
	d.r.Add("configurations", int64(len(cfgs)))
}

// ---------------------------------------------------------------- jumps

func (d *drv) l03() {
	rep.Parallel(d.scale(24, 240), func(sh int) {
		g := evmgen.New(d.seed*99_991 + int64(sh))
		var its []*item
		id := sh * 1_000_000
		for p := 0; p < 25; p++ {
			n := 500
			switch {
			case p == 3 && sh%3 == 0:
				n = 24576
			case p == 4 && sh%3 == 1:
				n = 49000
			case p%6 == 5:
				n = 4000
			}
			for _, c := range g.JumpSweep(id, n) {
				its = append(its, d.oracle(c))
				id = c.ID + 1
			}
		}
		// long gaps made of push data in front of a destination
		for _, c := range gaps(id) {
			its = append(its, d.oracle(c))
		}
		landed := int64(0)
		for _, it := range its {
			if it.want.Status == "success" {
				landed++
			}
		}
		d.r.Add("valid_jumps", landed)
		d.r.Add("invalid_jumps", int64(len(its))-landed)
		for _, cfg := range []string{"lfvm", "lfvm-si", "lfvm-no-code-cache"} {
			s := d.lfvm(cfg)
			o := d.exec(cases(its), s)
			d.compare(s, its, o, func(it *item, got *ref.Result) string {
				w := it.want
				if w.Status != got.Status {
					return fmt.Sprintf("jump: want %s (%s) got %s", w.Status, w.Detail, got.Status)
				}
				if !bytes.Equal(w.Output, got.Output) {
					return fmt.Sprintf("position: want %x got %x", w.Output, got.Output)
				}
				return ""
			})
		}
		more := d.gen(sh+1000, 800, cycle("jumps"))
		for _, cfg := range []string{"lfvm", "lfvm-si"} {
			s := d.lfvm(cfg)
			d.compare(s, more, d.exec(cases(more), s), full)
		}
		d.observe(append(its, more...))
		if sh < 2 {
			d.r.Sample("%s", sampleOf(its[3]))
		}
	})
	for _, cfg := range []string{"lfvm", "lfvm-si"} {
		d.long(d.lfvm(cfg), d.scale(8, 80))
	}
}

func gaps(id int) []*ref.Case {
	var res []*ref.Case
	g := evmgen.New(int64(id))
	for _, total := range []int{250, 255, 256, 257, 300, 1000, 16000, 32700, 32768, 40000, 48000} {
		c := g.Case(id)
		c.Static, c.Create, c.Gas, c.CodeHash = false, false, 3_000_000, true
		c.Tag = "gap"
		c.Code = []byte{0x60, 0, 0x35, 0x56}
		for len(c.Code) < total {
			c.Code = append(c.Code, 0x7f)
			c.Code = append(c.Code, bytes.Repeat([]byte{0x5b}, 32)...)
		}
		t := len(c.Code)
		c.Code = append(c.Code, 0x5b, 0x58, 0x60, 0, 0x52, 0x59, 0x60, 0, 0xf3)
		for _, at := range []int{t, t - 1, t + 1, t - 33, 5, t + 65536} {
			x := *c
			x.ID = id
			id++
			h := ref.ToHash(big.NewInt(int64(at)))
			x.Input = h[:]
			res = append(res, &x)
		}
		// straight through the gap, where internal padding would be executed
		x := *c
		x.ID = id
		id++
		x.Code = append([]byte{0x5b, 0x60, 0, 0x50}, c.Code[4:]...)
		res = append(res, &x)
	}
	return res
}

// ---------------------------------------------------------------- lfvm robustness

func (d *drv) l06() {
	s := d.lfvm("lfvm")
	d.gasSweep(s, d.scale(16, 160), 130, 14)
	rep.Parallel(d.scale(16, 200), func(sh int) {
		rng := rand.New(rand.NewSource(d.seed*43 + int64(sh)))
		its := d.gen(sh, 1500, hostile)
		for _, it := range its { // hosts that fail, and outcomes at the edges
			if rng.Intn(4) == 0 {
				it.c.Replies = append([]ref.Reply(nil), it.c.Replies...)
				it.c.Replies = append(it.c.Replies, ref.Reply{Status: 3})
				*it = *d.oracle(it.c)
			}
		}
		for _, cfg := range []string{"lfvm", "lfvm-si"} {
			s := d.lfvm(cfg)
			d.compare(s, its, d.exec(cases(its), s), func(it *item, got *ref.Result) string {
				if cfg == "lfvm" {
					return gasRel(it, got)
				}
				if got.Status == "panic" || got.Status == "error" {
					return got.Status + ": " + got.Detail
				}
				if got.Gas < 0 || got.Gas > it.c.Gas {
					return fmt.Sprintf("gas-created: %d left of %d", got.Gas, it.c.Gas)
				}
				return ""
			})
		}
		d.observe(its)
		if sh%1000 < 3 {
			d.r.Sample("%s", sampleOf(its[sh%5]))
		}
	})
	d.revisions(s, []string{"lfvm"})
}

// revisions has every configuration asked for revisions that are not supported.
func (d *drv) revisions(s sut, cfgs []string) {
	its := d.gen(999, 60, cycle("structured"))
	for _, cfg := range cfgs {
		o := d.exec(cases(its), sut{name: cfg, bin: s.bin, args: []string{"revisions", cfg}})
		n := strings.Count(o.raw, "unsupported-ok")
		d.r.Add("unsupported_revisions_rejected", int64(n))
		for _, l := range strings.Split(o.raw, "\n") {
			if strings.HasPrefix(l, "unsupported-bad") {
				d.r.Violation(cfg+":unsupported-revision", l, "")
			}
		}
	}
}
