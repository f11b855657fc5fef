package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/rep"
)

type fakeVM struct{ id int }

func (*fakeVM) Run(tosca.Parameters) (tosca.Result, error) { return tosca.Result{}, nil }

type fakeProc struct{ id int }

func (*fakeProc) Run(tosca.BlockParameters, tosca.Transaction, tosca.TransactionContext) (tosca.Receipt, error) {
	return tosca.Receipt{}, nil
}

// registry is what both registries have in common.
type registry struct {
	name     string
	register func(name string, id int) (ok bool)
	lookup   func(name string) (id int) // 0 if absent
	list     func() map[string]int      // modifies the returned map before it returns
}

// tryPanic reports whether f returned normally.
func tryPanic(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

// register picks one of the ways to register an interpreter.
func registerInterpreter(name string, id int) bool {
	vm := &fakeVM{id}
	f := func(any) (tosca.Interpreter, error) { return vm, nil }
	switch id % 3 {
	case 0:
		return tosca.RegisterInterpreterFactory(name, f) == nil
	case 1:
		return tryPanic(func() { tosca.MustRegisterInterpreterFactory(name, f) })
	}
	return tryPanic(func() { tosca.RegisterInterpreter(name, vm) })
}

func vmID(i tosca.Interpreter) int {
	if f, ok := i.(*fakeVM); ok && f != nil {
		return f.id
	}
	return 0
}

var interpreters = registry{"interpreter", registerInterpreter,
	func(name string) int {
		switch len(name) % 3 {
		case 0:
			return vmID(tosca.GetInterpreter(name))
		case 1:
			i, err := tosca.NewInterpreter(name)
			if (err == nil) != (i != nil) {
				R.Violation("registry:result-and-error", fmt.Sprint(name, i, err), "")
			}
			return vmID(i)
		}
		f := tosca.GetInterpreterFactory(name)
		if f == nil {
			return 0
		}
		i, _ := f(nil)
		return vmID(i)
	},
	func() map[string]int {
		m := tosca.GetAllRegisteredInterpreters()
		res := map[string]int{}
		for k, f := range m {
			i, _ := f(nil)
			res[k] = vmID(i)
			m[k] = nil
			delete(m, k)
		}
		m["intruder"] = nil
		return res
	}}

func procID(p tosca.Processor) int {
	if f, ok := p.(*fakeProc); ok && f != nil {
		return f.id
	}
	return 0
}

var processors = registry{"processor",
	func(name string, id int) bool {
		p := &fakeProc{id}
		return tryPanic(func() { tosca.RegisterProcessorFactory(name, func(tosca.Interpreter) tosca.Processor { return p }) })
	},
	func(name string) int {
		if len(name)%2 == 0 {
			return procID(tosca.GetProcessor(name, nil))
		}
		f := tosca.GetProcessorFactory(name)
		if f == nil {
			return 0
		}
		return procID(f(nil))
	},
	func() map[string]int {
		m := tosca.GetAllRegisteredProcessorFactories()
		res := map[string]int{}
		for k, f := range m {
			res[k] = procID(f(nil))
			m[k] = nil
			delete(m, k)
		}
		m["intruder"] = nil
		return res
	}}

type regOp struct {
	start, end int64
	kind       int // 0 register, 1 lookup, 2 list
	name       string
	id         int // registered or found
	ok         bool
	listed     map[string]int
}

var nextID int

// rounds is set once several goroutines are at work.
var rounds atomic.Bool

// spell varies the case of a name.
func spell(r *rand.Rand, n string) string {
	b := []byte(n)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func registryRound(g registry, round int, workers int) {
	const names = 6
	base := time.Now()
	prefix := fmt.Sprintf("r%d-", round)
	hist := make([][]regOp, workers)
	ids := make([]int, workers)
	for i := range ids {
		ids[i] = nextID + 1
		nextID += 1000
	}
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*7919 + int64(round)*101 + int64(w)))
			<-begin
			for i := 0; i < 14; i++ {
				n := prefix + strings.Repeat("abc"[r.Intn(3):][:1], 1+r.Intn(names/3))
				op := regOp{kind: r.Intn(7), name: n}
				s := spell(r, n)
				op.start = int64(time.Since(base))
				switch op.kind {
				case 0, 1, 2:
					op.kind = 0
					op.id = ids[w] + i
					op.ok = g.register(s, op.id)
				case 3, 4, 5:
					op.kind = 1
					op.id = g.lookup(s)
				default:
					op.kind = 2
					op.listed = g.list()
				}
				op.end = int64(time.Since(base))
				hist[w] = append(hist[w], op)
			}
		}(w)
	}
	close(begin)
	wg.Wait()
	var all []regOp
	for _, h := range hist {
		all = append(all, h...)
	}
	fail := func(kind, f string, a ...any) {
		s := ""
		for w, h := range hist {
			for _, o := range h {
				s += fmt.Sprintf("thread %d [%d,%d] kind %d %s id %d ok %v list %v\n", w, o.start, o.end, o.kind, o.name, o.id, o.ok, o.listed)
			}
		}
		R.Violation("registry:"+g.name+":"+kind, fmt.Sprintf(f, a...), s)
	}
	R.Eval(int64(len(all)))
	overlap := false
	for i, a := range all {
		for _, b := range all[i+1:] {
			overlap = overlap || (a.start < b.end && b.start < a.end)
		}
	}
	if overlap {
		R.Add("rounds_with_overlap", 1)
	}
	winner := map[string]*regOp{}
	for i := range all {
		o := &all[i]
		if o.kind == 0 && o.ok {
			R.Add("registrations", 1)
			if w := winner[o.name]; w != nil {
				fail("registered-twice", "%s was registered as %d and as %d", o.name, w.id, o.id)
			}
			winner[o.name] = o
		}
	}
	for _, o := range all {
		w := winner[o.name]
		switch {
		case o.kind == 0 && !o.ok:
			R.Add("rejected_registrations", 1)
			if w == nil || w.start > o.end {
				fail("rejected-first", "registration %d of %s was rejected before any other began", o.id, o.name)
			}
		case o.kind == 1:
			R.Add("lookups", 1)
			if o.id != 0 && (w == nil || w.id != o.id || w.start > o.end) {
				fail("wrong-lookup", "%s resolves to %d", o.name, o.id)
			}
			if o.id == 0 && w != nil && w.end < o.start {
				fail("lost", "%s was registered as %d but resolves to nothing", o.name, w.id)
			}
		case o.kind == 2:
			R.Add("listings", 1)
			for k, id := range o.listed {
				if !strings.HasPrefix(k, prefix) {
					continue
				}
				v := winner[strings.ToLower(k)]
				if v == nil || v.id != id || v.start > o.end {
					fail("wrong-listing", "listing has %s as %d", k, id)
				}
			}
			if _, ok := o.listed["intruder"]; ok {
				fail("listing-shared", "a change of a returned listing is visible in a later one")
			}
			for n, v := range winner {
				if v.end < o.start {
					found := false
					for k, id := range o.listed {
						found = found || (strings.ToLower(k) == n && id == v.id)
					}
					if !found {
						fail("listing-misses", "listing misses %s", n)
					}
				}
			}
		}
	}
	// afterwards, in peace
	l := g.list()
	count := 0
	for k := range l {
		if strings.HasPrefix(strings.ToLower(k), prefix) {
			count++
		}
	}
	if count != len(winner) {
		fail("final-listing", "%d names listed, %d registered: %v", count, len(winner), l)
	}
	for n, w := range winner {
		if got := g.lookup(strings.ToUpper(n)); got != w.id {
			fail("final-lookup", "%s is %d, registered as %d", n, got, w.id)
		}
		if g.register(n, 1) {
			fail("registered-twice", "%s could be registered again", n)
		}
		if got := g.lookup(n); got != w.id {
			fail("overwritten", "%s is %d, registered as %d", n, got, w.id)
		}
		if got := g.lookup(n + "x"); got != 0 {
			fail("resolves-unregistered", "%sx is %d", n, got)
		}
	}
	R.Distinct(rep.Fnv(g.name, fmt.Sprint(orderOf(all))))
	if round < 2 {
		R.Sample("%s: %d operations by %d goroutines, %d names won", g.name, len(all), workers, len(winner))
	}
}

// orderOf lists the operations by their start, the interleaving that was seen.
func orderOf(all []regOp) (r []string) {
	for _, o := range all {
		n := 0
		for _, p := range all {
			if p.start < o.start {
				n++
			}
		}
		r = append(r, fmt.Sprint(n, o.kind, o.name, o.ok))
	}
	return
}

func registries() {
	// nil is rejected and leaves the name free
	if tosca.RegisterInterpreterFactory("nil-one", nil) == nil || tryPanic(func() { tosca.MustRegisterInterpreterFactory("nil-one", nil) }) {
		R.Violation("registry:interpreter:nil", "a nil factory was registered", "")
	}
	if tryPanic(func() { tosca.RegisterProcessorFactory("nil-one", nil) }) {
		R.Violation("registry:processor:nil", "a nil factory was registered", "")
	}
	if !interpreters.register("nil-one", 3) || !processors.register("nil-one", 3) {
		R.Violation("registry:nil-blocks", "a rejected nil factory blocks the name", "")
	}
	// configurations and errors pass through
	var seen any
	if err := tosca.RegisterInterpreterFactory("Conf", func(c any) (tosca.Interpreter, error) {
		if !rounds.Load() {
			seen = c
		}
		if c == "fail" {
			return nil, fmt.Errorf("as asked")
		}
		return &fakeVM{5}, nil
	}); err != nil {
		R.Violation("registry:interpreter:register", err.Error(), "")
	}
	if i, err := tosca.NewInterpreter("cONF", 17); err != nil || vmID(i) != 5 || seen != 17 {
		R.Violation("registry:interpreter:configuration", fmt.Sprint(i, err, seen), "")
	}
	if i, err := tosca.NewInterpreter("conf", "fail"); err == nil || i != nil {
		R.Violation("registry:interpreter:factory-error", fmt.Sprint(i, err), "")
	}
	if i, err := tosca.NewInterpreter("conf"); err != nil || vmID(i) != 5 || seen != nil {
		R.Violation("registry:interpreter:no-configuration", fmt.Sprint(i, err, seen), "")
	}
	if _, err := tosca.NewInterpreter("conf", 1, 2); err == nil {
		R.Violation("registry:interpreter:two-configurations", "accepted", "")
	}
	if i, err := tosca.NewInterpreter("never-registered"); err == nil || i != nil || tosca.GetInterpreter("never-registered") != nil || tosca.GetProcessor("never-registered", nil) != nil {
		R.Violation("registry:unknown-name", fmt.Sprint(i, err), "")
	}
	// listings are copies
	for i := 0; i < 2; i++ {
		if l := interpreters.list(); l["conf"] != 5 || len(l) != 2 {
			R.Violation("registry:interpreter:listing", fmt.Sprint(l), "")
		}
	}
	rounds.Store(true)
	for round := 0; round < scale(60, 1500); round++ {
		registryRound(interpreters, round, 2+round%7)
		registryRound(processors, round, 2+round%7)
	}
}
