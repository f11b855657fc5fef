package main

import (
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ct "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	prand "pgregory.net/rand"

	"verif/evmgen"
	"verif/ref"
	"verif/rep"
)

func ruleNames(rules []rlz.Rule) string {
	names := []string{}
	for _, r := range rules {
		names = append(names, r.Name+": "+r.Condition.String()) // several rules may share a name
	}
	sort.Strings(names)
	return strings.Join(names, ", ")
}

// applicable tests every rule on its own.
func applicable(rules []rlz.Rule, s *st.State) (res []rlz.Rule) {
	for _, r := range rules {
		if ok, err := r.Condition.Check(s); ok && err == nil {
			res = append(res, r)
		}
	}
	return
}

func lookUp(what string, spec spc.Specification, rules []rlz.Rule, s *st.State) {
	want := ruleNames(applicable(rules, s))
	before := fingerprint(s).hash()
	got := ruleNames(spec.GetRulesFor(s))
	R.Eval(1)
	if want == "" {
		R.Add("lookups_without_rule", 1)
	} else {
		R.Add("lookups_with_rules", 1)
		R.Distinct(rep.Fnv(what, want))
	}
	if got != want {
		R.Violation("lookup:"+what, fmt.Sprintf("rules found: %q, rules that apply: %q\n%s", got, want, describe(s)), "")
	}
	if fingerprint(s).hash() != before {
		R.Violation("lookup:"+what+":modified", "a lookup changed the state\n"+describe(s), "")
	}
}

func lookups() {
	all := spc.Spec.GetRules()
	R.Add("rules_in_specification", int64(len(all)))
	workers := 8
	if isRace {
		workers = 1
	}
	rep.Parallel(workers, func(wk int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(wk)))
		g := evmgen.New(seed*1000 + int64(wk) + 900)
		for i := 0; i < scale(12, 1500); i++ {
			R.Guard("lookup", func() {
				pool := []*st.State{}
				sources(r, g, i, func(s *st.State, _ *ref.Case) {
					if r.Intn(8) == 0 {
						pool = append(pool, s)
					}
				})
				for k := 0; k < 6; k++ {
					s := freshState(r)
					if r.Intn(2) == 0 {
						s.Pc = uint16(r.Intn(s.Code.Length() + 3))
					}
					pool = append(pool, s)
				}
				for k := 0; k < 6; k++ {
					rule := all[r.Intn(len(all))]
					if s, err := rule.GenerateSatisfyingState(prand.New(r.Uint64())); err == nil {
						pool = append(pool, s)
					}
				}
				if len(pool) > 60 {
					r.Shuffle(len(pool), func(a, b int) { pool[a], pool[b] = pool[b], pool[a] })
					pool = pool[:60]
				}
				for _, s := range pool {
					lookUp("specification", spc.Spec, all, s)
					if r.Intn(4) == 0 { // every kind of end, and revisions without rules
						x := s.Clone()
						x.Status = st.StatusCode(r.Intn(int(st.NumStatusCodes)))
						x.Revision = []tosca.Revision{tosca.R07_Istanbul, tosca.R13_Cancun, 99}[r.Intn(3)]
						x.Pc = uint16(r.Intn(x.Code.Length() + 3))
						lookUp("specification", spc.Spec, all, x)
					}
				}
				for k := 0; k < 6; k++ {
					randomRules(r, pool)
				}
			})
		}
	})
}

func currentOp(r *rand.Rand, s *st.State) rlz.Condition {
	op := randOp(r)
	if x, err := s.Code.GetOperation(int(s.Pc)); err == nil && r.Intn(3) > 0 {
		op = x
	}
	switch r.Intn(8) {
	case 0:
		return rlz.Ne(rlz.Op(rlz.Pc()), op)
	case 1:
		return rlz.Eq(rlz.Op(rlz.Param(0)), op)
	}
	return rlz.Eq(rlz.Op(rlz.Pc()), op)
}

// randomRules makes a specification of rules with random conditions around the
// states in the pool.
func randomRules(r *rand.Rand, pool []*st.State) {
	rules := []rlz.Rule{}
	for i := r.Intn(12); i >= 0; i-- {
		s := pool[r.Intn(len(pool))]
		cs := []rlz.Condition{}
		for k := r.Intn(4); k > 0; k-- {
			a := atomFor(r, s)
			if ok, err := a.eval(s); r.Intn(3) > 0 && (!ok || err != nil) {
				continue // mostly what holds
			}
			cs = append(cs, a.c)
		}
		if r.Intn(3) > 0 {
			cs = append(cs, currentOp(r, s))
		}
		r.Shuffle(len(cs), func(a, b int) { cs[a], cs[b] = cs[b], cs[a] })
		rules = append(rules, rlz.Rule{Name: fmt.Sprintf("r%d", len(rules)), Condition: nest(r, cs), Effect: rlz.NoEffect()})
	}
	spec := spc.NewSpecificationMap(rules...)
	if got := ruleNames(spec.GetRules()); got != ruleNames(rules) {
		R.Violation("lookup:rules", fmt.Sprintf("specification of %q lists %q", ruleNames(rules), got), "")
	}
	R.Add("random_specifications", 1)
	for k := 0; k < 8; k++ {
		lookUp("random rules", spec, rules, pool[r.Intn(len(pool))])
	}
}

// broken is a condition whose test cases cannot be generated for another reason
// than being unsatisfiable.
type broken struct{ rlz.Condition }

func (broken) GetTestValues() []rlz.TestValue {
	return []rlz.TestValue{rlz.NewTestValue(rlz.Property("broken"), domain{}, 1, func(g *gen.StateGenerator, _ int) {
		g.BindPc("not bound to anything")
	})}
}

type domain struct{}

func (domain) Equal(a, b int) bool         { return a == b }
func (domain) Less(a, b int) bool          { return a < b }
func (domain) Predecessor(a int) int       { return a - 1 }
func (domain) Successor(a int) int         { return a + 1 }
func (domain) SomethingNotEqual(a int) int { return a + 1 }
func (domain) Samples(a int) []int         { return []int{a} }
func (domain) SamplesForAll(a []int) []int { return a }

type enumeration struct {
	err      error
	calls    int64
	states   map[uint64]int64 // how often a state was processed
	most     int64            // processed at once
	printed  []int64
	returned bool
	dump     string
}

func enumerate(rules []rlz.Rule, jobs int, seed uint64, full bool, op func(call int64, s *st.State) rlz.ConsumerResult) *enumeration {
	e := &enumeration{states: map[uint64]int64{}}
	var mu sync.Mutex
	var calls, active, most atomic.Int64
	done := make(chan bool)
	go func() {
		defer close(done)
		e.err = spc.ForEachState(rules, func(s *st.State) rlz.ConsumerResult {
			n := active.Add(1)
			for m := most.Load(); n > m && !most.CompareAndSwap(m, n); m = most.Load() {
			}
			h := fingerprint(s).hash()
			res := op(calls.Add(1), s)
			mu.Lock()
			e.states[h]++
			mu.Unlock()
			active.Add(-1)
			return res
		}, func(_ time.Duration, _ float64, current int64) {
			mu.Lock()
			e.printed = append(e.printed, current)
			mu.Unlock()
		}, jobs, seed, full)
	}()
	select {
	case <-done:
		e.returned = true
	case <-time.After(120 * time.Second):
		buf := make([]byte, 1<<16)
		e.dump = string(buf[:runtime.Stack(buf, true)])
		return e
	}
	e.calls, e.most = calls.Load(), most.Load()
	return e
}

func directly(rules []rlz.Rule, seed uint64, full bool) (states map[uint64]int64, calls int64) {
	states = map[uint64]int64{}
	for _, rule := range rules {
		_ = rule.EnumerateTestCases(prand.New(seed), func(s *st.State) rlz.ConsumerResult {
			if !full {
				if ok, err := rule.Condition.Check(s); !ok || err != nil {
					return rlz.ConsumeContinue
				}
			}
			states[fingerprint(s).hash()]++
			calls++
			return rlz.ConsumeContinue
		})
	}
	return
}

func smallRules(limit int) (res []rlz.Rule) {
	for _, rule := range spc.Spec.GetRules() {
		info := rule.GetTestCaseEnumerationInfo()
		if info.TotalNumberOfCases() <= limit {
			res = append(res, rule)
		}
	}
	sort.Slice(res, func(a, b int) bool { return res[a].Name < res[b].Name })
	return
}

func forAllStates() {
	r := rand.New(rand.NewSource(seed * 77))
	small := smallRules(scale(700, 3000))
	R.Add("rules_with_few_cases", int64(len(small)))
	rounds := scale(16, 600)
	if isRace {
		rounds = scale(3, 60)
	}
	for i := 0; i < rounds; i++ {
		R.Guard("enumeration", func() { enumerationRound(r, small, i) })
	}
	for _, jobs := range []int{1, 4} { // no rules at all
		if e := enumerate(nil, jobs, 1, true, nil); !e.returned || e.err != nil || e.calls != 0 {
			R.Violation("enum:empty", fmt.Sprintf("%d jobs: %d calls, error %v, returned %v", jobs, e.calls, e.err, e.returned), "")
		}
	}
	for i := 0; i < 200; i++ {
		filterCase(r)
	}
}

func enumerationRound(r *rand.Rand, small []rlz.Rule, round int) {
	rules := []rlz.Rule{}
	cases := 0
	limit := 1000 + r.Intn(4000)
	for len(rules) < 60 && cases < limit {
		rule := small[r.Intn(len(small))]
		info := rule.GetTestCaseEnumerationInfo()
		cases += info.TotalNumberOfCases()
		rules = append(rules, rule)
	}
	full := r.Intn(2) == 0
	rs := r.Uint64()
	want, total := directly(rules, rs, full)
	mode := fmt.Sprintf("rules %q, seed %d, full mode %v", ruleNames(rules), rs, full)
	base := runtime.NumGoroutine()
	for _, jobs := range []int{1, 2, 3, 8, 16} {
		if isRace && jobs == 3 {
			continue
		}
		mutate := r.Intn(2) == 0
		e := enumerate(rules, jobs, rs, full, func(_ int64, s *st.State) rlz.ConsumerResult {
			if mutate {
				s.Gas++
				s.Stack.Push(ct.NewU256(7))
				s.Storage.SetCurrent(ct.NewU256(1), ct.NewU256(2))
				s.Memory.Write([]byte{1, 2, 3}, 5)
			}
			return rlz.ConsumeContinue
		})
		R.Add("enumerations", 1)
		R.Add("states_enumerated", e.calls)
		R.Eval(e.calls)
		R.Max("most_states_processed_at_once", e.most)
		at := fmt.Sprintf("%d jobs, %s", jobs, mode)
		if !e.returned {
			R.Violation("enum:hang", at+"\n"+e.dump, "")
			return
		}
		if e.err != nil {
			R.Violation("enum:error", fmt.Sprintf("%s: %v", at, e.err), "")
		}
		missing, extra := int64(0), int64(0)
		for h, n := range want {
			missing += max(0, n-e.states[h])
		}
		for h, n := range e.states {
			extra += max(0, n-want[h])
		}
		if missing != 0 || extra != 0 {
			R.Violation("enum:states", fmt.Sprintf("%s: of %d states %d were not processed, and %d others were", at, total, missing, extra), "")
		}
		if e.most > int64(jobs) {
			R.Violation("enum:too-parallel", fmt.Sprintf("%s: %d states processed at once", at, e.most), "")
		}
		checkPrinted(e, at)
		checkLeak(base, at)
		R.Distinct(rep.Fnv("enum", at))
	}
	// stopping
	for _, jobs := range []int{1, 4} {
		stop := 1 + r.Int63n(max(1, total/2))
		e := enumerate(rules, jobs, rs, full, func(call int64, s *st.State) rlz.ConsumerResult {
			if call >= stop {
				return rlz.ConsumeAbort
			}
			return rlz.ConsumeContinue
		})
		at := fmt.Sprintf("stopped at call %d, %d jobs, %s", stop, jobs, mode)
		if !e.returned {
			R.Violation("enum:hang", at+"\n"+e.dump, "")
			return
		}
		R.Add("enumerations_stopped", 1)
		if e.err != nil {
			R.Violation("enum:error", fmt.Sprintf("%s: %v", at, e.err), "")
		}
		if e.calls < min(stop, total) {
			R.Violation("enum:stopped-early", fmt.Sprintf("%s: %d calls", at, e.calls), "")
		}
		slack := int64(100 + 40*jobs)
		if total > stop+slack {
			R.Add("stops_with_much_left", 1)
		}
		if e.calls > stop+slack {
			R.Violation("enum:not-stopped", fmt.Sprintf("%s: %d calls of %d", at, e.calls, total), "")
		}
		for h, n := range e.states {
			if n > want[h] {
				R.Violation("enum:states", at+": a state was processed that is none of the rules' test cases", "")
				break
			}
		}
		checkPrinted(e, at)
		checkLeak(base, at)
	}
	// failing
	jobs := 1 + r.Intn(5)
	bad := append([]rlz.Rule{}, rules...)
	pos := r.Intn(len(bad) + 1)
	bad = append(bad[:pos:pos], append([]rlz.Rule{{Name: "broken", Condition: broken{rlz.And()}, Effect: rlz.NoEffect()}}, bad[pos:]...)...)
	e := enumerate(bad, jobs, rs, full, func(int64, *st.State) rlz.ConsumerResult { return rlz.ConsumeContinue })
	at := fmt.Sprintf("rule %d fails, %d jobs, %s", pos, jobs, mode)
	switch {
	case !e.returned:
		R.Violation("enum:hang", at+"\n"+e.dump, "")
	case !errors.Is(e.err, gen.ErrUnboundVariable):
		R.Violation("enum:error-lost", fmt.Sprintf("%s: returned %v", at, e.err), "")
	default:
		R.Add("enumerations_failing", 1)
		checkPrinted(e, at)
		checkLeak(base, at)
	}
}

func checkPrinted(e *enumeration, at string) {
	if len(e.printed) == 0 || e.printed[len(e.printed)-1] != e.calls {
		R.Violation("enum:progress", fmt.Sprintf("%s: %d states processed, reported %v", at, e.calls, e.printed), "")
	}
	for i := 1; i < len(e.printed); i++ {
		if e.printed[i] < e.printed[i-1] {
			R.Violation("enum:progress", fmt.Sprintf("%s: reported %v", at, e.printed), "")
		}
	}
}

func checkLeak(base int, at string) {
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= base {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	R.Violation("enum:goroutines-left", fmt.Sprintf("%s: %d goroutines, %d before", at, runtime.NumGoroutine(), base), "")
}

var filters = []string{"", ".*", "^add", "sload", "_with_", "^$", "[0-9]+$", "(?i)SSTORE", "x", "push(1|32)_", "regular$", "^(?:)$", "not there at all"}

func filterCase(r *rand.Rand) {
	all := spc.Spec.GetRules()
	r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
	all = all[:r.Intn(len(all)+1)]
	var want []rlz.Rule
	var re *regexp.Regexp
	text := "none"
	if r.Intn(8) == 0 {
		want = all
	} else {
		text = filters[r.Intn(len(filters))]
		if len(all) > 0 && r.Intn(3) == 0 {
			n := all[r.Intn(len(all))].Name
			a := r.Intn(len(n))
			text = regexp.QuoteMeta(n[a : a+1+r.Intn(len(n)-a)])
		}
		re = regexp.MustCompile(text)
		for _, rule := range all {
			if re.FindStringIndex(rule.Name) != nil {
				want = append(want, rule)
			}
		}
	}
	got := spc.FilterRules(all, re)
	R.Add("filters", 1)
	R.Eval(1)
	if ruleNames(got) != ruleNames(want) {
		R.Violation("enum:filter", fmt.Sprintf("filter %q on %d rules: %q, expected %q", text, len(all), ruleNames(got), ruleNames(want)), "")
	}
}

func lookupAndEnumeration() {
	forAllStates() // alone, it counts goroutines
	lookups()
}
