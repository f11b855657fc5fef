package main

import (
	"fmt"
	"math/rand"

	ct "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	prand "pgregory.net/rand"

	"verif/evmgen"
	"verif/ref"
	"verif/rep"
)

func known(s *st.State) bool {
	return s.Revision >= tosca.R07_Istanbul && s.Revision <= tosca.R13_Cancun
}

// judged says whether the specification and the reference machine are to agree:
// revisions both know, and a program counter on an instruction. From Berlin on no
// history leads to a storage slot written in this transaction that is cold.
func judged(s *st.State) bool {
	if !known(s) || !s.Code.IsCode(int(s.Pc)) {
		return false
	}
	if opAt(s) == "SSTORE" && s.Revision >= tosca.R09_Berlin && s.Stack.Size() > 0 {
		k := s.Stack.Get(0)
		if !s.Storage.IsWarm(k) && s.Storage.GetCurrent(k) != s.Storage.GetOriginal(k) {
			R.Add("unreachable_sstore_skipped", 1)
			return false
		}
	}
	return true
}

func opAt(s *st.State) string {
	if s.Status != st.Running {
		return "end"
	}
	op, err := s.Code.GetOperation(int(s.Pc))
	if err != nil {
		return "data"
	}
	return op.String()
}

// sources produces states at instructions: along the runs of generated programs,
// and variations of those that sit at a rule's edges. f gets a state that it may
// keep, and the case it came from.
func sources(r *rand.Rand, g *evmgen.Gen, id int, f func(*st.State, *ref.Case)) {
	c := newCase(g, id)
	s := stateOf(c, r)
	v, w := machine(s)
	steps := 0
	every := 1 + r.Intn(8)
	for v.Status == ref.Running && steps < 3000 {
		if steps < 12 || steps%every == 0 && r.Intn(1+steps/50) == 0 {
			here := cloneAt(v, w)
			f(here, c)
			if r.Intn(3) == 0 {
				for _, x := range variants(here, r) {
					f(x, c)
				}
			}
		}
		v.Step()
		steps++
	}
	f(cloneAt(v, w), c)
}

func cloneAt(v *ref.VM, w *world) *st.State {
	s := w.state(v)
	return s.Clone()
}

// variants moves a state to the edges of what its instruction depends on.
func variants(s *st.State, r *rand.Rand) (res []*st.State) {
	mod := func(f func(*st.State)) *st.State {
		c := s.Clone()
		f(c)
		res = append(res, c)
		return c
	}
	rich := mod(func(c *st.State) { c.Gas = tosca.Gas(1) << 35 })
	v, _ := machine(rich)
	before := v.Gas
	v.Step()
	if v.Status != ref.Failed && !v.Inconclusive {
		cost := before - v.Gas
		for _, d := range []int64{-1, 0, 1, int64(r.Intn(64)), 2299, 2300, 2301, int64(r.Intn(40000))} {
			if g := cost + d; g >= 0 {
				mod(func(c *st.State) { c.Gas = tosca.Gas(g) })
			}
		}
		if cost > 1<<34 { // all but one 64th was handed to a call
			for i := 0; i < 6; i++ {
				mod(func(c *st.State) { c.Gas = tosca.Gas(r.Intn(60000)) })
			}
		}
	}
	mod(func(c *st.State) { c.ReadOnly = !c.ReadOnly })
	mod(func(c *st.State) { c.Revision = tosca.Revision(r.Intn(6)) })
	mod(func(c *st.State) { c.Revision = tosca.Revision(r.Intn(6)); c.ReadOnly = true; c.Gas = 1 << 30 })
	mod(func(c *st.State) { c.Status = st.StatusCode(1 + r.Intn(3)) })
	mod(func(c *st.State) { c.Pc = uint16(min(65535, c.Code.Length()+r.Intn(3))) })
	mod(func(c *st.State) { c.HasSelfDestructed = !c.HasSelfDestructed; c.Gas = 1 << 30 })
	for _, n := range []int{0, 1, 2, 3, 6, 7} {
		if k := s.Stack.Size(); n < k && r.Intn(2) == 0 {
			mod(func(c *st.State) {
				vals := []ct.U256{}
				for i := n - 1; i >= 0; i-- {
					vals = append(vals, c.Stack.Get(i))
				}
				c.Stack = st.NewStack(vals...)
			})
		}
	}
	for _, n := range []int{1024, 1023, 1022} {
		if k := s.Stack.Size(); n > k {
			mod(func(c *st.State) {
				vals := make([]ct.U256, n)
				for i := range vals {
					vals[i] = small(r)
				}
				for i := 0; i < k; i++ {
					vals[n-1-i] = c.Stack.Get(i)
				}
				c.Stack = st.NewStack(vals...)
			})
		}
	}
	if s.Stack.Size() > 0 {
		mod(func(c *st.State) { c.Stack.Set(r.Intn(min(7, c.Stack.Size())), operand(r, c)); c.Gas = 1 << 33 })
		mod(func(c *st.State) { c.Stack.Set(r.Intn(min(7, c.Stack.Size())), operand(r, c)) })
	}
	return
}

func operand(r *rand.Rand, s *st.State) ct.U256 {
	switch r.Intn(6) {
	case 0:
		return small(r)
	case 1:
		return u(word(r))
	case 2:
		return ct.NewU256(uint64(r.Intn(s.Code.Length() + 2)))
	case 3:
		return ct.AddressToU256(s.CallContext.AccountAddress)
	case 4:
		return ct.NewU256(s.BlockContext.BlockNumber - uint64(r.Intn(260)))
	}
	return ct.NewU256(uint64(r.Intn(70)))
}

func allRules() []rlz.Rule { return spc.Spec.GetRules() }

func specification() {
	rules := spc.Spec.GetRules()
	R.Add("rules_in_specification", int64(len(rules)))
	names := newSet()
	kinds := newSet()
	judge := func(s *st.State, c *ref.Case, from string) {
		if !judged(s) {
			return
		}
		op := opAt(s)
		before := s.Clone()
		v, w := machine(s)
		v.Step()
		if v.Inconclusive {
			R.Add("too_large", 1)
			return
		}
		want := w.state(v)
		uni := universeOf(c, w)
		applicable := spc.Spec.GetRulesFor(s)
		R.Eval(1)
		desc := func() string { return fmt.Sprintf("from %s\n%s", from, describe(before)) }
		if len(applicable) == 0 {
			R.Violation("spec:norule:"+op, fmt.Sprintf("no rule applies (reference: %v %s)\n%s", v.Status, v.Why, desc()), "")
			return
		}
		for _, rule := range applicable {
			got := s.Clone()
			ok := R.Guard("rule "+rule.Name, func() { rule.Effect.Apply(got) })
			if !ok {
				continue
			}
			R.Add("rule_applications", 1)
			names.add(rule.Name)
			kinds.add(fmt.Sprint(op, s.Revision, v.Status, v.Why))
			if d := uni.differences(want, got); len(d) > 0 {
				key := "spec:" + op + ":" + field(d[0])
				if op == "EXTCODEHASH" && got.Status == st.Running && got.Stack.Size() > 0 && got.Stack.Get(0) == ct.NewU256(0) {
					if x := want.Clone(); x.Stack.Size() > 0 {
						x.Stack.Set(0, ct.NewU256(0))
						if len(uni.differences(x, got)) == 0 {
							key = "spec:EXTCODEHASH:zero-hash"
						}
					}
				}
				R.Violation(key, fmt.Sprintf("rule %s: %v (reference: %v %s)\n%s", rule.Name, d, v.Status, v.Why, desc()), "")
			} else if !want.Eq(got) {
				R.Violation("spec:"+op+":untracked", fmt.Sprintf("rule %s: %v\n%s", rule.Name, want.Diff(got), desc()), "")
			}
		}
		if len(applicable) > 1 {
			R.Add("states_with_several_rules", 1)
		}
		if d := uni.differences(before, s); len(d) > 0 {
			R.Violation("spec:input-changed", fmt.Sprint(d), "")
		}
		R.Distinct(uni.fingerprint(before).hash())
	}
	rep.Parallel(8, func(wk int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(wk)))
		g := evmgen.New(seed*1000 + int64(wk) + 500)
		for i := 0; i < scale(200, 40000); i++ {
			sources(r, g, i, func(s *st.State, c *ref.Case) {
				R.Guard("spec", func() { judge(s, c, c.Tag+" program") })
			})
		}
	})
	// States the framework generates for its own rules.
	rep.Parallel(len(rules), func(i int) {
		r := rand.New(rand.NewSource(seed*77 + int64(i)))
		for k := 0; k < scale(3, 40); k++ {
			R.Guard("generate", func() {
				s, err := rules[i].GenerateSatisfyingState(prand.New(r.Uint64()))
				if err != nil {
					R.Add("rules_without_state", 1)
					return
				}
				R.Add("generated_states", 1)
				judge(s, nil, "rule "+rules[i].Name)
				if k == 0 && judged(s) {
					for _, x := range variants(s, r) {
						judge(x, nil, "variant of rule "+rules[i].Name)
					}
				}
			})
		}
	})
	// The enumeration of test cases of some rules.
	rep.Parallel(scale(150, len(rules)), func(i int) {
		r := rand.New(rand.NewSource(seed*78 + int64(i)))
		rule := rules[r.Intn(len(rules))]
		n := 0
		R.Guard("enumerate", func() {
			err := rule.EnumerateTestCases(prand.New(r.Uint64()), func(s *st.State) rlz.ConsumerResult {
				n++
				if n%(1+r.Intn(12)) == 0 {
					judge(s, nil, "enumeration of "+rule.Name)
				}
				if n > scale(300, 6000) {
					return rlz.ConsumeAbort
				}
				return rlz.ConsumeContinue
			})
			if err != nil {
				R.Violation("spec:enumerate", rule.Name+": "+err.Error(), "")
			}
		})
	})
	// Unknown revisions fail.
	s := st.NewState(st.NewCode([]byte{byte(vm.STOP)}))
	s.Revision = ct.R99_UnknownNextRevision
	for _, rule := range spc.Spec.GetRulesFor(s) {
		c := s.Clone()
		rule.Effect.Apply(c)
		if c.Status != st.Failed {
			R.Violation("spec:unknown-revision", rule.Name, "")
		}
	}
	R.Add("rules_applied", int64(names.size()))
	R.Add("distinct_situations", int64(kinds.size()))
	_ = gen.ErrUnsatisfiable
}

func field(d string) string {
	for i, c := range d {
		if c == ':' {
			d = d[:i]
			break
		}
	}
	return part(d)
}

func describe(s *st.State) string {
	x := s.String()
	if len(x) > 3000 {
		x = x[:3000] + "..."
	}
	return fmt.Sprintf("code %x\n%s", s.Code.Copy()[:min(200, s.Code.Length())], x)
}
