package main

import (
	"fmt"
	"math/rand"

	"github.com/Fantom-foundation/Tosca/go/ct"
	common "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	prand "pgregory.net/rand"

	"verif/evmgen"
	"verif/ref"
	"verif/rep"
)

// steps judges a step adapter: n steps through it yield
// the state that n steps of the reference machine yield. One target serves all
// workers at once.
func steps() {
	hostHashes = true
	target := newTarget()
	rules := spc.Spec.GetRules()
	names, kinds := newSet(), newSet()
	rep.Parallel(8, func(wk int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(wk)))
		g := evmgen.New(seed*1000 + int64(wk) + 900)
		var last []*st.State
		for i := 0; i < scale(160, 20000); i++ {
			sources(r, g, i, func(s *st.State, c *ref.Case) {
				R.Guard("step", func() { stepBoth(target, s, c, counts(r), c.Tag+" program", kinds) })
				if r.Intn(20) == 0 {
					last = append(last, s.Clone())
				}
				if r.Intn(12) == 0 {
					for _, x := range siblings(s, r) {
						R.Guard("step", func() { stepBoth(target, x, nil, counts(r), "sibling of "+c.Tag+" program", kinds) })
						R.Add("sibling_codes", 1)
					}
				}
			})
			if len(last) > 40 { // again, after the caches saw other code
				for _, s := range last {
					R.Guard("step", func() { stepBoth(target, s, nil, counts(r), "earlier state", kinds) })
					R.Add("states_repeated", 1)
				}
				last = last[:0]
			}
		}
	})
	rep.Parallel(len(rules), func(i int) {
		r := rand.New(rand.NewSource(seed*79 + int64(i)))
		for k := 0; k < scale(2, 30); k++ {
			s, err := rules[i].GenerateSatisfyingState(prand.New(r.Uint64()))
			if err != nil {
				R.Add("rules_without_state", 1)
				continue
			}
			names.add(rules[i].Name)
			R.Guard("step", func() { stepBoth(target, s, nil, 1, "rule "+rules[i].Name, kinds) })
			if k == 0 && judged(s) {
				for _, x := range variants(s, r) {
					R.Guard("step", func() { stepBoth(target, x, nil, counts(r), "variant of rule "+rules[i].Name, kinds) })
				}
			}
		}
	})
	rep.Parallel(scale(100, len(rules)), func(i int) {
		r := rand.New(rand.NewSource(seed*80 + int64(i)))
		rule := rules[r.Intn(len(rules))]
		n := 0
		err := rule.EnumerateTestCases(prand.New(r.Uint64()), func(s *st.State) rlz.ConsumerResult {
			n++
			if n%(1+r.Intn(12)) == 0 {
				R.Guard("step", func() { stepBoth(target, s, nil, 1, "enumeration of "+rule.Name, kinds) })
			}
			if n > scale(300, 6000) {
				return rlz.ConsumeAbort
			}
			return rlz.ConsumeContinue
		})
		if err != nil {
			R.Violation("steps:enumerate", rule.Name+": "+err.Error(), "")
		}
	})
	R.Add("rules_with_states", int64(names.size()))
	R.Add("distinct_situations", int64(kinds.size()))
}

// siblings are states whose codes differ a little from the one given, run one
// after the other: what is kept for one of them does not fit the next.
func siblings(s *st.State, r *rand.Rand) (res []*st.State) {
	code := s.Code.Copy()
	for k := 0; k < 3; k++ {
		b := append([]byte(nil), code...)
		switch r.Intn(6) {
		case 0, 1:
			b = append(b, make([]byte, 1+r.Intn(40))...)
		case 2:
			for len(b) > 0 && b[len(b)-1] == 0 {
				b = b[:len(b)-1]
			}
		case 3:
			if len(b) > 0 {
				b[r.Intn(len(b))] = []byte{0x5b, 0x60, 0x7f, 0x00, byte(r.Intn(256))}[r.Intn(5)]
			}
		case 4:
			b = b[:r.Intn(len(b)+1)]
		default:
			b = append(b, []byte{0x5b, 0x60, 0x7f, 0x50}[r.Intn(4)])
		}
		x := s.Clone()
		x.Code = st.NewCode(b)
		if n := []int{1, 33, 32768, 40000, 60000}[r.Intn(5)]; r.Intn(3) == 0 && len(b)+n < 65000 {
			x.Code = st.NewCode(append(make([]byte, n), b...))
			x.Pc = uint16(n + r.Intn(len(b)+1))
			if x.Code.IsCode(int(x.Pc)) {
				res = append(res, x)
				continue
			}
			x.Code = st.NewCode(b)
		}
		for tries := 0; tries < 20; tries++ {
			if r.Intn(2) == 0 {
				x.Pc = uint16(max(0, len(b)+1-r.Intn(8)))
			} else if r.Intn(2) == 0 {
				x.Pc = uint16(r.Intn(len(b) + 1))
			}
			if x.Code.IsCode(int(x.Pc)) {
				break
			}
		}
		res = append(res, x)
	}
	return res
}

func counts(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return 2
	case 1:
		return 1 + r.Intn(8)
	case 2:
		return 1 + r.Intn(200)
	case 3:
		return 3000
	case 4:
		return 0
	}
	return 1
}

func stepBoth(target ct.Evm, s *st.State, c *ref.Case, n int, from string, kinds *set) {
	if s.Revision == common.R99_UnknownNextRevision {
		before, x := s.Clone(), s.Clone()
		got, err := target.StepN(x, n)
		uni := universeOf(c, nil)
		if err == nil {
			R.Violation("steps:unknown-revision", "no error", "")
		} else if d := uni.differences(before, got); len(d) > 0 {
			R.Violation("steps:unknown-revision-state", fmt.Sprint(d), "")
		}
		R.Add("unknown_revisions_rejected", 1)
		return
	}
	if !judged(s) {
		return
	}
	if s.Memory.Size()%32 != 0 {
		s = s.Clone()
		s.Memory.Grow(0, uint64((s.Memory.Size()+31)/32*32))
	}
	op := opAt(s)
	if n != 1 {
		op = "several"
	}
	v, w := machine(s)
	for i := 0; i < n && v.Status == ref.Running; i++ {
		if i > 0 && s.Revision >= 2 && v.PC < uint64(len(s.Code.Copy())) && s.Code.Copy()[v.PC] == 0x55 && dirtyCold(v, w) {
			return
		}
		v.Step()
	}
	if v.Inconclusive {
		R.Add("too_large", 1)
		return
	}
	want := w.state(v)
	uni := universeOf(c, w)
	before := uni.fingerprint(s)
	in := s.Clone()
	if in.Stack.Size() == 0 && n%2 == 1 {
		in.Stack = &st.Stack{}
	}
	got, err := target.StepN(in, n)
	R.Eval(1)
	R.Add("steps_asked", int64(n))
	desc := func() string {
		return fmt.Sprintf("%d steps (reference: %v %s) from %s\n%s", n, v.Status, v.Why, from, describe(s))
	}
	if err != nil {
		R.Violation("steps:"+op+":error", err.Error()+"\n"+desc(), "")
		return
	}
	kinds.add(fmt.Sprint(op, s.Revision, v.Status, v.Why))
	if d := uni.differences(want, got); len(d) > 0 {
		R.Violation("steps:"+op+":"+field(d[0]), fmt.Sprintf("%v\n%s", d, desc()), "")
	} else if !want.Eq(got) {
		R.Violation("steps:"+op+":untracked", fmt.Sprintf("%v\n%s", want.Diff(got), desc()), "")
	}
	if after := uni.fingerprint(s); !before.same(after) {
		R.Violation("steps:input-copy-changed", fmt.Sprintf("%v\n%s", before.diff(after), desc()), "")
	}
	R.Distinct(before.hash() ^ uint64(n)*0x9e3779b97f4a7c15)
}

func dirtyCold(v *ref.VM, w *world) bool {
	if len(v.Stack) == 0 {
		return false
	}
	k := uOf(v.Stack[len(v.Stack)-1])
	return !w.s.Storage.IsWarm(k) && w.s.Storage.GetCurrent(k) != w.s.Storage.GetOriginal(k)
}
