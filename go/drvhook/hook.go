// Package drvhook is linked into the conformance test driver (go/ct/driver) in
// place of the interpreters that are not built here. It offers an interpreter
// that follows the specification except where a plan tells it to deviate, and
// writes down every request it gets and how it was answered.
package drvhook

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"time"
)

// Extra is a rule added to the specification: it applies to running states at
// an instruction whose byte, stack size and gas fulfil simple conditions.
type Extra struct {
	Name    string
	Op      int // -1: any instruction
	MinGas  int
	MaxGas  int // 0: no limit
	Effect  string
	Amount  int
	Depth   int // stack sizes up to this, 0: any
	Samples bool
}

type Plan struct {
	Log      string
	Mode     string // "": run as the driver; "enum": list states and rules
	Filter   string
	Seed     uint64
	Full     bool
	Limit    int64
	Extra    []Extra
	Mod      uint64 // one state in Mod is answered with a deviation, 0: none
	Salt     uint64
	Kinds    []string
	PauseMod uint64 // yields for one state in PauseMod
}

type StateInfo struct {
	Full, Core  uint64
	IsCode      bool
	Supported   bool // revision
	Rules       []string
	AllAgree    bool // all applicable rules prescribe the same
	FilterCount int  // applicable rules matching the filter
	FilterSame  bool // the first of these prescribes what the interpreter does
}

type Call struct {
	Full, Core uint64
	Steps      int
	Kind       string // "" if answered as specified
	NoRule     bool
	Parallel   bool
}

var (
	plan Plan
	out  *bufio.Writer
	file *os.File
	mu   sync.Mutex
)

func emit(v any) {
	if out == nil {
		return
	}
	b, _ := json.Marshal(v)
	mu.Lock()
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
	mu.Unlock()
}

// Init is called when the driver starts.
func Init() {
	path := os.Getenv("VERIF_DRIVER_PLAN")
	if path == "" {
		return
	}
	text, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(text, &plan)
	}
	if err == nil && plan.Log != "" {
		file, err = os.Create(plan.Log)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "verif-plan:", err)
		os.Exit(3)
	}
	if file != nil {
		out = bufio.NewWriter(file)
	}
	if len(plan.Extra) > 0 {
		rules := spc.Spec.GetRules()
		// The order of rules from the map is arbitrary; it is of no importance
		// for the original ones, and the added ones come last in each group.
		for _, e := range plan.Extra {
			rules = append(rules, e.rule())
		}
		spc.Spec = spc.NewSpecificationMap(rules...)
	}
	if plan.Mode == "enum" {
		enumerate()
		os.Exit(0)
	}
}

func (e Extra) rule() rlz.Rule {
	cs := []rlz.Condition{rlz.Eq(rlz.Status(), st.Running)}
	if e.Op >= 0 {
		cs = append(cs, rlz.Eq(rlz.Op(rlz.Pc()), vm.OpCode(e.Op)))
	}
	if e.MinGas > 0 {
		cs = append(cs, rlz.Ge(rlz.Gas(), tosca.Gas(e.MinGas)))
	}
	if e.MaxGas > 0 {
		cs = append(cs, rlz.Lt(rlz.Gas(), tosca.Gas(e.MaxGas)))
	}
	if e.Depth > 0 {
		cs = append(cs, rlz.Le(rlz.StackSize(), e.Depth))
	}
	r := rlz.Rule{Name: e.Name, Condition: rlz.And(cs...), Effect: rlz.NoEffect()}
	op := e.Op
	switch e.Effect {
	case "none":
	case "gas":
		r.Effect = rlz.Change(func(s *st.State) { s.Gas += tosca.Gas(e.Amount) })
	case "fail":
		r.Effect = rlz.FailEffect()
	case "stop":
		r.Effect = rlz.Change(func(s *st.State) { s.Status = st.Stopped })
	case "same":
		// What the specification prescribes anyway.
		plain := original
		r.Effect = rlz.Change(func(s *st.State) {
			if rs := plain.GetRulesFor(s); len(rs) > 0 {
				rs[0].Effect.Apply(s)
			}
		})
	}
	_ = op
	return r
}

var original = spc.Spec

func enumerate() {
	filter := regexp.MustCompile(plan.Filter)
	rules := []rlz.Rule{}
	for _, r := range spc.Spec.GetRules() {
		if filter.MatchString(r.Name) {
			rules = append(rules, r)
		}
	}
	var count atomic.Int64
	names := map[string]int{}
	for _, r := range rules {
		names[r.Name]++
	}
	emit(map[string]any{"Selected": names})
	err := spc.ForEachState(rules, func(s *st.State) rlz.ConsumerResult {
		if count.Add(1) > plan.Limit {
			os.Exit(5)
		}
		i := Inspect(s)
		rs := spc.Spec.GetRulesFor(s)
		var plain *st.State
		if o := original.GetRulesFor(s); len(o) > 0 {
			plain = s.Clone()
			o[0].Effect.Apply(plain)
		}
		i.AllAgree, i.FilterSame = true, true
		var first *st.State
		for k, r := range rs {
			i.Rules = append(i.Rules, r.Name)
			c := s.Clone()
			r.Effect.Apply(c)
			if k == 0 {
				first = c
			} else if !c.Eq(first) {
				i.AllAgree = false
			}
			if filter.MatchString(r.Name) {
				if i.FilterCount == 0 {
					i.FilterSame = plain != nil && c.Eq(plain)
				}
				i.FilterCount++
			}
		}
		emit(i)
		return rlz.ConsumeContinue
	}, func(time.Duration, float64, int64) {}, runtime.NumCPU(), plan.Seed, plan.Full)
	if err != nil {
		fmt.Fprintln(os.Stderr, "verif-enum:", err)
		os.Exit(4)
	}
}

func add(h uint64, text string) uint64 {
	for i := 0; i < len(text); i++ {
		h = (h ^ uint64(text[i])) * 1099511628211
	}
	return (h ^ 0x1f) * 1099511628211
}

// Inspect identifies a state; Core covers what survives files unchanged.
func Inspect(s *st.State) StateInfo {
	h := uint64(14695981039346656037)
	h = add(h, fmt.Sprint(int(s.Status), int(s.Revision), s.ReadOnly, s.Pc, int64(s.Gas), int64(s.GasRefund)))
	h = add(h, string(s.Code.Copy()))
	for i := 0; i < s.Stack.Size(); i++ {
		w := s.Stack.Get(i).Bytes32be()
		h = add(h, string(w[:]))
	}
	h = add(h, string(s.Memory.Clone().Read(0, uint64(s.Memory.Size()))))
	h = add(h, fmt.Sprint(s.CallData, s.LastCallReturnData, s.HasSelfDestructed, s.BlockContext, s.CallContext, len(s.Logs.Entries)))
	lines := strings.Split(s.String(), "\n")
	sort.Strings(lines)
	return StateInfo{Core: h, Full: add(h, strings.Join(lines, "\n")), IsCode: s.Code.IsCode(int(s.Pc)), Supported: s.Revision <= common.NewestFullySupportedRevision}
}

// Decide tells how the state is answered.
func Decide(p *Plan, core uint64) string {
	if p.Mod == 0 || len(p.Kinds) == 0 {
		return ""
	}
	x := (core ^ p.Salt) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	if x%p.Mod != 0 {
		return ""
	}
	return p.Kinds[(x/p.Mod)%uint64(len(p.Kinds))]
}

type target struct{ busy atomic.Int32 }

// Target is the interpreter with the given name.
func Target(name string) ct.Evm { return &target{} }

func (t *target) StepN(s *st.State, n int) (*st.State, error) {
	busy := t.busy.Add(1)
	defer t.busy.Add(-1)
	i := Inspect(s)
	c := Call{Full: i.Full, Core: i.Core, Steps: n, Parallel: busy > 1}
	if plan.PauseMod > 0 && i.Core%plan.PauseMod == 0 {
		time.Sleep(time.Millisecond)
	}
	rules := original.GetRulesFor(s)
	if len(rules) == 0 {
		c.NoRule = true
		emit(c)
		return s, nil
	}
	kind := Decide(&plan, i.Core)
	rules[0].Effect.Apply(s)
	if kind != "" {
		kind = deviate(s, kind)
	}
	c.Kind = kind
	emit(c)
	switch kind {
	case "error":
		return nil, errors.New("verif: deliberate error")
	case "unsupported":
		return nil, fmt.Errorf("verif: %w", &tosca.ErrUnsupportedRevision{Revision: s.Revision})
	case "panic":
		panic("verif: deliberate panic")
	}
	return s, nil
}

// deviate changes the result so that it differs from what is specified, in the
// way asked for if that makes a difference for states of this status.
func deviate(s *st.State, kind string) string {
	switch kind {
	case "error", "unsupported", "panic", "status":
	default:
		if s.Status == st.Failed {
			kind = "status"
		}
	}
	if s.Status == st.Running && kind == "returndata" || s.Status != st.Running && (kind == "pc" || kind == "stack" || kind == "memory" || kind == "push") {
		kind = "gas"
	}
	one := common.NewU256(1)
	switch kind {
	case "status":
		if s.Status == st.Failed {
			s.Status = st.Stopped
		} else {
			s.Status = st.Failed
		}
	case "gas":
		s.Gas++
	case "refund":
		s.GasRefund--
	case "pc":
		if int(s.Pc) >= s.Code.Length() {
			// All of these are the same position, so this is no deviation there.
			s.Gas--
			return "gas"
		}
		s.Pc++
	case "stack":
		if n := s.Stack.Size(); n > 0 {
			s.Stack.Set(n-1, s.Stack.Get(n-1).Add(one))
		} else {
			s.Stack.Push(one)
		}
	case "push":
		s.Stack.Push(one)
	case "memory":
		s.Memory.Append(make([]byte, 32))
	case "storage":
		s.Storage.SetCurrent(common.NewU256(0x7e, 1, 2, 3), one)
	case "log":
		s.Logs.AddLog([]byte{1}, one)
	case "returndata":
		s.ReturnData = common.NewBytes(append(s.ReturnData.ToBytes(), 0))
	case "selfdestruct":
		s.HasSelfDestructed = !s.HasSelfDestructed
	case "readonly":
		s.ReadOnly = !s.ReadOnly
	case "code":
		s.Code = st.NewCode(append(s.Code.Copy(), 0))
	}
	return kind
}
