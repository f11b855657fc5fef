package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	ct "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	prand "pgregory.net/rand"

	"verif/rep"
)

// The same workload serves two properties: sound ones (what is generated
// satisfies its constraints and is reproducible) and complete ones (unsatisfiable
// is reported exactly for contradictions).
var judgeSound, judgeComplete bool

func generators()  { judgeSound = true; generate() }
func satisfiable() { judgeComplete = true; generate() }

func unsound(key, detail string) {
	if judgeSound {
		R.Violation("gen:"+key, detail, "")
	}
}
func incomplete(key, detail string) {
	if judgeComplete {
		R.Violation("gen:"+key, detail, "")
	}
}

type verdict int

const (
	unknown verdict = iota
	sat
	unsat
)

// judgeErr compares the reported satisfiability with the known one.
func judgeErr(part string, err error, want verdict, detail func() string) {
	if err != nil {
		R.Add("unsatisfiable_reported", 1)
		R.Add("unsatisfiable_"+part, 1)
		if !errors.Is(err, gen.ErrUnsatisfiable) {
			incomplete(part+":error", fmt.Sprintf("unexpected error %v for %s", err, detail()))
		} else if want == sat {
			incomplete(part+":rejected", fmt.Sprintf("satisfiable but rejected (%v): %s", err, detail()))
		}
	} else {
		R.Add("generated_"+part, 1)
		if want == unsat {
			incomplete(part+":accepted", "contradictory but a state was generated: "+detail())
		}
	}
	switch want {
	case sat:
		R.Add("known_satisfiable", 1)
	case unsat:
		R.Add("known_contradictory", 1)
	}
}

func cloneAssignment(a gen.Assignment) gen.Assignment {
	res := gen.Assignment{}
	for k, v := range a {
		res[k] = v
	}
	return res
}

// checkBindings reports changed or missing variables.
func checkBindings(part string, before, after gen.Assignment, used []gen.Variable, detail func() string) {
	for k, v := range before {
		if after[k] != v {
			unsound(part+":rebound", fmt.Sprintf("variable %v changed from %v to %v: %s", k, v, after[k], detail()))
		}
	}
	for _, v := range used {
		if _, found := after[v]; !found {
			unsound(part+":unbound", fmt.Sprintf("variable %v left unbound: %s", v, detail()))
		}
	}
}

func generate() {
	kinds := []struct {
		name string
		n    int
		f    func(r *rand.Rand)
	}{
		{"ranges", 600, func(r *rand.Rand) {
			rangeCase[uint64](r, 0, math.MaxUint64)
			rangeCase[int64](r, math.MinInt64, math.MaxInt64)
			rangeCase[tosca.Gas](r, 0, 1000)
			rangeCase[uint16](r, 0, math.MaxUint16)
			rangeCase[int](r, -3, 1024)
			rangeCase[int8](r, -128, 127)
		}},
		{"code", 4000, codeCase},
		{"stack", 3000, stackCase},
		{"storage", 3000, storageCase},
		{"transient", 3000, transientCase},
		{"accounts", 4000, accountsCase},
		{"block", 4000, blockCase},
		{"transaction", 3000, transactionCase},
		{"selfdestruct", 50, selfDestructCase},
		{"state", 3000, stateCase},
	}
	rep.Parallel(8, func(wk int) {
		for ki, k := range kinds {
			r := rand.New(rand.NewSource(seed*1000 + int64(wk*100+ki)))
			for i := 0; i < scale(4*k.n, 60*k.n); i++ {
				R.Guard("gen "+k.name, func() { k.f(r) })
				R.Add("cases_"+k.name, 1)
			}
		}
	})
}

func chance(r *rand.Rand, n int) bool { return r.Intn(n) == 0 }

func variable(r *rand.Rand, n int) gen.Variable {
	return gen.Variable([]string{"A", "B", "C", "D", "E", "F"}[r.Intn(n)])
}

// run generates twice from the same seed, on the generator and on a clone of it,
// and reports differing outcomes.
func run[T any, G interface {
	Clone() G
	Restore(G)
	String() string
}](part string, r *rand.Rand, g G, a gen.Assignment, f func(G, gen.Assignment, *prand.Rand) (T, error), detail func() string) (T, gen.Assignment, error) {
	R.Eval(1)
	R.Distinct(rep.Fnv(part, g.String(), a.String()))
	sd := r.Uint64()
	a1 := cloneAssignment(a)
	c := g.Clone()
	res, err := f(g, a1, prand.New(sd))
	for round := 0; round < 2; round++ {
		other := c
		if round == 1 {
			other = g
			if chance(r, 2) {
				_ = g.String()
			}
			if chance(r, 2) {
				g.Restore(c)
			}
		}
		a2 := cloneAssignment(a)
		again, err2 := f(other, a2, prand.New(sd))
		R.Add("repetitions", 1)
		if (err == nil) != (err2 == nil) || err == nil && (!reflect.DeepEqual(res, again) || !reflect.DeepEqual(a1, a2)) {
			unsound(part+":repeat", fmt.Sprintf("not reproduced from the same seed (%v vs %v): %s", err, err2, detail()))
			break
		}
	}
	return res, a1, err
}

// ---- ranges -------------------------------------------------------------

type integer interface {
	~int | ~int8 | ~int64 | ~uint16 | ~uint64
}

func rangeCase[T integer](r *rand.Rand, lo, hi T) {
	pick := func() T {
		switch r.Intn(4) {
		case 0:
			return lo + T(r.Intn(4))
		case 1:
			return hi - T(r.Intn(4))
		case 2:
			return lo + (hi-lo)/2 + T(r.Intn(4))
		}
		return T(r.Uint64())
	}
	min, max := lo, hi
	if chance(r, 2) {
		min, max = pick(), pick()
	}
	type iv struct{ lo, hi T }
	rs, is := gen.NewRangeSolver(min, max), gen.NewIntervalSolver(min, max)
	ivalid := min <= max
	rmin, rmax := min, max
	var allowed, excluded []iv
	allowed = append(allowed, iv{min, max})
	desc := fmt.Sprintf("%T [%v,%v]", min, min, max)
	for i := r.Intn(6); i > 0; i-- {
		x, y := pick(), pick()
		if chance(r, 3) {
			y = x + T(r.Intn(5))
		}
		switch r.Intn(4) {
		case 0:
			rs.AddLowerBoundary(x)
			is.AddLowerBoundary(x)
			if x > rmin {
				rmin = x
			}
			allowed = append(allowed, iv{x, hiOf[T]()})
			desc += fmt.Sprintf(" ≥%v", x)
		case 1:
			rs.AddUpperBoundary(x)
			is.AddUpperBoundary(x)
			if x < rmax {
				rmax = x
			}
			allowed = append(allowed, iv{loOf[T](), x})
			desc += fmt.Sprintf(" ≤%v", x)
		case 2:
			if chance(r, 3) {
				rs.AddEqualityConstraint(x)
				is.AddEqualityConstraint(x)
				if x > rmin {
					rmin = x
				}
				if x < rmax {
					rmax = x
				}
				allowed = append(allowed, iv{x, x})
				desc += fmt.Sprintf(" =%v", x)
			}
		case 3:
			is.Exclude(x, y)
			if x <= y {
				excluded = append(excluded, iv{x, y})
			}
			desc += fmt.Sprintf(" ∉[%v,%v]", x, y)
		}
	}
	in := func(v T) bool {
		for _, a := range allowed {
			if v < a.lo || v > a.hi {
				return false
			}
		}
		for _, e := range excluded {
			if e.lo <= v && v <= e.hi {
				return false
			}
		}
		return true
	}
	// The smallest solution, if any, is a lower boundary or next to an exclusion.
	possible := false
	for _, a := range allowed {
		possible = possible || in(a.lo)
	}
	for _, e := range excluded {
		possible = possible || e.hi != hiOf[T]() && in(e.hi+1)
	}
	R.Eval(1)
	R.Distinct(rep.Fnv(desc))
	rnd := prand.New(r.Uint64())
	want := func(b bool) verdict {
		if b {
			return sat
		}
		return unsat
	}
	d := func() string { return desc }
	for i := 0; i < 6; i++ {
		c := rs
		if chance(r, 2) {
			c = rs.Clone()
		}
		v, err := c.Generate(rnd)
		judgeErr("range", err, want(rmin <= rmax), d)
		if err == nil && (v < rmin || v > rmax) {
			unsound("range:value", fmt.Sprintf("%v outside [%v,%v]: %s", v, rmin, rmax, desc))
		}
	}
	if rs.IsSatisfiable() != (rmin <= rmax) {
		incomplete("range:answer", desc)
	}
	if !ivalid {
		return
	}
	for i := 0; i < 6; i++ {
		c := is
		if chance(r, 2) {
			c = is.Clone()
		}
		v, err := c.Generate(rnd)
		judgeErr("interval", err, want(possible), d)
		if err == nil && !in(v) {
			unsound("interval:value", fmt.Sprintf("%v does not satisfy %s", v, desc))
		}
	}
	if is.IsSatisfiable() != possible {
		incomplete("interval:answer", desc)
	}
}

func loOf[T integer]() T {
	var x T
	x--
	if x > 0 {
		return 0
	}
	lo := T(1)
	for lo<<1 > 0 {
		lo <<= 1
	}
	return lo << 1
}
func hiOf[T integer]() T { return loOf[T]() - 1 }

// ---- code ---------------------------------------------------------------

type codeCon struct {
	kind int // 0 op at position, 1 op at variable, 2 code at variable, 3 data at variable
	pos  int
	v    gen.Variable
	op   vm.OpCode
}

func (c codeCon) String() string {
	switch c.kind {
	case 0:
		return fmt.Sprintf("op[%d]=%v", c.pos, c.op)
	case 1:
		return fmt.Sprintf("op[%v]=%v", c.v, c.op)
	case 2:
		return fmt.Sprintf("code[%v]", c.v)
	}
	return fmt.Sprintf("data[%v]", c.v)
}

func randOp(r *rand.Rand) vm.OpCode {
	switch r.Intn(4) {
	case 0:
		return vm.PUSH1 + vm.OpCode(r.Intn(32))
	case 1:
		return []vm.OpCode{vm.STOP, vm.JUMPDEST, vm.PUSH0, vm.DUP1, vm.PUSH32, vm.PUSH1, vm.INVALID}[r.Intn(7)]
	}
	return vm.OpCode(r.Intn(256))
}

func width(op vm.OpCode) int {
	if 0x60 <= op && op <= 0x7f {
		return int(op) - 0x5e
	}
	return 1
}

// opsSat decides whether operations can be placed at fixed positions.
func opsSat(ops map[int]map[vm.OpCode]bool) bool {
	var ps []int
	for p, x := range ops {
		if p < 0 || p >= st.MaxCodeSize || len(x) > 1 {
			return false
		}
		ps = append(ps, p)
	}
	sort.Ints(ps)
	end := 0
	for _, p := range ps {
		if p < end {
			return false
		}
		for op := range ops[p] {
			end = p + width(op)
		}
	}
	return true
}

func codeDecide(cons []codeCon, a gen.Assignment) verdict {
	ops := map[int]map[vm.OpCode]bool{}
	owner := map[int]map[gen.Variable]bool{}
	need := map[gen.Variable]int{} // unbound: 1 code, 2 data
	varOps := map[gen.Variable]map[vm.OpCode]bool{}
	posVars := map[gen.Variable]bool{}
	var code, data []int
	bad := false
	put := func(p int, op vm.OpCode, v gen.Variable) {
		if ops[p] == nil {
			ops[p] = map[vm.OpCode]bool{}
			owner[p] = map[gen.Variable]bool{}
		}
		ops[p][op] = true
		owner[p][v] = true
	}
	for _, c := range cons {
		pos, bound := a[c.v]
		if c.kind == 0 {
			put(c.pos, c.op, "")
			continue
		}
		if c.kind != 1 {
			posVars[c.v] = true
		}
		if !bound {
			posVars[c.v] = true
			if c.kind == 1 {
				if varOps[c.v] == nil {
					varOps[c.v] = map[vm.OpCode]bool{}
				}
				varOps[c.v][c.op] = true
				need[c.v] |= 1
			} else {
				need[c.v] |= c.kind - 1
			}
			continue
		}
		far := !pos.IsUint64() || pos.Uint64() >= st.MaxCodeSize
		switch c.kind {
		case 1:
			if far {
				bad = true
			} else {
				put(int(pos.Uint64()), c.op, c.v)
			}
		case 2:
			if !far {
				code = append(code, int(pos.Uint64()))
			}
		case 3:
			if far {
				bad = true
			} else {
				data = append(data, int(pos.Uint64()))
			}
		}
	}
	for _, o := range varOps {
		if len(o) > 1 {
			bad = true
		}
	}
	for _, n := range need {
		if n == 3 {
			bad = true
		}
	}
	if bad || !opsSat(ops) {
		return unsat
	}
	for _, o := range owner { // two variables for one position count as conflict
		if len(o) > 1 {
			return unknown
		}
	}
	used := map[int]int{}
	for p, x := range ops {
		if p > 20000 && len(posVars) > 0 {
			return unknown // the code may have no room left
		}
		for op := range x {
			used[p] = 1
			for i := 1; i < width(op); i++ {
				used[p+i] = 2
			}
		}
	}
	for _, p := range code {
		if used[p] == 2 {
			return unsat
		}
	}
	for _, p := range data {
		for _, q := range code {
			if p == q {
				return unsat
			}
		}
		if used[p] == 1 || used[p] == 0 && (p == 0 || used[p-1] != 0) {
			// Data directly after the data of another instruction would have to
			// be part of it; data directly after an operation needs a wider one.
			return unsat
		}
		if p > 20000 {
			return unknown
		}
	}
	if len(posVars) > 1 {
		return unknown
	}
	return sat
}

func codeCase(r *rand.Rand) {
	g := gen.NewCodeGenerator()
	a := gen.Assignment{}
	base := []int{0, 0, 3, 100, 24500}[r.Intn(5)]
	spread := []int{3, 12, 60, 76}[r.Intn(4)]
	pos := func() int { return base + r.Intn(spread) }
	nv := 1 + r.Intn(3)
	for i := 0; i < nv; i++ {
		if chance(r, 2) {
			x := ct.NewU256(uint64(pos()))
			switch r.Intn(20) {
			case 0:
				x = ct.NewU256(st.MaxCodeSize - 1 + uint64(r.Intn(3)))
			case 1:
				x = ct.NewU256(1, uint64(pos()))
			case 2:
				x = ct.NewU256(1<<32 + uint64(pos()))
			}
			a[variable(r, nv)] = x
		}
	}
	var cons []codeCon
	for i := r.Intn(5); i >= 0; i-- {
		c := codeCon{kind: r.Intn(4), v: variable(r, nv), op: randOp(r)}
		if c.kind == 0 {
			c.pos = pos()
			if chance(r, 60) {
				c.pos = -1
			}
		}
		if len(cons) > 0 && chance(r, 6) {
			c = cons[r.Intn(len(cons))]
		}
		cons = append(cons, c)
	}
	for _, c := range cons {
		switch c.kind {
		case 0:
			g.SetOperation(c.pos, c.op)
		case 1:
			g.AddOperation(c.v, c.op)
		case 2:
			g.AddIsCode(c.v)
		case 3:
			g.AddIsData(c.v)
		}
		if chance(r, 10) {
			g = g.Clone()
		}
	}
	detail := func() string { return fmt.Sprint(cons, " with ", a) }
	code, after, err := run("code", r, g, a, func(g *gen.CodeGenerator, a gen.Assignment, p *prand.Rand) ([]byte, error) {
		c, err := g.Generate(a, p)
		if err != nil {
			return nil, err
		}
		return c.Copy(), nil
	}, detail)
	judgeErr("code", err, codeDecide(cons, a), detail)
	if err != nil {
		return
	}
	var used []gen.Variable
	for _, c := range cons {
		if c.kind != 0 {
			used = append(used, c.v)
		}
	}
	checkBindings("code", a, after, used, detail)
	if why := codeHolds(cons, after, code); why != "" {
		unsound("code:violated", why+" in "+detail()+fmt.Sprintf(", bound %v, code %x", after, code))
	}
}

func codeHolds(cons []codeCon, a gen.Assignment, code []byte) string {
	if len(code) > st.MaxCodeSize {
		return "too long"
	}
	isCode := make([]bool, len(code))
	for i := 0; i < len(code); i += width(vm.OpCode(code[i])) {
		isCode[i] = true
	}
	for _, c := range cons {
		p := uint64(c.pos)
		if c.kind != 0 {
			p = math.MaxUint64
			if x := a[c.v]; x.IsUint64() {
				p = x.Uint64()
			}
		}
		inside := p < uint64(len(code))
		switch c.kind {
		case 0, 1:
			if !inside || !isCode[p] || code[p] != byte(c.op) {
				return c.String()
			}
		case 2:
			if inside && !isCode[p] {
				return c.String()
			}
		case 3:
			if !inside || isCode[p] {
				return c.String()
			}
		}
	}
	return ""
}

// ---- stack --------------------------------------------------------------

type stackCon struct {
	kind  int // 0 min, 1 max, 2 size, 3 value, 4 variable
	n     int
	v     gen.Variable
	value ct.U256
}

func (c stackCon) String() string {
	switch c.kind {
	case 0:
		return fmt.Sprintf("size≥%d", c.n)
	case 1:
		return fmt.Sprintf("size≤%d", c.n)
	case 2:
		return fmt.Sprintf("size=%d", c.n)
	case 3:
		return fmt.Sprintf("value[%d]=%v", c.n, c.value)
	}
	return fmt.Sprintf("value[%d]=%v", c.n, c.v)
}

func stackCase(r *rand.Rand) {
	g := gen.NewStackGenerator()
	a := gen.Assignment{}
	nv := 1 + r.Intn(4)
	for i := 0; i < nv; i++ {
		a[variable(r, 6)] = small(r)
	}
	size := func() int {
		switch r.Intn(5) {
		case 0:
			return 1024 - r.Intn(3)
		case 1:
			return r.Intn(3) - 1
		case 2:
			return 1024 + r.Intn(3)
		}
		return r.Intn(30)
	}
	var cons []stackCon
	for i := r.Intn(7); i > 0; i-- {
		c := stackCon{kind: r.Intn(5), n: size(), v: variable(r, 4), value: small(r)}
		if c.kind >= 3 {
			c.n = r.Intn(6)
			if chance(r, 20) {
				c.n = size()
			}
		}
		cons = append(cons, c)
	}
	lo, hi := 0, 1024
	values := map[int]ct.U256{}
	want, unbound := sat, false
	for _, c := range cons {
		switch c.kind {
		case 0:
			g.AddMinSize(c.n)
			lo = max(lo, c.n)
		case 1:
			g.AddMaxSize(c.n)
			hi = min(hi, c.n)
		case 2:
			g.SetSize(c.n)
			lo, hi = max(lo, c.n), min(hi, c.n)
		default:
			x := c.value
			if c.kind == 3 {
				g.SetValue(c.n, x)
			} else {
				g.BindValue(c.n, c.v)
				y, found := a[c.v]
				unbound = unbound || !found
				x = y
			}
			if y, found := values[c.n]; c.n < 0 || found && y != x {
				want = unsat
			}
			values[c.n] = x
			lo = max(lo, c.n+1)
		}
		if chance(r, 10) {
			g = g.Clone()
		}
	}
	if lo > hi {
		want = unsat
	}
	detail := func() string { return fmt.Sprint(cons, " with ", a) }
	vals, after, err := run("stack", r, g, a, func(g *gen.StackGenerator, a gen.Assignment, p *prand.Rand) ([]ct.U256, error) {
		s, err := g.Generate(a, p)
		if err != nil {
			return nil, err
		}
		return stackValues(s), nil
	}, detail)
	if unbound {
		R.Add("unbound_variables", 1)
		if err == nil {
			unsound("stack:unbound", detail())
		}
		return
	}
	judgeErr("stack", err, want, detail)
	if err != nil {
		return
	}
	checkBindings("stack", a, after, nil, detail)
	if len(vals) < lo || len(vals) > hi {
		unsound("stack:size", fmt.Sprintf("size %d: %s", len(vals), detail()))
	}
	for p, x := range values {
		if p < 0 || p >= len(vals) || vals[p] != x {
			unsound("stack:value", fmt.Sprintf("position %d is not %v: %s", p, x, detail()))
		}
	}
}

func stackValues(s *st.Stack) []ct.U256 {
	res := make([]ct.U256, s.Size())
	for i := range res {
		res[i] = s.Get(i)
	}
	return res
}

// ---- storage ------------------------------------------------------------

type storeCon struct {
	kind   int // 0 configuration, 1 warm, 2 cold
	status tosca.StorageStatus
	k, v   gen.Variable
}

func (c storeCon) String() string {
	switch c.kind {
	case 0:
		return fmt.Sprintf("%v(%v,%v)", c.status, c.k, c.v)
	case 1:
		return fmt.Sprintf("warm(%v)", c.k)
	}
	return fmt.Sprintf("cold(%v)", c.k)
}

// storeStatus names the effect of writing n to a slot of value c that had the
// value o at the start of the transaction.
func storeStatus(o, c, n ct.U256) tosca.StorageStatus {
	z := ct.NewU256(0)
	switch {
	case o == z && c == z && n != z:
		return tosca.StorageAdded
	case o != z && c == o && n == z:
		return tosca.StorageDeleted
	case o != z && c == o && n != z && n != o:
		return tosca.StorageModified
	case o != z && c == z && n != z && n != o:
		return tosca.StorageDeletedAdded
	case o != z && c != z && c != o && n == z:
		return tosca.StorageModifiedDeleted
	case o != z && c == z && n == o:
		return tosca.StorageDeletedRestored
	case o == z && c != z && n == z:
		return tosca.StorageAddedDeleted
	case o != z && c != z && c != o && n == o:
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}

var statuses = []tosca.StorageStatus{tosca.StorageAssigned, tosca.StorageAdded, tosca.StorageDeleted, tosca.StorageModified,
	tosca.StorageDeletedAdded, tosca.StorageModifiedDeleted, tosca.StorageDeletedRestored, tosca.StorageAddedDeleted, tosca.StorageModifiedRestored}

func clears(s tosca.StorageStatus) bool {
	return s == tosca.StorageDeleted || s == tosca.StorageModifiedDeleted || s == tosca.StorageAddedDeleted
}

func storageCase(r *rand.Rand) {
	g := gen.NewStorageGenerator()
	a := gen.Assignment{}
	for i := r.Intn(4); i > 0; i-- {
		a[variable(r, 3)] = small(r)
	}
	for i := r.Intn(3); i > 0; i-- {
		a["n"+variable(r, 3)] = small(r)
	}
	var cons []storeCon
	for i := r.Intn(6); i > 0; i-- {
		c := storeCon{kind: r.Intn(3), status: statuses[r.Intn(len(statuses))], k: variable(r, 3), v: "n" + variable(r, 3)}
		if len(cons) > 0 && chance(r, 6) {
			c = cons[r.Intn(len(cons))]
		}
		cons = append(cons, c)
		switch c.kind {
		case 0:
			g.BindConfiguration(c.status, c.k, c.v)
		case 1:
			g.BindWarm(c.k)
		case 2:
			g.BindCold(c.k)
		}
		if chance(r, 10) {
			g = g.Clone()
		}
	}
	want := storageDecide(cons, a)
	detail := func() string { return fmt.Sprint(cons, " with ", a) }
	s, after, err := run("storage", r, g, a, func(g *gen.StorageGenerator, a gen.Assignment, p *prand.Rand) (*st.Storage, error) {
		return g.Generate(a, p)
	}, detail)
	judgeErr("storage", err, want, detail)
	if err != nil {
		return
	}
	var used []gen.Variable
	for _, c := range cons {
		used = append(used, c.k)
		if c.kind == 0 {
			used = append(used, c.v)
		}
	}
	checkBindings("storage", a, after, used, detail)
	if why := storageHolds(cons, after, s); why != "" {
		unsound("storage:violated", why+" in "+detail())
	}
}

func storageDecide(cons []storeCon, a gen.Assignment) verdict {
	name := func(v gen.Variable) string {
		if x, found := a[v]; found {
			return x.String()
		}
		return string(v)
	}
	cfg := map[string]storeCon{}
	warm := map[string]int{}
	news := map[gen.Variable]int{}
	doubt := false
	for _, c := range cons {
		k := name(c.k)
		if c.kind > 0 {
			warm[k] |= c.kind
			if warm[k] == 3 {
				return unsat
			}
			continue
		}
		if x, found := a[c.v]; found {
			if c.status == tosca.StorageAssigned && x.IsZero() {
				doubt = true
			} else if x.IsZero() != clears(c.status) {
				return unsat
			}
		}
		if clears(c.status) {
			news[c.v] |= 1
		} else {
			news[c.v] |= 2
			doubt = doubt || c.status == tosca.StorageAssigned
		}
		if news[c.v] == 3 {
			if doubt {
				return unknown
			}
			return unsat
		}
		if o, found := cfg[k]; found && o != c {
			if o.v == c.v && o.status != c.status {
				return unsat
			}
			doubt = true
		}
		cfg[k] = c
	}
	if doubt {
		for _, c := range cons {
			if x, found := a[c.v]; c.kind == 0 && c.status == tosca.StorageAssigned && (!found || !x.IsZero()) && len(cfg) == 1 && len(cons) == 1 {
				return sat
			}
		}
		return unknown
	}
	return sat
}

func storageHolds(cons []storeCon, a gen.Assignment, s *st.Storage) string {
	for _, c := range cons {
		k := a[c.k]
		switch c.kind {
		case 0:
			if storeStatus(s.GetOriginal(k), s.GetCurrent(k), a[c.v]) != c.status {
				return fmt.Sprintf("%v: %v -> %v -> %v", c, s.GetOriginal(k), s.GetCurrent(k), a[c.v])
			}
		default:
			if s.IsWarm(k) != (c.kind == 1) {
				return c.String()
			}
		}
	}
	return ""
}

// ---- transient storage ---------------------------------------------------

func transientCase(r *rand.Rand) {
	g := gen.NewTransientStorageGenerator()
	a := gen.Assignment{}
	for i := r.Intn(4); i > 0; i-- {
		a[variable(r, 5)] = small(r)
	}
	want := sat
	zero := map[string]bool{}
	vars := map[gen.Variable]bool{}
	desc := ""
	for i := r.Intn(6); i > 0; i-- {
		v, z := variable(r, 5), chance(r, 2)
		if z {
			g.BindToZero(v)
		} else {
			g.BindToNonZero(v)
		}
		desc += fmt.Sprintf("zero(%v)=%v ", v, z)
		n := string(v)
		if x, found := a[v]; found {
			n = x.String()
		}
		if y, found := zero[n]; found && y != z {
			want = unsat
		}
		zero[n] = z
		vars[v] = z
		if chance(r, 10) {
			g = g.Clone()
		}
	}
	detail := func() string { return desc + "with " + a.String() }
	s, after, err := run("transient", r, g, a, func(g *gen.TransientStorageGenerator, a gen.Assignment, p *prand.Rand) (*st.TransientStorage, error) {
		return g.Generate(a, p)
	}, detail)
	judgeErr("transient", err, want, detail)
	if err != nil {
		return
	}
	var used []gen.Variable
	for v, z := range vars {
		used = append(used, v)
		if s.Get(after[v]).IsZero() != z {
			unsound("transient:violated", fmt.Sprintf("%v: %s", v, detail()))
		}
	}
	checkBindings("transient", a, after, used, detail)
}

// ---- accounts -----------------------------------------------------------

type acctCon struct {
	kind int // 0 empty, 1 not empty, 2 min, 3 max, 4 warm, 5 cold
	v    gen.Variable
	x    ct.U256
}

func (c acctCon) String() string {
	return fmt.Sprintf("%s(%v,%v)", []string{"empty", "nonempty", "min", "max", "warm", "cold"}[c.kind], c.v, c.x)
}

func balanceValue(r *rand.Rand) ct.U256 {
	switch r.Intn(3) {
	case 0:
		return ct.NewU256(uint64(r.Intn(4)))
	case 1:
		return ct.MaxU256().Sub(ct.NewU256(uint64(r.Intn(3))))
	}
	return small(r)
}

func acctApply(g interface {
	BindToAddressOfEmptyAccount(gen.Variable)
	BindToAddressOfNonEmptyAccount(gen.Variable)
	AddBalanceLowerBound(gen.Variable, ct.U256)
	AddBalanceUpperBound(gen.Variable, ct.U256)
}, warm, cold func(gen.Variable), c acctCon) {
	switch c.kind {
	case 0:
		g.BindToAddressOfEmptyAccount(c.v)
	case 1:
		g.BindToAddressOfNonEmptyAccount(c.v)
	case 2:
		g.AddBalanceLowerBound(c.v, c.x)
	case 3:
		g.AddBalanceUpperBound(c.v, c.x)
	case 4:
		warm(c.v)
	case 5:
		cold(c.v)
	}
}

func acctDecide(cons []acctCon, a gen.Assignment) verdict {
	type need struct {
		flags  int
		lo, hi ct.U256
	}
	needs := map[string]*need{}
	for _, c := range cons {
		n := string(c.v)
		if x, found := a[c.v]; found {
			n = fmt.Sprint(ct.NewAddress(x))
		}
		d := needs[n]
		if d == nil {
			d = &need{hi: ct.MaxU256()}
			needs[n] = d
		}
		switch c.kind {
		case 2:
			if bOf(c.x).Cmp(bOf(d.lo)) > 0 {
				d.lo = c.x
			}
		case 3:
			if bOf(c.x).Cmp(bOf(d.hi)) < 0 {
				d.hi = c.x
			}
		default:
			d.flags |= 1 << c.kind
		}
		if c.kind == 0 {
			d.hi = ct.NewU256(0)
		}
	}
	for _, d := range needs {
		if d.flags&3 == 3 || d.flags&48 == 48 || bOf(d.lo).Cmp(bOf(d.hi)) > 0 {
			return unsat
		}
	}
	return sat
}

func acctHolds(cons []acctCon, a gen.Assignment, s *st.Accounts) string {
	for _, c := range cons {
		x := ct.NewAddress(a[c.v])
		b := bOf(s.GetBalance(x))
		empty := b.Sign() == 0 && s.GetCode(x).Length() == 0
		ok := true
		switch c.kind {
		case 0:
			ok = empty
		case 1:
			ok = !empty
		case 2:
			ok = b.Cmp(bOf(c.x)) >= 0
		case 3:
			ok = b.Cmp(bOf(c.x)) <= 0
		case 4:
			ok = s.IsWarm(x)
		case 5:
			ok = !s.IsWarm(x)
		}
		if !ok {
			return fmt.Sprintf("%v for address %v", c, x)
		}
	}
	return ""
}

func accountsCase(r *rand.Rand) {
	g := gen.NewAccountGenerator()
	a := gen.Assignment{}
	self := addr(r)
	for i := r.Intn(4); i > 0; i-- {
		x := small(r)
		if chance(r, 3) {
			x = ct.AddressToU256(self)
		}
		if chance(r, 6) {
			x = x.Add(ct.NewU256(1<<40, 0, 0))
		}
		a[variable(r, 4)] = x
	}
	var cons []acctCon
	for i := r.Intn(6); i > 0; i-- {
		c := acctCon{r.Intn(6), variable(r, 4), balanceValue(r)}
		cons = append(cons, c)
		acctApply(g, g.BindWarm, g.BindCold, c)
		if chance(r, 10) {
			g = g.Clone()
		}
	}
	detail := func() string { return fmt.Sprint(cons, " with ", a, " self ", self) }
	s, after, err := run("accounts", r, g, a, func(g *gen.AccountsGenerator, a gen.Assignment, p *prand.Rand) (*st.Accounts, error) {
		return g.Generate(a, p, self)
	}, detail)
	judgeErr("accounts", err, acctDecide(cons, a), detail)
	if err != nil {
		return
	}
	var used []gen.Variable
	for _, c := range cons {
		used = append(used, c.v)
	}
	checkBindings("accounts", a, after, used, detail)
	if why := acctHolds(cons, after, s); why != "" {
		unsound("accounts:violated", why+" in "+detail())
	}
}

// ---- block context ------------------------------------------------------

type blockCon struct {
	kind   int // 0 revisions, 1 recent, 2 not recent, 3 offset
	lo, hi tosca.Revision
	v      gen.Variable
	offset int64
}

func (c blockCon) String() string {
	switch c.kind {
	case 0:
		return fmt.Sprintf("revision[%v-%v]", c.lo, c.hi)
	case 1:
		return fmt.Sprintf("recent(%v)", c.v)
	case 2:
		return fmt.Sprintf("!recent(%v)", c.v)
	}
	return fmt.Sprintf("%v=block-(%d)", c.v, c.offset)
}

var revs = []tosca.Revision{0, 1, 2, 3, 4, 5, ct.R99_UnknownNextRevision}

func firstBlock(r tosca.Revision) uint64 {
	if r > 5 {
		return 6000
	}
	return uint64(r) * 1000
}
func lastBlock(r tosca.Revision) uint64 {
	if r > 5 {
		return math.MaxUint64
	}
	return uint64(r)*1000 + 999
}

func recent(v ct.U256, b uint64) bool {
	if !v.IsUint64() {
		return false
	}
	x := v.Uint64()
	return x < b && b-x <= 256
}

// blockHolds tells whether constraints can hold (bind == nil) or hold for block b.
func blockHolds(cons []blockCon, a gen.Assignment, b uint64) string {
	val := gen.Assignment{}
	for k, v := range a {
		val[k] = v
	}
	for _, c := range cons {
		if c.kind != 3 {
			continue
		}
		// exact arithmetic: the value plus the offset is the block number
		bb, off := bOf(ct.NewU256(b)), ct.NewU256(0)
		neg := c.offset < 0
		mag := uint64(c.offset)
		if neg {
			mag = -mag
		}
		off = ct.NewU256(mag)
		if neg {
			bb.Add(bb, bOf(off))
		} else {
			bb.Sub(bb, bOf(off))
		}
		if bb.Sign() < 0 {
			return c.String()
		}
		x := ct.NewU256FromBigInt(bb)
		if y, found := val[c.v]; found && y != x {
			return c.String()
		}
		val[c.v] = x
	}
	for _, c := range cons {
		switch c.kind {
		case 0:
			if b < firstBlock(c.lo) || b > lastBlock(c.hi) {
				return c.String()
			}
		case 1:
			if v, found := val[c.v]; !found && b == 0 || found && !recent(v, b) {
				return c.String()
			}
		case 2:
			if v, found := val[c.v]; found && recent(v, b) {
				return c.String()
			}
		}
	}
	return ""
}

func blockDecide(cons []blockCon, a gen.Assignment) verdict {
	rng := map[gen.Variable]int{}
	for _, c := range cons {
		if c.kind == 1 || c.kind == 2 {
			rng[c.v] |= c.kind
		}
		if rng[c.v] == 3 {
			return unsat
		}
	}
	cand := []uint64{0, 1, 255, 256, 257, math.MaxUint64, 1 << 63}
	for _, r := range revs {
		cand = append(cand, firstBlock(r), lastBlock(r))
	}
	for _, c := range cons {
		if c.kind == 3 {
			cand = append(cand, uint64(c.offset), -uint64(c.offset))
		}
		if v, found := a[c.v]; found {
			x := v.Uint64()
			cand = append(cand, x, x+1, x+256, x+257, x+uint64(c.offset))
		}
	}
	for _, x := range cand {
		for d := uint64(0); d < 5; d++ {
			if blockHolds(cons, a, x+d-2) == "" {
				return sat
			}
		}
	}
	return unsat
}

func blockNumberValue(r *rand.Rand) ct.U256 {
	switch r.Intn(6) {
	case 0:
		return ct.NewU256(uint64(r.Intn(3)))
	case 1:
		return ct.NewU256(math.MaxUint64 - uint64(r.Intn(300)))
	case 2:
		return ct.NewU256(uint64(r.Intn(2)), uint64(r.Intn(3)))
	case 3:
		return ct.NewU256(uint64(r.Intn(7)*1000 + r.Intn(5) - 2 + []int{0, 256, -256}[r.Intn(3)]))
	}
	return ct.NewU256(uint64(r.Intn(7000)))
}

func offset(r *rand.Rand) int64 {
	offs := []int64{math.MinInt64, -1, 0, 1, 2, 255, 256, 257, 300, 999, 1000, 6500, math.MaxInt64, -256, -1000}
	return offs[r.Intn(len(offs))]
}

func randBlockCon(r *rand.Rand, v gen.Variable) blockCon {
	c := blockCon{kind: r.Intn(4), v: v, offset: offset(r)}
	i := r.Intn(len(revs))
	j := i + r.Intn(len(revs)-i)
	if chance(r, 2) {
		j = i
	}
	c.lo, c.hi = revs[i], revs[j]
	return c
}

type blockSetter interface {
	SetRevision(tosca.Revision)
	AddRevisionBounds(a, b tosca.Revision)
	RestrictVariableToOneOfTheLast256Blocks(gen.Variable)
	RestrictVariableToNoneOfTheLast256Blocks(gen.Variable)
	SetBlockNumberOffsetValue(gen.Variable, int64)
}

func blockApply(g blockSetter, c blockCon) {
	switch c.kind {
	case 0:
		if c.lo == c.hi {
			g.SetRevision(c.lo)
		} else {
			g.AddRevisionBounds(c.lo, c.hi)
		}
	case 1:
		g.RestrictVariableToOneOfTheLast256Blocks(c.v)
	case 2:
		g.RestrictVariableToNoneOfTheLast256Blocks(c.v)
	case 3:
		g.SetBlockNumberOffsetValue(c.v, c.offset)
	}
}

func blockCase(r *rand.Rand) {
	g := gen.NewBlockContextGenerator()
	a := gen.Assignment{}
	for i := r.Intn(3); i > 0; i-- {
		a[variable(r, 3)] = blockNumberValue(r)
	}
	var cons []blockCon
	for i := r.Intn(5); i > 0; i-- {
		c := randBlockCon(r, variable(r, 3))
		cons = append(cons, c)
		blockApply(g, c)
		if chance(r, 10) {
			g = g.Clone()
		}
	}
	detail := func() string { return fmt.Sprint(cons, " with ", a) }
	s, after, err := run("block", r, g, a, func(g *gen.BlockContextGenerator, a gen.Assignment, p *prand.Rand) (st.BlockContext, error) {
		return g.Generate(a, p)
	}, detail)
	judgeErr("block", err, blockDecide(cons, a), detail)
	if err != nil {
		return
	}
	var used []gen.Variable
	for _, c := range cons {
		if c.kind > 0 {
			used = append(used, c.v)
		}
	}
	checkBindings("block", a, after, used, detail)
	if why := blockHolds(cons, after, s.BlockNumber); why != "" {
		unsound("block:violated", fmt.Sprintf("%s for block %d, bound %v: %s", why, s.BlockNumber, after, detail()))
	}
	rev := s.BlockNumber / 1000
	if rev <= 5 && s.TimeStamp/1000 != rev || rev > 5 && s.TimeStamp < 6000 {
		unsound("block:time", fmt.Sprintf("block %d at time %d", s.BlockNumber, s.TimeStamp))
	}
}

// ---- transaction context ------------------------------------------------

type blobCon struct {
	present bool
	v       gen.Variable
}

func blobDecide(cons []blobCon, a gen.Assignment) verdict {
	lo, hi := uint64(0), uint64(math.MaxUint64)
	kinds := map[gen.Variable]int{}
	huge := false // more blob hashes than can be expected
	for _, c := range cons {
		if c.present {
			kinds[c.v] |= 1
		} else {
			kinds[c.v] |= 2
		}
		if kinds[c.v] == 3 {
			return unsat
		}
		x, bound := a[c.v]
		switch {
		case c.present && bound:
			if !x.IsUint64() || x.Uint64() == math.MaxUint64 {
				return unsat
			}
			huge = huge || x.Uint64() > 1000
			lo = max(lo, x.Uint64()+1)
		case c.present:
			lo = max(lo, 1)
		case bound && x.IsUint64():
			hi = min(hi, x.Uint64())
		}
	}
	if lo > hi {
		return unsat
	}
	if huge {
		return unknown
	}
	return sat
}

func transactionCase(r *rand.Rand) {
	g := gen.NewTransactionContextGenerator()
	a := gen.Assignment{}
	for i := r.Intn(4); i > 0; i-- {
		x := ct.NewU256(uint64(r.Intn(5)))
		if chance(r, 8) {
			x = ct.NewU256(1, uint64(r.Intn(2)))
		} else if chance(r, 20) {
			x = ct.NewU256([]uint64{1 << 40, math.MaxUint64, math.MaxInt64, 1 << 63}[r.Intn(4)])
		}
		a[variable(r, 4)] = x
	}
	var cons []blobCon
	for i := r.Intn(5); i > 0; i-- {
		c := blobCon{chance(r, 2), variable(r, 4)}
		cons = append(cons, c)
		if c.present {
			g.IsPresentBlobHashIndex(c.v)
		} else {
			g.IsAbsentBlobHashIndex(c.v)
		}
		if chance(r, 10) {
			g = g.Clone()
		}
	}
	detail := func() string { return fmt.Sprint(cons, " with ", a) }
	s, after, err := run("transaction", r, g, a, func(g *gen.TransactionContextGenerator, a gen.Assignment, p *prand.Rand) (*st.TransactionContext, error) {
		return g.Generate(a, p)
	}, detail)
	judgeErr("transaction", err, blobDecide(cons, a), detail)
	if err != nil {
		return
	}
	var used []gen.Variable
	for _, c := range cons {
		used = append(used, c.v)
		x := after[c.v]
		if (x.IsUint64() && x.Uint64() < uint64(len(s.BlobHashes))) != c.present {
			unsound("transaction:violated", fmt.Sprintf("%v with %d hashes: %s", c, len(s.BlobHashes), detail()))
		}
	}
	checkBindings("transaction", a, after, used, detail)
}

func selfDestructCase(r *rand.Rand) {
	g := gen.NewSelfDestructedGenerator()
	yes, no := chance(r, 2), chance(r, 2)
	if yes {
		g.MarkAsSelfDestructed()
	}
	if no {
		g.MarkAsNotSelfDestructed()
	}
	detail := func() string { return fmt.Sprint(yes, no) }
	b, _, err := run("selfdestruct", r, g, nil, func(g *gen.SelfDestructedGenerator, _ gen.Assignment, p *prand.Rand) (bool, error) {
		return g.Generate(p)
	}, detail)
	want := sat
	if yes && no {
		want = unsat
	}
	judgeErr("selfdestruct", err, want, detail)
	if err == nil && (yes && !b || no && b) {
		unsound("selfdestruct:violated", detail())
	}
}

// ---- whole states -------------------------------------------------------

// stateCase combines constraints on all parts. Every variable is also bound to a
// stack position, which shows its value in the generated state.
func stateCase(r *rand.Rand) {
	g := gen.NewStateGenerator()
	var desc []string
	var checks []func(*st.State) string
	want := sat
	note := func(f string, args ...any) { desc = append(desc, fmt.Sprintf(f, args...)) }
	check := func(f func(*st.State) bool) {
		d := desc[len(desc)-1]
		checks = append(checks, func(s *st.State) string {
			if f(s) {
				return ""
			}
			return d
		})
	}
	contradict := func(b bool) {
		if b {
			want = unsat
		}
	}
	steps := []func(){}
	add := func(f func()) { steps = append(steps, f) }
	doubt := false // variables are shared among parts: contradictions are not decided

	// scalars
	if chance(r, 3) {
		xs := map[st.StatusCode]bool{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			x := st.StatusCode(r.Intn(int(st.NumStatusCodes)))
			if chance(r, 30) {
				x = st.NumStatusCodes
				contradict(true)
			}
			xs[x] = true
			note("status=%v", x)
			check(func(s *st.State) bool { return s.Status == x })
			add(func() { g.SetStatus(x) })
		}
		contradict(len(xs) > 1)
	}
	if chance(r, 3) {
		xs := map[bool]bool{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			x := chance(r, 2)
			xs[x] = true
			note("readOnly=%v", x)
			check(func(s *st.State) bool { return s.ReadOnly == x })
			add(func() { g.SetReadOnly(x) })
		}
		contradict(len(xs) > 1)
	}
	scalar := func(name string, lo, hi int64, get func(*st.State) int64, lower, upper, equal func(tosca.Gas)) {
		l, h := lo, hi
		base := lo + r.Int63n(hi-lo)
		for i := r.Intn(4); i > 0; i-- {
			x := base + int64(r.Intn(7)) - 3
			if chance(r, 5) {
				x = []int64{lo, hi, lo - 1, hi + 1}[r.Intn(4)]
			}
			k := r.Intn(3)
			note("%s %s %d", name, []string{"≥", "≤", "="}[k], x)
			check(func(s *st.State) bool {
				y := get(s)
				return k == 0 && y >= x || k == 1 && y <= x || k == 2 && y == x
			})
			add(func() { []func(tosca.Gas){lower, upper, equal}[k](tosca.Gas(x)) })
			if k != 1 {
				l = max(l, x)
			}
			if k != 0 {
				h = min(h, x)
			}
		}
		contradict(l > h)
	}
	if chance(r, 3) {
		scalar("gas", 0, int64(st.MaxGasUsedByCt), func(s *st.State) int64 { return int64(s.Gas) }, func(x tosca.Gas) { g.AddGasLowerBound(x) }, func(x tosca.Gas) { g.AddGasUpperBound(x) }, func(x tosca.Gas) { g.SetGas(x) })
	}
	if chance(r, 3) {
		scalar("refund", -int64(st.MaxGasUsedByCt), int64(st.MaxGasUsedByCt), func(s *st.State) int64 { return int64(s.GasRefund) }, func(x tosca.Gas) { g.AddGasRefundLowerBound(x) }, func(x tosca.Gas) { g.AddGasRefundUpperBound(x) }, func(x tosca.Gas) { g.SetGasRefund(x) })
	}
	if chance(r, 4) {
		yes, no := chance(r, 2), chance(r, 2)
		note("destructed=%v not=%v", yes, no)
		check(func(s *st.State) bool { return !(yes && !s.HasSelfDestructed || no && s.HasSelfDestructed) })
		if yes {
			add(func() { g.MustBeSelfDestructed() })
		}
		if no {
			add(func() { g.MustNotBeSelfDestructed() })
		}
		contradict(yes && no)
	}

	// variables: each has its stack slot, from position 10 on
	vars := map[gen.Variable]int{}
	slot := func(v gen.Variable) gen.Variable {
		if _, found := vars[v]; !found {
			n := 10 + len(vars)
			vars[v] = n
			add(func() { g.BindStackValue(n, v) })
		}
		return v
	}
	get := func(s *st.State, v gen.Variable) ct.U256 { return s.Stack.Get(vars[v]) }
	shared := chance(r, 3)
	doubt = shared
	name := func(part string) gen.Variable {
		if shared {
			return variable(r, 3)
		}
		return gen.Variable(part) + variable(r, 3)
	}
	bound := gen.Assignment{}
	bind := func(v gen.Variable, x ct.U256) {
		if y, found := bound[v]; found {
			if y != x {
				contradict(true)
			}
		} else {
			bound[v] = x
		}
		note("%v=%v", v, x)
		slot(v)
		check(func(s *st.State) bool { return get(s, v) == x })
		add(func() { g.BindValue(v, x) })
	}
	merge := func(v verdict) {
		if v == unsat {
			want = unsat
		} else if v == unknown {
			doubt = true
		}
	}
	assigned := func(s *st.State) gen.Assignment {
		a := gen.Assignment{}
		for v := range vars {
			a[v] = get(s, v)
		}
		return a
	}

	pcVars := []gen.Variable{}
	base := []int{0, 5, 300}[r.Intn(3)]
	setPc, fixedPc := chance(r, 4), uint16(r.Intn(1<<16))
	if chance(r, 2) {
		fixedPc = uint16(base + r.Intn(20))
	}
	if chance(r, 2) { // code
		var cons []codeCon
		nv := 1
		if chance(r, 3) {
			nv = 3
		}
		if chance(r, 3) {
			bind(name("c"), ct.NewU256(uint64(base+r.Intn(20))))
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			v := name("c")
			if !shared && nv == 1 {
				v = "cA"
			}
			c := codeCon{kind: r.Intn(4), pos: base + r.Intn(20), v: v, op: randOp(r)}
			if chance(r, 2) {
				c.kind = 1
			}
			cons = append(cons, c)
			note("%v", c)
			switch c.kind {
			case 0:
				add(func() { g.SetCodeOperation(c.pos, c.op) })
			case 1:
				slot(v)
				add(func() { g.AddCodeOperation(v, c.op) })
			case 2:
				slot(v)
				add(func() { g.AddIsCode(v) })
			case 3:
				slot(v)
				add(func() { g.AddIsData(v) })
			}
			if c.kind > 0 && chance(r, 3) {
				pcVars = append(pcVars, v)
				note("pc=%v", v)
				check(func(s *st.State) bool { return ct.NewU256(uint64(s.Pc)) == get(s, v) })
				add(func() { g.BindPc(v) })
			}
		}
		check(func(s *st.State) bool { return codeHolds(cons, assigned(s), s.Code.Copy()) == "" })
		fixed := cloneAssignment(bound)
		if setPc { // variables bound to the program counter have its value
			for _, v := range pcVars {
				if _, found := fixed[v]; !found {
					fixed[v] = ct.NewU256(uint64(fixedPc))
				} else {
					contradict(fixed[v] != ct.NewU256(uint64(fixedPc)))
				}
			}
		}
		merge(codeDecide(cons, fixed))
	}
	for i := range pcVars {
		if pcVars[i] != pcVars[0] {
			doubt = true
		}
	}
	if setPc {
		x := fixedPc
		note("pc=%d", x)
		check(func(s *st.State) bool { return s.Pc == x })
		add(func() { g.SetPc(x) })
		if chance(r, 5) {
			y := x ^ uint16(r.Intn(2))
			note("pc=%d", y)
			check(func(s *st.State) bool { return s.Pc == y })
			add(func() { g.SetPc(y) })
			contradict(x != y)
		}
	} else if chance(r, 10) && !shared && len(pcVars) == 0 {
		x := ct.NewU256([]uint64{0, 70, 65535, 65536, 65536 + 70, 1 << 32}[r.Intn(6)])
		bind("p", x)
		note("pc=p")
		check(func(s *st.State) bool { return ct.NewU256(uint64(s.Pc)) == x })
		add(func() { g.BindPc("p") })
		contradict(x.Uint64() > 65535)
	}
	if chance(r, 2) { // stack
		var cons []stackCon
		lo, hi := 0, 1024
		for i := r.Intn(4); i > 0; i-- {
			c := stackCon{kind: r.Intn(4), n: 20 + r.Intn(20), value: small(r)}
			if chance(r, 5) {
				c.n = 1024 - r.Intn(2)
			}
			if c.kind == 3 {
				c.n = r.Intn(3)
			}
			cons = append(cons, c)
			note("%v", c)
			switch c.kind {
			case 0:
				add(func() { g.AddStackSizeLowerBound(c.n) })
				check(func(s *st.State) bool { return s.Stack.Size() >= c.n })
				lo = max(lo, c.n)
			case 1:
				add(func() { g.AddStackSizeUpperBound(c.n) })
				check(func(s *st.State) bool { return s.Stack.Size() <= c.n })
				hi = min(hi, c.n)
			case 2:
				add(func() { g.SetStackSize(c.n) })
				check(func(s *st.State) bool { return s.Stack.Size() == c.n })
				lo, hi = max(lo, c.n), min(hi, c.n)
			case 3:
				add(func() { g.SetStackValue(c.n, c.value) })
				check(func(s *st.State) bool { return s.Stack.Size() > c.n && s.Stack.Get(c.n) == c.value })
				for _, o := range cons {
					contradict(o.kind == 3 && o.n == c.n && o.value != c.value)
				}
			}
		}
		contradict(lo > hi)
		if hi < 45 {
			doubt = true // may leave no room for the variables
		}
	}
	if chance(r, 2) { // storage
		var cons []storeCon
		if chance(r, 3) {
			bind(name("k"), small(r))
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			c := storeCon{kind: r.Intn(3), status: statuses[r.Intn(len(statuses))], k: slot(name("k"))}
			note("%v", c)
			switch c.kind {
			case 0:
				c.v = slot(name("n"))
				if c.k == c.v {
					doubt = true
				}
				add(func() { g.BindStorageConfiguration(c.status, c.k, c.v) })
			case 1:
				add(func() { g.BindIsStorageWarm(c.k) })
			case 2:
				add(func() { g.BindIsStorageCold(c.k) })
			}
			cons = append(cons, c)
		}
		check(func(s *st.State) bool { return storageHolds(cons, assigned(s), s.Storage) == "" })
		if !shared {
			merge(storageDecide(cons, bound))
		}
	}
	if chance(r, 3) { // transient storage
		kinds := map[gen.Variable]int{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			v, z := slot(name("t")), chance(r, 2)
			note("transient zero(%v)=%v", v, z)
			check(func(s *st.State) bool { return s.TransientStorage.Get(get(s, v)).IsZero() == z })
			if z {
				add(func() { g.BindTransientStorageToZero(v) })
				kinds[v] |= 1
			} else {
				add(func() { g.BindTransientStorageToNonZero(v) })
				kinds[v] |= 2
			}
			contradict(kinds[v] == 3)
		}
	}
	selfs := map[tosca.Address]bool{}
	for i := r.Intn(6) / 3; i > 0; i-- {
		x := addr(r)
		selfs[x] = true
		note("self=%v", x)
		check(func(s *st.State) bool { return s.CallContext.AccountAddress == x })
		add(func() { g.SetSelfAddress(x) })
	}
	contradict(len(selfs) > 1)
	if chance(r, 2) { // accounts
		var cons []acctCon
		if chance(r, 3) {
			bind(name("a"), ct.AddressToU256(addr(r)))
		}
		selfVar := gen.Variable("")
		if chance(r, 3) {
			selfVar = slot(name("a"))
			note("self=%v", selfVar)
			check(func(s *st.State) bool { return ct.NewAddress(get(s, selfVar)) == s.CallContext.AccountAddress })
			add(func() { g.BindToSelfAddress(selfVar) })
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			c := acctCon{r.Intn(6), slot(name("a")), balanceValue(r)}
			cons = append(cons, c)
			note("%v", c)
			add(func() {
				acctApply(g, func(v gen.Variable) { g.BindToWarmAddress(v) }, func(v gen.Variable) { g.BindToColdAddress(v) }, c)
			})
		}
		check(func(s *st.State) bool { return acctHolds(cons, assigned(s), s.Accounts) == "" })
		if !shared {
			known := cloneAssignment(bound)
			if selfVar != "" {
				for x := range selfs {
					y := ct.AddressToU256(x)
					if z, found := known[selfVar]; found && z != y {
						contradict(true)
					}
					known[selfVar] = y
				}
			}
			merge(acctDecide(cons, known))
		}
	}
	if chance(r, 2) { // block
		var cons []blockCon
		if chance(r, 3) {
			bind(name("b"), blockNumberValue(r))
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			c := randBlockCon(r, name("b"))
			if c.kind > 0 {
				slot(c.v)
			}
			cons = append(cons, c)
			note("%v", c)
			add(func() { blockApply(g, c) })
		}
		check(func(s *st.State) bool { return blockHolds(cons, assigned(s), s.BlockContext.BlockNumber) == "" })
		if !shared {
			merge(blockDecide(cons, bound))
		}
	}
	if chance(r, 3) && !shared { // blob hashes
		var cons []blobCon
		if chance(r, 3) {
			bind(name("h"), ct.NewU256(uint64(r.Intn(4))))
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			c := blobCon{chance(r, 2), slot(name("h"))}
			cons = append(cons, c)
			note("blob%v", c)
			check(func(s *st.State) bool {
				x := get(s, c.v)
				return (x.IsUint64() && x.Uint64() < uint64(len(s.TransactionContext.BlobHashes))) == c.present
			})
			if c.present {
				add(func() { g.IsPresentBlobHashIndex(c.v) })
			} else {
				add(func() { g.IsAbsentBlobHashIndex(c.v) })
			}
		}
		merge(blobDecide(cons, bound))
	}

	r.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	for i, f := range steps {
		f()
		if chance(r, 12) { // go on with a copy, while the original gets something else
			old := g
			if chance(r, 2) {
				_ = old.String()
			}
			g = g.Clone()
			spoil(old, r)
		} else if chance(r, 12) { // spoil and restore
			keep := g.Clone()
			spoil(g, r)
			g.Restore(keep)
			spoil(keep, r)
		}
		_ = i
	}
	for v := range bound {
		slot(v)
	}
	if doubt && want == sat {
		want = unknown
	}
	detail := func() string { return strings.Join(desc, ", ") }
	s, _, err := run("state", r, g, nil, func(g *gen.StateGenerator, _ gen.Assignment, p *prand.Rand) (*st.State, error) {
		return g.Generate(p)
	}, detail)
	if errors.Is(err, gen.ErrUnboundVariable) {
		R.Add("unbound_variables", 1)
		return // a variable no part of the state gives a value
	}
	judgeErr("state", err, want, detail)
	if err != nil {
		return
	}
	for _, c := range checks {
		if why := c(s); why != "" {
			unsound("state:violated", why+" in "+detail()+fmt.Sprintf(" (block %d, pc %d, stack %d)", s.BlockContext.BlockNumber, s.Pc, s.Stack.Size()))
		}
	}
	// parts agree with each other
	if s.Revision != ct.GetRevisionForBlock(s.BlockContext.BlockNumber) {
		unsound("state:revision", detail())
	}
	if s.Gas < 0 || s.Gas > st.MaxGasUsedByCt || s.Stack.Size() > 1024 || s.Memory.Size()%32 != 0 || !s.Accounts.Exists(s.CallContext.AccountAddress) {
		unsound("state:shape", detail())
	}
}

// spoil adds constraints that make the generator unsatisfiable.
func spoil(g *gen.StateGenerator, r *rand.Rand) {
	for i := 1 + r.Intn(3); i > 0; i-- {
		v := variable(r, 3)
		switch r.Intn(22) {
		case 0:
			g.SetStatus(st.Stopped)
			g.SetStatus(st.Failed)
		case 1:
			g.SetReadOnly(true)
			g.SetReadOnly(false)
		case 2:
			g.SetGas(5)
			g.SetGas(6)
		case 3:
			g.SetStackSize(3)
			g.SetStackSize(4)
		case 4:
			g.SetRevision(1)
			g.SetRevision(2)
		case 5:
			g.SetCodeOperation(7, vm.ADD)
			g.SetCodeOperation(7, vm.SUB)
		case 6:
			g.BindValue("z", ct.NewU256(1))
			g.BindValue("z", ct.NewU256(2))
		case 7:
			g.BindIsStorageWarm(v)
			g.BindIsStorageCold(v)
		case 8:
			g.BindTransientStorageToZero(v)
			g.BindTransientStorageToNonZero(v)
		case 9:
			g.BindToWarmAddress(v)
			g.BindToColdAddress(v)
		case 10:
			g.BindToAddressOfEmptyAccount(v)
			g.BindToAddressOfNonEmptyAccount(v)
		case 11:
			g.AddBalanceLowerBound(v, ct.NewU256(5))
			g.AddBalanceUpperBound(v, ct.NewU256(4))
		case 12:
			g.MustBeSelfDestructed()
			g.MustNotBeSelfDestructed()
		case 13:
			g.IsPresentBlobHashIndex(v)
			g.IsAbsentBlobHashIndex(v)
		case 14:
			g.SetBlockNumberOffsetValue(v, 5)
			g.SetBlockNumberOffsetValue(v, 6)
		case 15:
			g.RestrictVariableToOneOfTheLast256Blocks(v)
			g.RestrictVariableToNoneOfTheLast256Blocks(v)
		case 16:
			g.SetSelfAddress(tosca.Address{1})
			g.SetSelfAddress(tosca.Address{2})
		case 17:
			g.SetPc(1)
			g.SetPc(2)
		case 18:
			g.SetGasRefund(1)
			g.SetGasRefund(2)
		case 19:
			g.SetStackValue(1, ct.NewU256(1))
			g.SetStackValue(1, ct.NewU256(2))
		case 20:
			g.BindStackValue(1, "unbound")
			g.AddStackSizeUpperBound(0)
		case 21:
			g.AddCodeOperation("z", vm.PUSH1)
			g.AddIsData("z")
			g.BindStorageConfiguration(tosca.StorageAdded, v, "w")
			g.BindStorageConfiguration(tosca.StorageDeleted, v, "w")
		}
	}
}
