package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	ct "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	prand "pgregory.net/rand"

	"verif/evmgen"
	"verif/ref"
	"verif/rep"
)

// atom is a condition of the rule language together with this check's own view
// of what it means.
type atom struct {
	c         rlz.Condition
	kind      string
	eval      func(*st.State) (bool, error)
	checkOnly bool    // its restriction is documented to be unsupported
	sat, vio  verdict // whether some state satisfies (violates) it
	dim       string  // what its test values are values of
	shows     func(*st.State, string) bool
	possible  func(tv string) verdict
	vars      []string // unbound variables it refers to
	partial   bool     // test values of one polarity only, as documented
}

var errPos = errors.New("no instruction there")

// expr is a value of a state, as the rule language and as this check compute it.
type expr struct {
	e       rlz.BindableExpression[ct.U256]
	v       func(*st.State) (ct.U256, error)
	name    string
	isConst bool
	c       ct.U256
}

func paramOf(s *st.State, i int) (ct.U256, error) {
	if i >= s.Stack.Size() {
		return ct.U256{}, rlz.ErrStackOutOfBoundsAccess
	}
	return s.Stack.Get(i), nil
}

func paramExpr(i int) expr {
	return expr{e: rlz.Param(i), name: fmt.Sprintf("p%d", i), v: func(s *st.State) (ct.U256, error) { return paramOf(s, i) }}
}
func pcExpr() expr {
	return expr{e: rlz.Pc(), name: "pc", v: func(s *st.State) (ct.U256, error) { return ct.NewU256(uint64(s.Pc)), nil }}
}
func constExpr(c ct.U256) expr {
	return expr{e: rlz.Constant(c), name: "c" + c.String(), isConst: true, c: c, v: func(*st.State) (ct.U256, error) { return c, nil }}
}

func aParam(r *rand.Rand) expr {
	if r.Intn(10) == 0 {
		return paramExpr(r.Intn(16))
	}
	return paramExpr(r.Intn(3))
}

// dataAt tells whether a position is in the operand of a push, which may be cut
// off by the end of the code.
func dataAt(code []byte, pos ct.U256) bool {
	if !pos.IsUint64() || pos.Uint64() >= uint64(len(code)+32) {
		return false
	}
	p := int(pos.Uint64())
	for i := 0; i < len(code); {
		n := 1
		if code[i] >= 0x60 && code[i] <= 0x7f {
			n += int(code[i]) - 0x5f
		}
		if p < i+n {
			return p != i
		}
		i += n
	}
	return false
}

func opFrom(code []byte, pos ct.U256) (vm.OpCode, error) {
	if dataAt(code, pos) {
		return 0, errPos
	}
	if !pos.IsUint64() || pos.Uint64() >= uint64(len(code)) {
		return vm.STOP, nil
	}
	return vm.OpCode(code[pos.Uint64()]), nil
}

func emptyAccount(s *st.State, a tosca.Address) bool {
	return bOf(s.Accounts.GetBalance(a)).Sign() == 0 && s.Accounts.GetCode(a).Length() == 0
}

func always(string) verdict { return sat }

var opNames = []string{"=", "≠", "<", "≤", ">", "≥"}

func compare(op, sign int) bool {
	return [...]bool{sign == 0, sign != 0, sign < 0, sign <= 0, sign > 0, sign >= 0}[op]
}

func build[T any](op int, e rlz.Expression[T], x T) rlz.Condition {
	return [...]func(rlz.Expression[T], T) rlz.Condition{rlz.Eq[T], rlz.Ne[T], rlz.Lt[T], rlz.Le[T], rlz.Gt[T], rlz.Ge[T]}[op](e, x)
}

// between decides comparisons over the integers lo..hi.
func between(op int, x, lo, hi *big.Int) (res verdict) {
	res = unsat
	for _, c := range []*big.Int{lo, hi, x, new(big.Int).Sub(x, big.NewInt(1)), new(big.Int).Add(x, big.NewInt(1))} {
		if c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0 && compare(op, c.Cmp(x)) {
			return sat
		}
	}
	return
}

var negated = [...]int{1, 0, 5, 4, 3, 2}

// numeric fills in what concerns comparisons of a number.
func numeric(a *atom, op int, x, lo, hi *big.Int, val func(*st.State) (*big.Int, error), text func(*st.State) string) {
	a.eval = func(s *st.State) (bool, error) {
		v, err := val(s)
		if err != nil {
			return false, err
		}
		return compare(op, v.Cmp(x)), nil
	}
	a.sat, a.vio = between(op, x, lo, hi), between(negated[op], x, lo, hi)
	a.shows = func(s *st.State, tv string) bool { return text(s) == tv }
}

func plain[T comparable](a *atom, op int, x T, val func(*st.State) (T, error)) {
	a.eval = func(s *st.State) (bool, error) {
		v, err := val(s)
		if err != nil {
			return false, err
		}
		return (v == x) == (op == 0), nil
	}
	a.sat, a.vio = sat, sat
	a.shows = func(s *st.State, tv string) bool {
		v, err := val(s)
		return err == nil && fmt.Sprintf("%v", v) == tv
	}
	a.possible = always
}

func boolean(a *atom, positive bool, val func(*st.State) (bool, error)) {
	a.eval = func(s *st.State) (bool, error) {
		v, err := val(s)
		return v == positive, err
	}
	a.shows = func(s *st.State, tv string) bool {
		v, err := val(s)
		return err == nil && fmt.Sprintf("%v", v) == tv
	}
	a.sat, a.vio = sat, sat
	a.possible = always
}

func bigRange(hi int64) (*big.Int, *big.Int) { return big.NewInt(0), big.NewInt(hi) }

const maxGas = 500_000_000_000

// atomFor builds a condition, often around values of the given state.
func atomFor(r *rand.Rand, s *st.State) (a atom) {
	kind := r.Intn(23)
	op := r.Intn(6)
	eqne := r.Intn(2)
	var vars []string
	use := func(e expr) expr {
		if !e.isConst && e.name != "pc" {
			vars = append(vars, e.name)
		}
		return e
	}
	defer func() { a.vars = vars }()
	keyOf := func() expr {
		if r.Intn(4) == 0 {
			return constExpr(key(r))
		}
		return aParam(r)
	}
	addrOf := func() expr {
		if r.Intn(4) == 0 {
			w := [32]byte{}
			x := addr(r)
			copy(w[12:], x[:])
			if r.Intn(3) == 0 {
				w[r.Intn(12)] = 7
			}
			return constExpr(ct.NewU256FromBytes(w[:]...))
		}
		return aParam(r)
	}
	position := func() expr {
		switch r.Intn(4) {
		case 0:
			n := uint64(r.Intn(40))
			switch r.Intn(5) {
			case 0:
				n = uint64(r.Intn(20000))
			case 1:
				return constExpr(ct.NewU256(1 << 40))
			case 2:
				return constExpr(ct.NewU256(1, uint64(r.Intn(5))))
			}
			return constExpr(ct.NewU256(n))
		case 1:
			return aParam(r)
		}
		return pcExpr()
	}
	far := func(e expr) bool { return e.isConst && (!e.c.IsUint64() || e.c.Uint64() > 24576) }
	switch kind {
	case 0:
		x := st.StatusCode(r.Intn(4))
		a = atom{c: build(eqne, rlz.Status(), x), kind: "status", dim: "status"}
		plain(&a, eqne, x, func(s *st.State) (st.StatusCode, error) { return s.Status, nil })
	case 1:
		x := ct.NewU256(uint64([]int{0, 1, int(s.Pc), r.Intn(65536), 65535, 65534, r.Intn(50)}[r.Intn(7)]))
		a = atom{c: build(op, rlz.Expression[ct.U256](rlz.Pc()), x), kind: "pc", dim: "pc", checkOnly: op > 1, possible: always}
		lo, hi := bigRange(65535)
		numeric(&a, op, bOf(x), lo, hi, func(s *st.State) (*big.Int, error) { return big.NewInt(int64(s.Pc)), nil },
			func(s *st.State) string { return ct.NewU256(uint64(s.Pc)).String() })
	case 2, 3:
		x := []tosca.Gas{0, 1, 2, s.Gas, s.Gas + 1, s.Gas - 1, maxGas, maxGas - 1, maxGas + 1, tosca.Gas(r.Int63n(maxGas)), tosca.Gas(r.Intn(40000))}[r.Intn(11)]
		x = max(-1<<60, min(1<<60, x)) // bounds are stated in 64 bits
		a = atom{c: build(op, rlz.Gas(), x), kind: "gas", dim: "gas"}
		lo, hi := bigRange(maxGas)
		numeric(&a, op, big.NewInt(int64(x)), lo, hi, func(s *st.State) (*big.Int, error) { return big.NewInt(int64(s.Gas)), nil },
			func(s *st.State) string { return fmt.Sprintf("%v", s.Gas) })
		a.possible = func(tv string) verdict { return integerWithin(tv, maxGas) }
	case 4:
		x := addr(r)
		if r.Intn(2) == 0 {
			x = s.CallContext.AccountAddress
		}
		a = atom{c: build[tosca.Address](eqne, rlz.SelfAddress(), x), kind: "self"}
		plain(&a, eqne, x, func(s *st.State) (tosca.Address, error) { return s.CallContext.AccountAddress, nil })
	case 5:
		x := r.Intn(2) == 0
		a = atom{c: build(eqne, rlz.ReadOnly(), x), kind: "readonly", dim: "readonly", partial: true}
		plain(&a, eqne, x, func(s *st.State) (bool, error) { return s.ReadOnly, nil })
	case 6, 7:
		// balance of an account
		who := rlz.SelfAddress()
		of := func(s *st.State) (tosca.Address, error) { return s.CallContext.AccountAddress, nil }
		name := "self"
		if r.Intn(2) == 0 {
			e := use(addrOf())
			who, name = rlz.ToAddress(e.e), e.name
			of = func(s *st.State) (tosca.Address, error) {
				v, err := e.v(s)
				return ct.NewAddress(v), err
			}
		}
		x := balanceValue(r)
		if o, err := of(s); err == nil && r.Intn(2) == 0 {
			x = s.Accounts.GetBalance(o)
		}
		a = atom{c: build(op, rlz.Balance(who), x), kind: "balance", dim: "balance" + name, possible: always}
		hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		val := func(s *st.State) (*big.Int, error) {
			o, err := of(s)
			if err != nil {
				return nil, err
			}
			return bOf(s.Accounts.GetBalance(o)), nil
		}
		numeric(&a, op, bOf(x), big.NewInt(0), hi, val, func(s *st.State) string {
			v, err := val(s)
			if err != nil {
				return "?"
			}
			return ct.NewU256FromBigInt(v).String()
		})
	case 8, 9:
		p := use(position())
		x := randOp(r)
		if v, err := p.v(s); err == nil && r.Intn(2) == 0 {
			if o, err := opFrom(s.Code.Copy(), v); err == nil {
				x = o
			}
		}
		a = atom{c: build(eqne, rlz.Op(p.e), x), kind: "op", dim: "op" + p.name}
		plain(&a, eqne, x, func(s *st.State) (vm.OpCode, error) {
			v, err := p.v(s)
			if err != nil {
				return 0, err
			}
			return opFrom(s.Code.Copy(), v)
		})
		if far(p) { // nothing but STOP past the code
			a.sat, a.vio = unsat, unsat
			if (x == vm.STOP) == (eqne == 0) {
				a.sat = sat
			} else {
				a.vio = sat
			}
			a.partial = true
			a.possible = func(tv string) verdict {
				if tv == vm.STOP.String() {
					return unknown
				}
				return unsat
			}
			if a.sat == sat { // generators place no operations that far
				a.sat = unknown
			}
		}
	case 10:
		x := []int{0, 1, 2, 1023, 1024, 1025, s.Stack.Size(), r.Intn(1025)}[r.Intn(8)]
		a = atom{c: build(op, rlz.StackSize(), x), kind: "stacksize", dim: "stacksize"}
		lo, hi := bigRange(1024)
		numeric(&a, op, big.NewInt(int64(x)), lo, hi, func(s *st.State) (*big.Int, error) { return big.NewInt(int64(s.Stack.Size())), nil },
			func(s *st.State) string { return fmt.Sprint(s.Stack.Size()) })
		a.possible = func(tv string) verdict { return integerWithin(tv, 1024) }
		if op == 1 && x >= 1024 { // the next size, modulo the largest one
			a.sat = sat
		}
	case 11, 12:
		p := aParam(r)
		e := p.e
		if r.Intn(3) == 0 {
			var i int
			fmt.Sscanf(p.name, "p%d", &i)
			e = rlz.ValueParam(i)
		}
		x := operand(r, s)
		if v, err := p.v(s); err == nil && r.Intn(2) == 0 {
			x = v
		}
		a = atom{c: build(op, rlz.Expression[ct.U256](e), x), kind: "param", dim: "param" + p.name, checkOnly: op > 1, possible: always}
		hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		numeric(&a, op, bOf(x), big.NewInt(0), hi, func(s *st.State) (*big.Int, error) {
			v, err := p.v(s)
			return bOf(v), err
		}, func(s *st.State) string {
			v, err := p.v(s)
			if err != nil {
				return "?"
			}
			return v.String()
		})
	case 13:
		lo, hi := revs[r.Intn(7)], revs[r.Intn(7)]
		if lo > hi {
			lo, hi = hi, lo
		}
		c := rlz.RevisionBounds(lo, hi)
		switch r.Intn(6) {
		case 0:
			hi = lo
			c = rlz.IsRevision(lo)
		case 1:
			lo, hi = 0, tosca.R13_Cancun
			c = rlz.AnyKnownRevision()
		}
		a = atom{c: c, kind: "revision", dim: "revision", possible: always, sat: sat, vio: sat}
		a.eval = func(s *st.State) (bool, error) { return lo <= s.Revision && s.Revision <= hi, nil }
		a.shows = func(s *st.State, tv string) bool { return fmt.Sprintf("%v", s.Revision) == tv }
		if lo == 0 && hi > 5 {
			a.vio = unsat
		}
		a.partial = lo == hi && lo != ct.R99_UnknownNextRevision
	case 14, 15:
		p := use(position())
		positive := kind == 14
		c := rlz.IsCode(p.e)
		if !positive {
			c = rlz.IsData(p.e)
		}
		a = atom{c: c, kind: "code", dim: "code" + p.name}
		boolean(&a, positive, func(s *st.State) (bool, error) {
			v, err := p.v(s)
			if err != nil {
				return false, err
			}
			return !dataAt(s.Code.Copy(), v), nil
		})
		if p.isConst && (far(p) || p.c == ct.NewU256(0)) { // never data
			if positive {
				a.vio = unsat
			} else {
				a.sat = unsat
			}
			a.partial = true
			a.possible = func(tv string) verdict {
				if tv == "true" {
					return sat
				}
				return unsat
			}
		}
	case 16:
		k := use(keyOf())
		positive := r.Intn(2) == 0
		c := rlz.IsStorageWarm(k.e)
		if !positive {
			c = rlz.IsStorageCold(k.e)
		}
		a = atom{c: c, kind: "slotwarm", dim: "slotwarm" + k.name}
		boolean(&a, positive, func(s *st.State) (bool, error) {
			v, err := k.v(s)
			if err != nil {
				return false, err
			}
			return s.Storage.IsWarm(v), nil
		})
	case 17:
		k, n := use(keyOf()), aParam(r)
		if r.Intn(5) == 0 {
			n = constExpr(key(r))
		}
		use(n)
		x := statuses[r.Intn(len(statuses))]
		if kv, err := k.v(s); err == nil && r.Intn(2) == 0 {
			if nv, err := n.v(s); err == nil {
				x = storeStatus(s.Storage.GetOriginal(kv), s.Storage.GetCurrent(kv), nv)
			}
		}
		a = atom{c: rlz.StorageConfiguration(x, k.e, n.e), kind: "slotstatus", partial: true, dim: fmt.Sprint("slotstatus", x, k.name, n.name)}
		boolean(&a, true, func(s *st.State) (bool, error) {
			kv, err := k.v(s)
			if err != nil {
				return false, err
			}
			nv, err := n.v(s)
			if err != nil {
				return false, err
			}
			return storeStatus(s.Storage.GetOriginal(kv), s.Storage.GetCurrent(kv), nv) == x, nil
		})
		if n.isConst || k.name == n.name {
			a.sat = unknown
			a.possible = func(string) verdict { return unknown }
		}
	case 18:
		k := use(keyOf())
		positive := r.Intn(2) == 0
		c := rlz.BindTransientStorageToNonZero(k.e)
		if !positive {
			c = rlz.BindTransientStorageToZero(k.e)
		}
		a = atom{c: c, kind: "transient", dim: "transient" + k.name}
		boolean(&a, positive, func(s *st.State) (bool, error) {
			v, err := k.v(s)
			if err != nil {
				return false, err
			}
			return s.TransientStorage.Get(v) != ct.NewU256(0), nil
		})
	case 19, 20:
		e := use(addrOf())
		positive := r.Intn(2) == 0
		if kind == 19 {
			var c rlz.Condition = rlz.AccountIsEmpty(e.e)
			if !positive {
				c = rlz.AccountIsNotEmpty(e.e)
			}
			a = atom{c: c, kind: "empty", dim: "empty" + e.name}
			boolean(&a, positive, func(s *st.State) (bool, error) {
				v, err := e.v(s)
				if err != nil {
					return false, err
				}
				return emptyAccount(s, ct.NewAddress(v)), nil
			})
		} else {
			var c rlz.Condition = rlz.IsAddressWarm(e.e)
			if !positive {
				c = rlz.IsAddressCold(e.e)
			}
			a = atom{c: c, kind: "warm", dim: "warm" + e.name, partial: true}
			boolean(&a, positive, func(s *st.State) (bool, error) {
				v, err := e.v(s)
				if err != nil {
					return false, err
				}
				return s.Accounts.IsWarm(ct.NewAddress(v)), nil
			})
		}
	case 21:
		positive := r.Intn(2) == 0
		if r.Intn(2) == 0 {
			c := rlz.HasSelfDestructed()
			if !positive {
				c = rlz.HasNotSelfDestructed()
			}
			a = atom{c: c, kind: "selfdestructed", dim: "selfdestructed"}
			boolean(&a, positive, func(s *st.State) (bool, error) { return s.HasSelfDestructed, nil })
			break
		}
		e := aParam(r)
		if r.Intn(3) == 0 {
			e = constExpr(ct.NewU256(uint64(r.Intn(6))))
		}
		use(e)
		c := rlz.HasBlobHash(e.e)
		if !positive {
			c = rlz.HasNoBlobHash(e.e)
		}
		a = atom{c: c, kind: "blob", dim: "blob" + e.name}
		boolean(&a, positive, func(s *st.State) (bool, error) {
			v, err := e.v(s)
			if err != nil {
				return false, err
			}
			return bOf(v).Cmp(big.NewInt(int64(len(s.TransactionContext.BlobHashes)))) < 0, nil
		})
	case 22:
		e := aParam(r)
		if r.Intn(3) == 0 {
			e = constExpr(ct.NewU256([]uint64{0, 1, 256, 257, 5999, 1 << 40, ^uint64(0), uint64(r.Intn(7000))}[r.Intn(8)]))
			if r.Intn(5) == 0 {
				e = constExpr(ct.NewU256(1, uint64(r.Intn(3))))
			}
		}
		use(e)
		positive := r.Intn(2) == 0
		c := rlz.InRange256FromCurrentBlock(e.e)
		if !positive {
			c = rlz.OutOfRange256FromCurrentBlock(e.e)
		}
		a = atom{c: c, kind: "recent", dim: "recent" + e.name}
		boolean(&a, positive, func(s *st.State) (bool, error) {
			v, err := e.v(s)
			if err != nil {
				return false, err
			}
			return recent(v, s.BlockContext.BlockNumber), nil
		})
		a.shows = func(s *st.State, tv string) bool {
			v, err := e.v(s)
			n, bad := strconv.ParseInt(tv, 10, 64)
			if err != nil || bad != nil {
				return false
			}
			return new(big.Int).Add(bOf(v), big.NewInt(n)).Cmp(bOf(ct.NewU256(s.BlockContext.BlockNumber))) == 0
		}
		if e.isConst {
			top := bOf(ct.NewU256(^uint64(0)))
			if bOf(e.c).Cmp(top) >= 0 {
				if positive {
					a.sat = unsat
				} else {
					a.vio = unsat
				}
			}
			a.possible = func(tv string) verdict {
				n, _ := strconv.ParseInt(tv, 10, 64)
				b := new(big.Int).Add(bOf(e.c), big.NewInt(n))
				if b.Sign() < 0 || b.Cmp(top) > 0 {
					return unsat
				}
				return sat
			}
			a.partial = true
		}
	}
	return
}

func integerWithin(tv string, hi int64) verdict {
	if n, err := strconv.ParseInt(tv, 10, 64); err == nil && n >= 0 && n <= hi {
		return sat
	}
	return unsat
}

// agree compares the evaluation of a condition with the own one.
func agree(c rlz.Condition, kind string, eval func(*st.State) (bool, error), s *st.State) (holds bool) {
	want, wantErr := eval(s)
	got, err := c.Check(s)
	R.Eval(1)
	switch {
	case (err != nil) != (wantErr != nil):
		R.Violation("cond:"+kind+":error", fmt.Sprintf("%v: error %v, expected %v\n%s", c, err, wantErr, describe(s)), "")
	case err != nil:
		R.Add("checks_with_error", 1)
		if errors.Is(wantErr, rlz.ErrStackOutOfBoundsAccess) && !errors.Is(err, rlz.ErrStackOutOfBoundsAccess) {
			R.Violation("cond:"+kind+":error", fmt.Sprintf("%v: error %v, expected %v\n%s", c, err, wantErr, describe(s)), "")
		}
	case got != want:
		R.Violation("cond:"+kind+":value", fmt.Sprintf("%v is %v, expected %v\n%s", c, got, want, describe(s)), "")
	case got:
		R.Add("checks_true", 1)
	default:
		R.Add("checks_false", 1)
	}
	return want && wantErr == nil
}

func conditions() {
	kinds := newSet()
	rep.Parallel(8, func(wk int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(wk)))
		g := evmgen.New(seed*1000 + int64(wk) + 700)
		pool := []*st.State{}
		for i := 0; i < scale(40, 2000); i++ {
			sources(r, g, i, func(s *st.State, _ *ref.Case) {
				if len(pool) < 300 {
					pool = append(pool, s)
				} else {
					pool[r.Intn(300)] = s
				}
			})
			for k := 0; k < 8; k++ {
				s := freshState(r)
				if s.Status == st.Running && r.Intn(2) == 0 {
					s.Pc = uint16(r.Intn(s.Code.Length() + 3))
				}
				pool[r.Intn(len(pool))] = s
			}
			for k := 0; k < 150; k++ {
				s := pool[r.Intn(len(pool))]
				a := atomFor(r, s)
				R.Guard("condition "+a.kind, func() {
					atomCase(r, a, s, pool)
					R.Distinct(rep.Fnv(a.c.String(), a.kind))
					kinds.add(a.kind)
				})
				if k%2 == 0 {
					R.Guard("conjunction", func() { conjunctionCase(r, pool) })
				}
				if k%25 == 0 {
					R.Guard("enumeration", func() { ruleCase(r, s) })
				}
			}
		}
	})
	R.Add("kinds_of_conditions", int64(kinds.size()))
	// the conditions of the specification itself
	specConditions()
}

func stateFrom(r *rand.Rand, restrict func(*gen.StateGenerator)) (*st.State, error) {
	g := gen.NewStateGenerator()
	restrict(g)
	return g.Generate(prand.New(r.Uint64()))
}

func atomCase(r *rand.Rand, a atom, s *st.State, pool []*st.State) {
	agree(a.c, a.kind, a.eval, s)
	for i := 0; i < 3; i++ {
		agree(a.c, a.kind, a.eval, pool[r.Intn(len(pool))])
	}
	if a.checkOnly {
		return
	}
	x, err := stateFrom(r, a.c.Restrict)
	if err != nil {
		if !errors.Is(err, gen.ErrUnsatisfiable) {
			R.Violation("cond:"+a.kind+":restrict-error", fmt.Sprintf("%v: %v", a.c, err), "")
		} else if a.sat == sat {
			R.Violation("cond:"+a.kind+":unsatisfiable", fmt.Sprintf("%v has satisfying states, its restriction has none: %v", a.c, err), "")
		}
		R.Add("restrictions_unsatisfiable", 1)
	} else {
		R.Add("restrictions_generated", 1)
		if !agree(a.c, a.kind, a.eval, x) {
			R.Violation("cond:"+a.kind+":restrict", fmt.Sprintf("the state generated for %v violates it\n%s", a.c, describe(x)), "")
		}
		if a.sat == unsat {
			R.Violation("cond:"+a.kind+":contradiction", fmt.Sprintf("a state was generated for %v, which none satisfies\n%s", a.c, describe(x)), "")
		}
	}
	if a.dim == "" {
		return
	}
	yes, no := 0, 0
	tvs := a.c.GetTestValues()
	if len(tvs) == 0 {
		R.Violation("cond:"+a.kind+":no-test-values", a.c.String(), "")
	}
	for _, tv := range tvs {
		x, err := stateFrom(r, tv.Restrict)
		R.Add("test_values", 1)
		if err != nil {
			if !errors.Is(err, gen.ErrUnsatisfiable) {
				R.Violation("cond:"+a.kind+":test-value-error", fmt.Sprintf("%v, test value %v: %v", a.c, tv, err), "")
			} else if a.possible(tv.String()) == sat {
				R.Violation("cond:"+a.kind+":test-value-unsatisfiable", fmt.Sprintf("%v, test value %v: %v", a.c, tv, err), "")
			}
			continue
		}
		if a.possible(tv.String()) == unsat {
			R.Violation("cond:"+a.kind+":test-value-contradiction", fmt.Sprintf("%v, test value %v\n%s", a.c, tv, describe(x)), "")
		}
		if !a.shows(x, tv.String()) {
			R.Violation("cond:"+a.kind+":test-value", fmt.Sprintf("the state for test value %v of %v does not have it\n%s", tv, a.c, describe(x)), "")
		}
		if agree(a.c, a.kind, a.eval, x) {
			yes++
		} else {
			no++
		}
	}
	if !a.partial && (a.sat == sat && yes == 0 || a.vio == sat && no == 0) {
		R.Violation("cond:"+a.kind+":one-sided", fmt.Sprintf("test values of %v: %d satisfying and %d violating states: %v", a.c, yes, no, tvs), "")
	}
	R.Add("test_values_satisfying", int64(yes))
	R.Add("test_values_violating", int64(no))
}

func nest(r *rand.Rand, cs []rlz.Condition) rlz.Condition {
	if len(cs) > 2 && r.Intn(2) == 0 {
		k := 1 + r.Intn(len(cs)-1)
		return rlz.And(nest(r, cs[:k]), nest(r, cs[k:]))
	}
	return rlz.And(cs...)
}

// independent says whether conditions of these kinds, each satisfiable and about
// different parts of a state, are satisfiable together.
var independent = map[string]bool{"status": true, "gas": true, "readonly": true, "revision": true, "selfdestructed": true, "stacksize": true}

func conjunctionCase(r *rand.Rand, pool []*st.State) {
	s := pool[r.Intn(len(pool))]
	n := r.Intn(5)
	as, cs := []atom{}, []rlz.Condition{}
	restrictable := true
	known := sat
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		a := atomFor(r, s)
		as, cs = append(as, a), append(cs, a.c)
		restrictable = restrictable && !a.checkOnly
		if !independent[a.kind] || seen[a.kind] || a.sat != sat {
			known = unknown
		}
		seen[a.kind] = true
	}
	c := nest(r, cs)
	eval := func(s *st.State) (bool, error) {
		for _, a := range as {
			if ok, err := a.eval(s); !ok || err != nil {
				return false, err
			}
		}
		return true, nil
	}
	agree(c, "and", eval, s)
	agree(c, "and", eval, pool[r.Intn(len(pool))])
	// a conjunction of what holds in s, shuffled
	holding := []rlz.Condition{}
	for i := 0; i < 6; i++ {
		if a := atomFor(r, s); !a.checkOnly {
			if ok, err := a.eval(s); ok && err == nil {
				holding = append(holding, a.c)
			}
		}
	}
	agree(nest(r, holding), "and", func(*st.State) (bool, error) { return true, nil }, s)
	if !restrictable {
		return
	}
	x, err := stateFrom(r, c.Restrict)
	switch {
	case err == nil:
		R.Add("conjunctions_generated", 1)
		if !agree(c, "and", eval, x) {
			bad := ""
			for _, a := range as {
				if ok, err := a.eval(x); !ok || err != nil {
					bad = a.kind
				}
			}
			R.Violation("cond:and:restrict:"+bad, fmt.Sprintf("the state generated for %v violates it\n%s", c, describe(x)), "")
		}
	case !errors.Is(err, gen.ErrUnsatisfiable):
		R.Violation("cond:and:restrict-error", fmt.Sprintf("%v: %v", c, err), "")
	case known == sat:
		R.Violation("cond:and:unsatisfiable", fmt.Sprintf("%v: %v", c, err), "")
	default:
		R.Add("conjunctions_unsatisfiable", 1)
	}
	// the test values are those of the parts
	want := 0
	for _, a := range as {
		if a.dim == "" {
			return
		}
		want += len(a.c.GetTestValues())
	}
	if got := len(c.GetTestValues()); got != want {
		R.Violation("cond:and:test-values", fmt.Sprintf("%v has %d test values, its parts %d", c, got, want), "")
	}
}

var parameterKinds = []rlz.Parameter{rlz.NumericParameter{}, rlz.JumpTargetParameter{}, rlz.MemoryOffsetParameter{}, rlz.DataOffsetParameter{},
	rlz.SizeParameter{}, rlz.TopicParameter{}, rlz.AddressParameter{}, rlz.GasParameter{}, rlz.ValueParameter{}}

// ruleCase enumerates the test cases of a rule made of random conditions and
// parameters and judges which ones there must be.
func ruleCase(r *rand.Rand, s *st.State) {
	as := []atom{}
	dims := map[string][]rlz.TestValue{}
	order := []string{}
	show := map[string]func(*st.State, string) bool{}
	total := 1
	for i := r.Intn(5); i > 0; i-- {
		a := atomFor(r, s)
		if a.dim == "" || a.checkOnly {
			continue
		}
		vals := dims[a.dim]
		for _, tv := range a.c.GetTestValues() {
			dup := false
			for _, x := range vals {
				dup = dup || x.String() == tv.String()
			}
			if !dup {
				vals = append(vals, tv)
			}
		}
		if len(dims[a.dim]) == 0 {
			if total*len(vals) > 300 {
				continue
			}
			total *= len(vals)
			order = append(order, a.dim)
		} else {
			if total/len(dims[a.dim])*len(vals) > 300 {
				continue
			}
			total = total / len(dims[a.dim]) * len(vals)
		}
		dims[a.dim] = vals
		show[a.dim] = a.shows
		as = append(as, a)
	}
	cs := []rlz.Condition{}
	for _, a := range as {
		cs = append(cs, a.c)
	}
	// A variable without a fixed value that several parts of a state refer to gets
	// a value from one part that may not suit another.
	doubt := false
	parts := map[string]string{"op": "code", "slotwarm": "storage", "slotstatus": "storage", "empty": "accounts", "warm": "accounts", "balance": "accounts"}
	usedIn := map[string]string{}
	codePositions := map[string]bool{}
	for _, a := range as {
		p := parts[a.kind]
		if p == "" {
			p = a.kind
		}
		names := a.vars
		if p == "code" {
			codePositions[strings.TrimPrefix(strings.TrimPrefix(a.dim, "op"), "code")] = true
		}
		for _, v := range names {
			if _, fixed := dims["param"+v]; fixed {
				continue
			}
			if q, found := usedIn[v]; found && q != p {
				doubt = true
			}
			usedIn[v] = p
		}
		if a.kind == "slotstatus" {
			doubt = doubt || a.sat != sat
		}
	}
	doubt = doubt || len(codePositions) > 1 // their placement is not complete
	rule := rlz.Rule{Name: "generated", Condition: nest(r, cs), Effect: rlz.NoEffect()}
	product := 1
	for i := r.Intn(4); i > 0; i-- {
		p := parameterKinds[r.Intn(len(parameterKinds))]
		if n := product * (len(p.Samples()) + 1); n <= 60 && n*total <= 1500 {
			product = n
			rule.Parameter = append(rule.Parameter, p)
		}
	}
	info := rule.GetTestCaseEnumerationInfo()
	if got := info.TotalNumberOfCases(); got != total*product {
		R.Violation("cond:enumeration:total", fmt.Sprintf("%v with %d parameters: %d cases announced, expected %d", rule.Condition, len(rule.Parameter), got, total*product), "")
	}
	rs := r.Uint64()
	type group struct {
		states int
		tuples map[string]int
		size   int
	}
	groups := map[uint64]*group{}
	shown := map[string]bool{}
	calls, hash := 0, uint64(0)
	err := rule.EnumerateTestCases(prand.New(rs), func(s *st.State) rlz.ConsumerResult {
		calls++
		x := s.Clone()
		k := min(len(rule.Parameter), x.Stack.Size())
		tuple := strings.Builder{}
		for i := 0; i < k; i++ {
			tuple.WriteString(x.Stack.Get(i).String() + "|")
		}
		y := x.Clone()
		for i := 0; i < k; i++ {
			y.Stack.Set(i, ct.NewU256(0))
		}
		h := fingerprint(y).hash()
		hash = hash*31 + h + rep.Fnv(tuple.String())
		if groups[h] == nil {
			groups[h] = &group{tuples: map[string]int{}, size: k}
		}
		groups[h].states++
		sig := []rune{}
		for _, d := range order {
			c := rune('?')
			for j, tv := range dims[d] {
				if show[d](x, tv.String()) {
					c = rune('A' + j)
					break
				}
			}
			sig = append(sig, c)
		}
		shown[string(sig)] = true
		groups[h].tuples[tuple.String()]++
		return rlz.ConsumeContinue
	})
	R.Add("enumerated_rules", 1)
	R.Add("enumerated_states", int64(calls))
	desc := func() string {
		return fmt.Sprintf("%v with %d parameters, seed %d", rule.Condition, len(rule.Parameter), rs)
	}
	if err != nil {
		R.Violation("cond:enumeration:error", fmt.Sprintf("%v: %v", desc(), err), "")
		return
	}
	if calls > info.TotalNumberOfCases() {
		R.Violation("cond:enumeration:more", fmt.Sprintf("%s: %d cases for %d announced", desc(), calls, info.TotalNumberOfCases()), "")
	}
	// every combination of parameter samples and the generated value, once per state
	for _, g := range groups {
		want := 1
		for i := 0; i < g.size; i++ {
			want *= len(rule.Parameter[i].Samples()) + 1
		}
		if g.states%want != 0 {
			R.Violation("cond:enumeration:parameters", fmt.Sprintf("%s: %d states for %d combinations", desc(), g.states, want), "")
		}
		var walk func(i int, prefix string)
		walk = func(i int, prefix string) {
			if i == g.size {
				if g.tuples[prefix] == 0 {
					R.Violation("cond:enumeration:sample-missing", fmt.Sprintf("%s: stack values %s", desc(), prefix), "")
				}
				return
			}
			for _, v := range rule.Parameter[i].Samples() {
				walk(i+1, prefix+v.String()+"|")
			}
		}
		walk(0, "")
	}
	// every satisfiable combination of test values, and no other
	satisfiable := 0
	var walk func(i int, chosen []rlz.TestValue)
	walk = func(i int, chosen []rlz.TestValue) {
		if i < len(order) {
			for _, tv := range dims[order[i]] {
				walk(i+1, append(chosen[:i:i], tv))
			}
			return
		}
		_, err := stateFrom(r, func(g *gen.StateGenerator) {
			for _, tv := range chosen {
				tv.Restrict(g)
			}
		})
		if err != nil {
			R.Add("combinations_unsatisfiable", 1)
			return
		}
		satisfiable++
		R.Add("combinations_satisfiable", 1)
		sig := []rune{}
		for j, tv := range chosen {
			for l, x := range dims[order[j]] {
				if x.String() == tv.String() {
					sig = append(sig, rune('A'+l))
				}
			}
		}
		if shown[string(sig)] {
			return
		}
		if doubt {
			return
		}
		R.Violation("cond:enumeration:combination-missing", fmt.Sprintf("%s: no state with the test values %v of %v", desc(), chosen, order), "")
	}
	walk(0, nil)
	if doubt {
		R.Add("enumerations_not_counted", 1)
	} else if len(groups) != satisfiable {
		R.Violation("cond:enumeration:count", fmt.Sprintf("%s: %d generated states, %d satisfiable combinations of test values of %v", desc(), len(groups), satisfiable, order), "")
	}
	// the same again, and stopping
	again, hash2 := 0, uint64(0)
	stop := r.Intn(calls + 2)
	counted := 0
	_ = rule.EnumerateTestCases(prand.New(rs), func(s *st.State) rlz.ConsumerResult {
		again++
		k := min(len(rule.Parameter), s.Stack.Size())
		tuple := strings.Builder{}
		y := s.Clone()
		for i := 0; i < k; i++ {
			tuple.WriteString(s.Stack.Get(i).String() + "|")
			y.Stack.Set(i, ct.NewU256(0))
		}
		hash2 = hash2*31 + fingerprint(y).hash() + rep.Fnv(tuple.String())
		return rlz.ConsumeContinue
	})
	if again != calls || hash != hash2 {
		R.Violation("cond:enumeration:not-reproducible", desc(), "")
	}
	_ = rule.EnumerateTestCases(prand.New(rs), func(s *st.State) rlz.ConsumerResult {
		counted++
		if counted >= stop {
			return rlz.ConsumeAbort
		}
		return rlz.ConsumeContinue
	})
	if want := max(1, stop); counted != min(want, calls) {
		R.Violation("cond:enumeration:abort", fmt.Sprintf("%s: stopped at call %d, got %d of %d", desc(), stop, counted, calls), "")
	}
	R.Add("enumerations_stopped", 1)
}

// specConditions: what holds for all conditions holds for those of the specification.
func specConditions() {
	rules := allRules()
	rep.Parallel(len(rules), func(i int) {
		r := rand.New(rand.NewSource(seed*91 + int64(i)))
		for k := 0; k < scale(2, 60); k++ {
			R.Guard("rule", func() {
				s, err := rules[i].GenerateSatisfyingState(prand.New(r.Uint64()))
				if err != nil {
					R.Violation("cond:rule:unsatisfiable", fmt.Sprintf("%s: %v", rules[i].Name, err), "")
					return
				}
				R.Add("rules_with_satisfying_state", 1)
				if ok, err := rules[i].Condition.Check(s); !ok || err != nil {
					R.Violation("cond:rule:restrict", fmt.Sprintf("%s: %v %v\n%s", rules[i].Name, ok, err, describe(s)), "")
				}
			})
		}
	})
}
