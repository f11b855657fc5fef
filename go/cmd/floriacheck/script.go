package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
	"verif/rep"
)

// A script stands for the behaviour of a piece of code: what an interpreter
// running it would do to its context. Code names its script by number.
type script struct {
	ops  []op
	end  byte // s stop, r revert, f failure, e internal error
	out  []byte
	burn int64 // gas burnt at the end
	back int64 // refund
}

type op struct {
	do       byte // b burn, s sstore, t tstore, l log, a access, k access slot, c call, d selfdestruct, q look at everything
	kind     tosca.CallKind
	to       tosca.Address
	k, v     byte
	val      tosca.Value
	frac     int64 // of the gas, in 1/256
	in       []byte
	salt     tosca.Hash
	overdraw bool // do not look at the balance first
}

func codeOf(id int, pad int) []byte {
	c := []byte{0x5c, byte(id >> 8), byte(id)}
	return append(c, bytes.Repeat([]byte{byte(id)*3 + 1}, pad)...)
}

// An event is what a running contract observes.
type event struct {
	name string
	kind tosca.CallKind
	top  bool
	hash uint64 // of the fields
	text string // the fields, one per line; only if asked for
	to   tosca.Address
	fail bool
}

type runner struct {
	w       *World
	scripts []*script
	note    string // differs per side in nothing
}

var runNames = map[tosca.CallKind]string{tosca.Call: "runs_call", tosca.StaticCall: "runs_static", tosca.DelegateCall: "runs_delegate", tosca.CallCode: "runs_callcode", tosca.Create: "runs_create", tosca.Create2: "runs_create2"}

var errInternal = errors.New("internal error of the interpreter")

func (r *runner) Run(p tosca.Parameters) (tosca.Result, error) {
	w := r.w
	if len(p.Code) == 0 {
		return tosca.Result{Success: true, GasLeft: p.Gas}, nil
	}
	w.runs++
	if p.Depth > 0 {
		w.stats["nested_runs"]++
	}
	w.stats[runNames[p.Kind]]++
	if p.Static {
		w.stats["static_runs"]++
	}
	e := event{name: "run", kind: p.Kind, top: p.Depth == 0, to: p.Recipient, hash: runHash(p) + w.hash(p.Depth == 0)}
	if w.verbose {
		e.text = runText(p) + w.digest(p.Depth == 0)
	}
	w.record(e)
	res, err := r.exec(p)
	if err != nil {
		return res, err
	}
	if w.budget <= 0 {
		return tosca.Result{}, nil
	}
	return res, nil
}

func (w *World) record(e event) {
	if len(w.events) < 6000 {
		w.events = append(w.events, e)
	}
}

func runText(p tosca.Parameters) string {
	hash := "none"
	if p.CodeHash != nil {
		hash = fmt.Sprintf("%x", *p.CodeHash)
	}
	b, t := p.BlockParameters, p.TransactionParameters
	if gethMode {
		p.Kind = 0
	}
	return fmt.Sprintf("kind %v\ndepth %d\nstatic %v\nrecipient %x\nsender %x\nvalue %x\ninput %x\ncode %x\ncodehash %s\nblock %+v\norigin %x\nprice %x\nblobs %x\ngas %d\n",
		p.Kind, p.Depth, p.Static, p.Recipient[:], p.Sender[:], p.Value[:], []byte(p.Input), short(string(p.Code)), hash, b, t.Origin[:], t.GasPrice[:], t.BlobHashes, p.Gas)
}

func runHash(p tosca.Parameters) uint64 {
	h := hasher(9)
	kind := p.Kind
	if gethMode {
		kind = 0 // the bridge does not know it
	}
	for _, n := range []int{int(kind), p.Depth, int(flag8(p.Static)), int(p.Gas), len(p.BlobHashes), int(p.BlockNumber), int(p.Timestamp), int(p.BlockParameters.GasLimit), int(p.Revision)} {
		h.u(uint64(n))
	}
	if p.CodeHash != nil {
		h.b(p.CodeHash[:])
	}
	for _, x := range p.BlobHashes {
		h.b(x[:])
	}
	for _, b := range [][]byte{p.Recipient[:], p.Sender[:], p.Value[:], p.Input, p.Code, p.ChainID[:], p.Coinbase[:], p.PrevRandao[:], p.BaseFee[:], p.BlobBaseFee[:], p.Origin[:], p.GasPrice[:]} {
		h.b(b)
	}
	return uint64(h)
}

// digest describes the world: balances, nonces, and at the start the warm set.
func (w *World) digest(warm bool) string {
	s := ""
	for _, d := range w.state.diff(newState(), false) {
		s += d[:len(d)-len(wantTail(d))] + "\n"
	}
	if warm {
		s += "warmset"
		for _, d := range append(mapDiff("", w.warmA, map[tosca.Address]bool{}, eqBool), mapDiff("", w.warmS, map[slot]bool{}, eqBool)...) {
			s += d
		}
		s += "\n"
	}
	return s
}

func eqBool(a, b bool) bool { return a == b }

func wantTail(d string) string {
	if i := bytes.LastIndex([]byte(d), []byte(", want ")); i >= 0 {
		return d[i:]
	}
	return ""
}

func (r *runner) exec(p tosca.Parameters) (tosca.Result, error) {
	w, ctx, gas := r.w, p.Context, p.Gas
	if len(p.Code) < 3 || p.Code[0] != 0x5c || int(p.Code[1])<<8|int(p.Code[2]) >= len(r.scripts) {
		return tosca.Result{}, nil // not a program
	}
	sc := r.scripts[int(p.Code[1])<<8|int(p.Code[2])]
	refund := tosca.Gas(0)
	self := p.Recipient
	saw := func(what string, x ...any) {}
	if gethMode {
		saw = func(what string, x ...any) {
			t := fmt.Sprint(x...)
			w.stats["observations"]++
			w.record(event{name: "observed", to: self, hash: rep.Fnv(t), text: what + " " + t + "\n"})
		}
	}
	for _, o := range sc.ops {
		if w.budget--; w.budget <= 0 {
			return tosca.Result{}, nil
		}
		if gas -= 20; gas < 0 {
			return tosca.Result{}, nil
		}
		key := tosca.Key{31: o.k}
		switch o.do {
		case 'b':
			if gas -= gas / 1024 * tosca.Gas(o.frac); gas < 0 {
				return tosca.Result{}, nil
			}
		case 's', 't', 'l', 'd':
			if p.Static {
				return tosca.Result{}, nil
			}
			switch o.do {
			case 's':
				saw("setstorage", ctx.SetStorage(self, key, tosca.Word{31: o.v}))
				w.stats["stores"]++
			case 't':
				ctx.SetTransientStorage(self, key, tosca.Word{31: o.v})
			case 'l':
				ctx.EmitLog(tosca.Log{Address: self, Topics: []tosca.Hash{{o.k}}, Data: tosca.Data{o.v}})
			case 'd':
				saw("selfdestruct", ctx.SelfDestruct(self, o.to))
				return tosca.Result{Success: true, GasLeft: gas, GasRefund: refund}, nil
			}
		case 'a':
			saw("accessaccount", ctx.AccessAccount(o.to))
		case 'k':
			saw("accessstorage", ctx.AccessStorage(o.to, key))
		case 'q':
			a := o.to
			saw("account", ctx.AccountExists(a), ctx.GetBalance(a), ctx.GetNonce(a), ctx.GetCodeSize(a), ctx.GetCodeHash(a), []byte(ctx.GetCode(a)), ctx.HasSelfDestructed(a), ctx.IsAddressInAccessList(a))
			x, y := ctx.IsSlotInAccessList(a, key)
			saw("slot", ctx.GetStorage(a, key), ctx.GetCommittedStorage(a, key), ctx.GetTransientStorage(a, key), x, y)
			saw("blockhash", ctx.GetBlockHash(int64(o.v)<<(4*o.k)))
		case 'c':
			cp := tosca.CallParameters{Sender: self, Recipient: o.to, Value: o.val, Input: bytes.Clone(o.in), Gas: tosca.Gas(int64(gas) / 256 * o.frac)}
			if o.frac >= 256 {
				cp.Gas = gas
			}
			if gethMode && p.Static && o.kind == tosca.Call && o.val == (tosca.Value{}) {
				o.kind = tosca.StaticCall // as all interpreters do
			}
			creating := o.kind == tosca.Create || o.kind == tosca.Create2
			if p.Static && (creating || o.kind == tosca.Call && o.val != (tosca.Value{})) {
				return tosca.Result{}, nil
			}
			switch o.kind {
			case tosca.DelegateCall:
				cp.Sender, cp.Recipient, cp.Value = p.Sender, self, p.Value
				cp.CodeAddress = o.to
			case tosca.CallCode:
				cp.Recipient, cp.CodeAddress = self, o.to
			case tosca.StaticCall:
				cp.Value = tosca.Value{}
				cp.CodeAddress = o.to // the interpreters fill this in for all calls
			case tosca.Call:
				cp.CodeAddress = o.to
			case tosca.Create, tosca.Create2:
				cp.Recipient = tosca.Address{}
				cp.Salt = o.salt
			}
			pays := o.kind != tosca.StaticCall && o.kind != tosca.DelegateCall
			if pays && val(ctx.GetBalance(self)).Cmp(val(cp.Value)) < 0 && (creating || !o.overdraw) {
				continue
			}
			if creating && ctx.GetNonce(self) == 1<<64-1 {
				continue
			}
			gas -= cp.Gas
			before := w.state.clone()
			runs := w.runs
			in := bytes.Clone(cp.Input)
			res, err := ctx.Call(o.kind, cp)
			if err != nil {
				return tosca.Result{}, err
			}
			if !bytes.Equal(in, cp.Input) {
				w.fail("call.input", "the input of a call was modified", "P06")
			}
			w.judgeCall(o.kind, cp, res, before, w.runs > runs)
			h := hasher(8)
			h.u(flag8(res.Success))
			h.b(res.Output)
			h.u(uint64(res.GasLeft))
			h.u(uint64(res.GasRefund))
			if creating && res.Success {
				h.b(res.CreatedAddress[:])
			}
			e := event{name: "result", kind: o.kind, to: o.to, hash: uint64(h) + w.hash(false), fail: !res.Success}
			if w.verbose {
				e.text = fmt.Sprintf("success %v\noutput %x\ngasleft %d\nrefund %d\n", res.Success, short(string(res.Output)), res.GasLeft, res.GasRefund)
				if creating && res.Success {
					e.text += fmt.Sprintf("created %x\n", res.CreatedAddress[:])
				}
				e.text += w.digest(false)
			}
			w.record(e)
			gas += res.GasLeft
			refund += res.GasRefund // always zero in go-ethereum, which keeps count itself
		}
	}
	if gas -= tosca.Gas(sc.burn); gas < 0 {
		return tosca.Result{}, nil
	}
	switch sc.end {
	case 'r':
		return tosca.Result{Output: bytes.Clone(sc.out), GasLeft: gas, GasRefund: lost(refund + tosca.Gas(sc.back))}, nil
	case 'f':
		return tosca.Result{GasRefund: lost(refund + tosca.Gas(sc.back))}, nil
	case 'e':
		return tosca.Result{}, errInternal
	}
	return tosca.Result{Success: true, Output: bytes.Clone(sc.out), GasLeft: gas, GasRefund: refund + tosca.Gas(sc.back)}, nil
}

// A run that failed has no refund, but go-ethereum's bridge is to ignore it.
func lost(g tosca.Gas) tosca.Gas {
	if gethMode {
		return g
	}
	return 0
}

type finding struct {
	key, detail string
	props       []string
}

func (w *World) fail(key, detail string, props ...string) {
	if w.monitor && len(w.failure) < 10 {
		w.failure = append(w.failure, finding{key, detail, props})
	}
}

// judgeCall is the monitor at the boundary of a call: it knows the state before
// and after, and needs no reference.
func (w *World) judgeCall(kind tosca.CallKind, p tosca.CallParameters, r tosca.CallResult, before *state, ran bool) {
	if !w.monitor {
		return
	}
	w.stats["calls_judged"]++
	if r.GasLeft < 0 || r.GasLeft > p.Gas {
		w.fail("call.gas-bounds", fmt.Sprintf("%v call with %d gas returned %d", kind, p.Gas, r.GasLeft), "P04", "P06")
	}
	if r.Success {
		w.stats["calls_succeeded"]++
		return
	}
	w.stats["calls_failed"]++
	creating := kind == tosca.Create || kind == tosca.Create2
	want := before.clone()
	if creating {
		// the nonce of the creator stays incremented (calls too deep fail before that)
		if w.nonce[p.Sender] == want.nonce[p.Sender]+1 || ran {
			want.nonce[p.Sender]++
		}
	}
	if w.state.hash(false) == want.hash(false) {
		return
	}
	for _, d := range w.state.diff(want, true) {
		kind := fmt.Sprintf("%v", kind)
		if bytes.HasPrefix([]byte(d), []byte("warm")) {
			continue
		}
		w.fail("failed-call-leaves-trace:"+kind+":"+d[:bytes.IndexByte([]byte(d), ':')], "after a failed "+kind+" to "+fmt.Sprintf("%x", p.Recipient)+": "+d, "P04", "P07")
	}
}

// stateInput encodes a request to the state contract.
func stateInput(sel string, words ...[]byte) []byte {
	in := ref.UnhexBytes(sel)
	for _, w := range words {
		in = append(in, w...)
	}
	return in
}

func u64word(n uint64) []byte {
	b := make([]byte, 32)
	binary.BigEndian.PutUint64(b[24:], n)
	return b
}
