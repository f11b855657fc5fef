// Package lfvmrun executes reference cases on implementations of the
// tosca.Interpreter interface and records what they do.
package lfvmrun

import (
	"bytes"
	"errors"
	"fmt"
	"runtime/debug"
	"slices"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/ref"
)

// Context adapts the scripted world to the run context interface.
type Context struct {
	W *ref.World
	C *ref.Case

	kept []kept // what was handed over for good, with how it looked then
}

type kept struct {
	what   string
	data   []byte
	topics []tosca.Hash
	was    []byte
	were   []tosca.Hash
}

func (x *Context) keep(what string, data []byte, topics []tosca.Hash) {
	x.kept = append(x.kept, kept{what, data, topics, append([]byte(nil), data...), append([]tosca.Hash(nil), topics...)})
}

// changed tells which of the outputs and logs handed over are no longer what
// they were.
func (x *Context) changed() (res []string) {
	for _, k := range x.kept {
		if !bytes.Equal(k.data, k.was) || !slices.Equal(k.topics, k.were) {
			res = append(res, fmt.Sprintf("MISUSE %s changed after it was handed over: %x %x, was %x %x", k.what, k.data, k.topics, k.was, k.were))
		}
	}
	return
}

func (x *Context) AccountExists(a tosca.Address) bool { return !x.W.Empty(ref.Addr(a)) }
func (x *Context) GetBalance(a tosca.Address) tosca.Value {
	return tosca.Value(ref.ToHash(x.W.Balance(ref.Addr(a))))
}
func (x *Context) misuse(f string, a ...any) {
	x.W.Events = append(x.W.Events, "MISUSE "+fmt.Sprintf(f, a...))
}
func (x *Context) SetBalance(a tosca.Address, v tosca.Value) { x.misuse("SetBalance %v %v", a, v) }
func (x *Context) GetNonce(a tosca.Address) uint64           { return x.W.Nonce(ref.Addr(a)) }
func (x *Context) SetNonce(a tosca.Address, n uint64)        { x.misuse("SetNonce %v %v", a, n) }
func (x *Context) GetCode(a tosca.Address) tosca.Code        { return x.W.Code(ref.Addr(a)) }
func (x *Context) GetCodeHash(a tosca.Address) tosca.Hash {
	return tosca.Hash(x.W.CodeHash(ref.Addr(a)))
}
func (x *Context) GetCodeSize(a tosca.Address) int        { return len(x.W.Code(ref.Addr(a))) }
func (x *Context) SetCode(a tosca.Address, c tosca.Code)  { x.misuse("SetCode %v %x", a, c) }
func (x *Context) CreateSnapshot() tosca.Snapshot         { return 0 }
func (x *Context) RestoreSnapshot(s tosca.Snapshot)       { x.misuse("RestoreSnapshot %v", s) }
func (x *Context) GetLogs() []tosca.Log                   { return nil }
func (x *Context) HasSelfDestructed(a tosca.Address) bool { return x.W.Destroyed[ref.Addr(a)] }
func (x *Context) GetStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return tosca.Word(x.W.GetStorage(ref.Addr(a), ref.Hash(k)))
}
func (x *Context) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return tosca.Word(x.W.GetOriginal(ref.Addr(a), ref.Hash(k)))
}

var statusMap = map[ref.StorageStatus]tosca.StorageStatus{
	ref.StAssigned: tosca.StorageAssigned, ref.StAdded: tosca.StorageAdded, ref.StDeleted: tosca.StorageDeleted, ref.StModified: tosca.StorageModified,
	ref.StDeletedAdded: tosca.StorageDeletedAdded, ref.StModifiedDeleted: tosca.StorageModifiedDeleted, ref.StDeletedRestored: tosca.StorageDeletedRestored,
	ref.StAddedDeleted: tosca.StorageAddedDeleted, ref.StModifiedRestored: tosca.StorageModifiedRestored,
}

func (x *Context) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	return statusMap[x.W.SetStorage(ref.Addr(a), ref.Hash(k), ref.Hash(v))]
}
func (x *Context) SelfDestruct(a tosca.Address, b tosca.Address) bool {
	return x.W.SelfDestruct(ref.Addr(a), ref.Addr(b))
}
func (x *Context) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return tosca.Word(x.W.GetTransient(ref.Addr(a), ref.Hash(k)))
}
func (x *Context) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	x.W.SetTransient(ref.Addr(a), ref.Hash(k), ref.Hash(v))
}
func (x *Context) AccessAccount(a tosca.Address) tosca.AccessStatus {
	return tosca.AccessStatus(x.W.AccessAddr(ref.Addr(a)))
}
func (x *Context) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	return tosca.AccessStatus(x.W.AccessSlot(ref.Addr(a), ref.Hash(k)))
}
func (x *Context) IsAddressInAccessList(a tosca.Address) bool { return x.W.WarmAddr[ref.Addr(a)] }
func (x *Context) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return x.W.WarmAddr[ref.Addr(a)], x.W.WarmSlot[ref.Slot{A: ref.Addr(a), K: ref.Hash(k)}]
}
func (x *Context) EmitLog(l tosca.Log) {
	ts := make([]ref.Hash, len(l.Topics))
	for i, t := range l.Topics {
		ts[i] = ref.Hash(t)
	}
	x.W.Log(ref.Addr(l.Address), ts, l.Data)
	x.keep("log", l.Data, l.Topics)
}
func (x *Context) GetBlockHash(n int64) tosca.Hash { return tosca.Hash(x.W.BlockHash(n)) }

var kindMap = map[tosca.CallKind]ref.Kind{
	tosca.Call: ref.Call, tosca.DelegateCall: ref.DelegateCall, tosca.StaticCall: ref.StaticCall, tosca.CallCode: ref.CallCode, tosca.Create: ref.Create, tosca.Create2: ref.Create2,
}

func (x *Context) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	k := kindMap[kind]
	create := k == ref.Create || k == ref.Create2
	m := ref.Msg{Kind: k, Static: !create && (x.C.Static || k == ref.StaticCall), Depth: x.C.Depth + 1, Gas: int64(p.Gas), Recipient: ref.Addr(p.Recipient), Sender: ref.Addr(p.Sender),
		CodeAddr: ref.Addr(p.CodeAddress), Value: p.Value.ToBig(), Input: p.Input, Salt: ref.Hash(p.Salt)}
	switch k {
	case ref.Call, ref.StaticCall:
		m.CodeAddr = m.Recipient // documented: relevant for delegate call and call code only
		if k == ref.StaticCall {
			m.Value = m.Value.SetInt64(0) // documented: ignored
		}
	}
	o := x.W.Call(m)
	if o.Err {
		return tosca.CallResult{}, errors.New("host failure")
	}
	// hand out private copies, the callee's buffers are not the caller's
	return tosca.CallResult{Output: append(tosca.Data(nil), o.Output...), GasLeft: tosca.Gas(o.GasLeft), GasRefund: tosca.Gas(o.Refund), CreatedAddress: tosca.Address(o.Created), Success: o.Success}, nil
}

// Params builds the parameters for a case.
func Params(c *ref.Case, ctx tosca.RunContext) tosca.Parameters {
	p := tosca.Parameters{
		BlockParameters: tosca.BlockParameters{
			ChainID: tosca.Word(c.ChainID), BlockNumber: c.Number, Timestamp: c.Timestamp, Coinbase: tosca.Address(c.Coinbase), GasLimit: tosca.Gas(c.GasLimit),
			PrevRandao: tosca.Hash(c.PrevRandao), BaseFee: tosca.Value(c.BaseFee), BlobBaseFee: tosca.Value(c.BlobBaseFee), Revision: tosca.Revision(c.Rev),
		},
		TransactionParameters: tosca.TransactionParameters{Origin: tosca.Address(c.Origin), GasPrice: tosca.Value(c.GasPrice)},
		Context:               ctx, Kind: tosca.Call, Static: c.Static, Depth: c.Depth, Gas: tosca.Gas(c.Gas), Recipient: tosca.Address(c.Recipient), Sender: tosca.Address(c.Sender),
		Input: append(tosca.Data(nil), c.Input...), Value: tosca.Value(c.Value), Code: append(tosca.Code(nil), c.Code...),
	}
	for _, h := range c.BlobHashes {
		p.BlobHashes = append(p.BlobHashes, tosca.Hash(h))
	}
	if c.CodeHash {
		h := tosca.Hash(c.CodeKey())
		p.CodeHash = &h
	}
	if c.Create {
		p.Kind = tosca.Create
	}
	return p
}

// Run executes the case and reports the outcome; panics are reported as status
// "panic".
func Run(ip tosca.Interpreter, c *ref.Case) (r ref.Result) {
	r, _ = RunKept(ip, c)
	return r
}

// RunKept is Run, and a function telling later whether what the run produced
// is still what it was.
func RunKept(ip tosca.Interpreter, c *ref.Case) (r ref.Result, changed func() []string) {
	w := ref.NewWorld(c)
	ctx := &Context{W: w, C: c}
	defer func() {
		if e := recover(); e != nil {
			changed = ctx.changed
			r = ref.Result{Status: "panic", Detail: fmt.Sprintf("%v\n%s", e, debug.Stack()), Events: w.Events}
		}
	}()
	p := Params(c, ctx)
	in, code := append([]byte(nil), p.Input...), append([]byte(nil), p.Code...)
	res, err := ip.Run(p)
	if err != nil {
		return ref.Result{Status: "error", Detail: err.Error(), Events: w.Events}, ctx.changed
	}
	ctx.keep("output", res.Output, nil)
	r = ref.Result{Gas: int64(res.GasLeft), Refund: int64(res.GasRefund), Output: append([]byte(nil), res.Output...), Events: w.Events}
	switch {
	case res.Success:
		r.Status = "success"
	case res.GasLeft == 0 && len(res.Output) == 0:
		r.Status, r.Detail = "fail", Unsuccessful // indistinguishable from a revert without gas and data
	default:
		r.Status = "revert"
	}
	if string(in) != string(p.Input) || string(code) != string(p.Code) {
		r.Events = append(r.Events, "MISUSE input or code modified")
	}
	r.Events = append(r.Events, ctx.changed()...)
	r.WarmAddrs, r.WarmSlots = w.WarmLists()
	return r, ctx.changed
}
