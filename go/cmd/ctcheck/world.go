package main

import (
	"fmt"
	"math/big"
	"math/rand"

	ct "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/evmgen"
	"verif/ref"
)

// world lets the reference machine run on a conformance state: registers are
// taken over, everything else is read and written through the state. The rules
// particular to these states: balances never change, nonces are zero, nested
// calls are answered from the journal, the caller is at depth zero, and there is
// one storage, whatever the account.
type world struct {
	s *st.State
	// keys and addresses that were touched, for the comparison
	keys  map[ct.U256]bool
	addrs map[tosca.Address]bool
}

func kOf(h ref.Hash) ct.U256 { return ct.NewU256FromBytes(h[:]...) }
func bOf(x ct.U256) *big.Int { w := x.Bytes32be(); return new(big.Int).SetBytes(w[:]) }
func hOf(x ct.U256) ref.Hash { return ref.Hash(x.Bytes32be()) }
func uOf(b *big.Int) ct.U256 { h := ref.ToHash(b); return ct.NewU256FromBytes(h[:]...) }
func (w *world) key(k ref.Hash) ct.U256 {
	u := kOf(k)
	w.keys[u] = true
	return u
}
func (w *world) addr(a ref.Addr) tosca.Address {
	w.addrs[tosca.Address(a)] = true
	return tosca.Address(a)
}

func (w *world) Balance(a ref.Addr) *big.Int { return bOf(w.s.Accounts.GetBalance(w.addr(a))) }
func (w *world) Code(a ref.Addr) []byte      { return w.s.Accounts.GetCode(w.addr(a)).ToBytes() }

// hostHashes makes the reference take code hashes from the state, as interpreters
// are given them, rather than computing them.
var hostHashes bool

func (w *world) CodeHash(a ref.Addr) ref.Hash {
	if hostHashes {
		return ref.Hash(w.s.Accounts.GetCodeHash(w.addr(a)))
	}
	return ref.Keccak256(w.s.Accounts.GetCode(w.addr(a)).ToBytes())
}
func (w *world) Empty(a ref.Addr) bool {
	return w.Balance(a).Sign() == 0 && w.s.Accounts.GetCode(w.addr(a)).Length() == 0
}
func (w *world) GetStorage(_ ref.Addr, k ref.Hash) ref.Hash {
	return hOf(w.s.Storage.GetCurrent(w.key(k)))
}
func (w *world) SetStorage(_ ref.Addr, k, v ref.Hash) ref.StorageStatus {
	cur, orig := w.GetStorage(ref.Addr{}, k), w.GetOriginal(ref.Addr{}, k)
	w.s.Storage.SetCurrent(w.key(k), kOf(v))
	return ref.Classify(orig, cur, v)
}
func (w *world) GetOriginal(_ ref.Addr, k ref.Hash) ref.Hash {
	return hOf(w.s.Storage.GetOriginal(w.key(k)))
}
func (w *world) GetTransient(_ ref.Addr, k ref.Hash) ref.Hash {
	return hOf(w.s.TransientStorage.Get(w.key(k)))
}
func (w *world) SetTransient(_ ref.Addr, k, v ref.Hash) {
	w.s.TransientStorage.Set(w.key(k), kOf(v))
}
func (w *world) AccessAddr(a ref.Addr) bool {
	t := w.addr(a)
	warm := w.s.Accounts.IsWarm(t)
	w.s.Accounts.MarkWarm(t)
	return warm
}
func (w *world) AccessSlot(_ ref.Addr, k ref.Hash) bool {
	t := w.key(k)
	warm := w.s.Storage.IsWarm(t)
	w.s.Storage.MarkWarm(t)
	return warm
}
func (w *world) Log(_ ref.Addr, topics []ref.Hash, data []byte) {
	t := []ct.U256{}
	for _, h := range topics {
		t = append(t, kOf(h))
	}
	w.s.Logs.Entries = append(w.s.Logs.Entries, st.LogEntry{Topics: t, Data: append([]byte{}, data...)})
}
func (w *world) SelfDestruct(a, b ref.Addr) bool {
	w.s.SelfDestructedJournal = append(w.s.SelfDestructedJournal, st.NewSelfDestructEntry(w.addr(a), w.addr(b)))
	first := !w.s.HasSelfDestructed
	w.s.HasSelfDestructed = true
	return first
}
func (w *world) BlockHash(n int64) ref.Hash {
	return ref.Hash(w.s.RecentBlockHashes.Get(w.s.BlockContext.BlockNumber - 1 - uint64(n)))
}
func (w *world) Call(m ref.Msg) ref.CallOutcome {
	kinds := map[ref.Kind]tosca.CallKind{ref.Call: tosca.Call, ref.DelegateCall: tosca.DelegateCall, ref.StaticCall: tosca.StaticCall,
		ref.CallCode: tosca.CallCode, ref.Create: tosca.Create, ref.Create2: tosca.Create2}
	p := st.PastCall{Kind: kinds[m.Kind], Sender: tosca.Address(m.Sender), Input: ct.NewBytes(m.Input), Value: tosca.Value(ref.ToHash(m.Value)), Gas: tosca.Gas(m.Gas)}
	if m.Kind == ref.StaticCall {
		p.Value = tosca.Value{}
	}
	if m.Kind != ref.Create && m.Kind != ref.Create2 {
		p.Recipient, p.CodeAddress = tosca.Address(m.Recipient), tosca.Address(m.CodeAddr)
	}
	w.s.CallJournal.Past = append(w.s.CallJournal.Past, p)
	f := st.FutureCall{}
	if l := w.s.CallJournal.Future; len(l) > 0 {
		f = l[0]
		w.s.CallJournal.Future = append([]st.FutureCall{}, l[1:]...)
	}
	left := max(0, m.Gas-int64(f.GasCosts))
	return ref.CallOutcome{Success: f.Success, GasLeft: left, Refund: int64(f.GasRefund), Output: f.Output.ToBytes(), Created: ref.Addr(f.CreatedAccount)}
}

// machine sets up the reference machine at a state. The state is cloned.
func machine(in *st.State) (*ref.VM, *world) {
	s := in.Clone()
	w := &world{s, map[ct.U256]bool{}, map[tosca.Address]bool{}}
	b, c := &s.BlockContext, &s.CallContext
	e := &ref.Env{Rev: int(s.Revision), Static: s.ReadOnly, Recipient: ref.Addr(c.AccountAddress), Sender: ref.Addr(c.CallerAddress),
		Input: s.CallData.ToBytes(), Value: bOf(c.Value), Code: s.Code.Copy(), Number: int64(b.BlockNumber), Timestamp: int64(b.TimeStamp),
		GasLimit: int64(b.GasLimit), Coinbase: ref.Addr(b.CoinBase), Origin: ref.Addr(s.TransactionContext.OriginAddress), PrevRandao: hOf(b.PrevRandao),
		ChainID: hOf(b.ChainID), BaseFee: hOf(b.BaseFee), BlobBaseFee: hOf(b.BlobBaseFee), GasPrice: hOf(b.GasPrice)}
	for _, h := range s.TransactionContext.BlobHashes {
		e.BlobHashes = append(e.BlobHashes, ref.Hash(h))
	}
	v := ref.NewVM(e, w, int64(s.Gas))
	v.PC, v.Refund, v.RetBuf = uint64(s.Pc), int64(s.GasRefund), s.LastCallReturnData.ToBytes()
	v.MaxMem = 1 << 20
	for i := s.Stack.Size() - 1; i >= 0; i-- {
		v.Stack = append(v.Stack, bOf(s.Stack.Get(i)))
	}
	v.Mem = append([]byte{}, s.Memory.Clone().Read(0, uint64(s.Memory.Size()))...)
	if s.Status != st.Running {
		v.Status = ref.Status(99) // does not move
	}
	return v, w
}

// state writes the registers back; the state is the one the machine ran on.
func (w *world) state(v *ref.VM) *st.State {
	s := w.s
	if v.Status == ref.Status(99) {
		return s
	}
	s.Pc, s.Gas, s.GasRefund = uint16(v.PC), tosca.Gas(v.Gas), tosca.Gas(v.Refund)
	stack := make([]ct.U256, len(v.Stack))
	for i, x := range v.Stack {
		stack[i] = uOf(x)
	}
	if len(stack) > st.MaxStackSize {
		stack = stack[:st.MaxStackSize]
	}
	s.Stack = st.NewStack(stack...)
	s.Memory = st.NewMemory(append([]byte{}, v.Mem...)...)
	s.LastCallReturnData = ct.NewBytes(v.RetBuf)
	switch v.Status {
	case ref.Running:
		s.Status = st.Running
	case ref.Stopped, ref.SelfDestructed:
		s.Status = st.Stopped
	case ref.Returned:
		s.Status = st.Stopped
		s.ReturnData = ct.NewBytes(v.Out)
	case ref.Reverted:
		s.Status = st.Reverted
		s.ReturnData = ct.NewBytes(v.Out)
	default:
		s.Status = st.Failed
	}
	return s
}

// stateOf turns a generated case into a conformance state at its start.
func stateOf(c *ref.Case, r *rand.Rand) *st.State {
	s := st.NewState(st.NewCode(c.Code))
	s.Stack = st.NewStack()
	s.Revision, s.ReadOnly, s.Gas = tosca.Revision(c.Rev), c.Static, tosca.Gas(c.Gas)
	sb := st.NewStorageBuilder()
	for k, v := range c.Storage {
		if k.A == c.Recipient {
			sb.SetCurrent(kOf(k.K), kOf(v.Cur))
			sb.SetOriginal(kOf(k.K), kOf(v.Orig))
		}
	}
	for k, v := range c.WarmSlot {
		if k.A == c.Recipient {
			sb.SetWarm(kOf(k.K), v)
		}
	}
	s.Storage = sb.Build()
	for k, v := range c.Transient {
		if k.A == c.Recipient {
			s.TransientStorage.Set(kOf(k.K), kOf(v))
		}
	}
	ab := st.NewAccountsBuilder()
	for a, x := range c.Accounts {
		ab.SetBalance(tosca.Address(a), uOf(x.Balance)).SetCode(tosca.Address(a), ct.NewBytes(x.Code))
	}
	for a, v := range c.WarmAddr {
		if v {
			ab.SetWarm(tosca.Address(a))
		}
	}
	s.Accounts = ab.Build()
	s.CallContext = st.CallContext{AccountAddress: tosca.Address(c.Recipient), CallerAddress: tosca.Address(c.Sender), Value: kOf(c.Value)}
	s.BlockContext = st.BlockContext{BaseFee: kOf(c.BaseFee), BlobBaseFee: kOf(c.BlobBaseFee), BlockNumber: uint64(c.Number), ChainID: kOf(c.ChainID),
		CoinBase: tosca.Address(c.Coinbase), GasLimit: uint64(c.GasLimit), GasPrice: kOf(c.GasPrice), PrevRandao: kOf(c.PrevRandao), TimeStamp: uint64(c.Timestamp)}
	s.CallData = ct.NewBytes(c.Input)
	s.TransactionContext.OriginAddress = tosca.Address(c.Origin)
	for _, h := range c.BlobHashes {
		s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, tosca.Hash(h))
	}
	s.HasSelfDestructed = c.Destroyed[c.Recipient]
	var hashes [256]tosca.Hash
	for i := range hashes {
		hashes[i] = tosca.Hash(ref.BlockHash(c.BlockHashSeed, int64(i)))
	}
	s.RecentBlockHashes = ct.NewImmutableHashArray(hashes[:]...)
	for _, p := range c.Replies {
		s.CallJournal.Future = append(s.CallJournal.Future, st.FutureCall{Success: p.Status == 0, Output: ct.NewBytes(p.Output),
			GasCosts: []tosca.Gas{0, 1, 2300, 5000, 1 << 40, tosca.Gas(r.Intn(100000))}[r.Intn(6)], GasRefund: tosca.Gas(p.Refund), CreatedAccount: tosca.Address(p.Created)})
	}
	// some history
	if r.Intn(3) == 0 {
		s.Logs.AddLog(blob(r, 5), small(r))
	}
	if r.Intn(3) == 0 {
		s.CallJournal.Past = append(s.CallJournal.Past, st.PastCall{Sender: addr(r), Gas: 5, Input: ct.NewBytes(blob(r, 4))})
	}
	if r.Intn(4) == 0 {
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(addr(r), addr(r)))
	}
	if r.Intn(3) == 0 {
		s.GasRefund = tosca.Gas(r.Intn(30000))
	}
	if r.Intn(3) == 0 {
		s.LastCallReturnData = ct.NewBytes(blob(r, 40))
	}
	return s
}

// universe lists the keys and addresses that a comparison has to look at.
type universe struct {
	keys  map[ct.U256]bool
	addrs map[tosca.Address]bool
	big   bool
}

func universeOf(c *ref.Case, w *world) universe {
	u := universe{keys: map[ct.U256]bool{}, addrs: map[tosca.Address]bool{}}
	if c != nil {
		for k := range c.Storage {
			u.keys[kOf(k.K)] = true
		}
		for k := range c.WarmSlot {
			u.keys[kOf(k.K)] = true
		}
		for k := range c.Transient {
			u.keys[kOf(k.K)] = true
		}
		for a := range c.Accounts {
			u.addrs[tosca.Address(a)] = true
		}
		for a := range c.WarmAddr {
			u.addrs[tosca.Address(a)] = true
		}
	}
	if w != nil {
		for k := range w.keys {
			u.keys[k] = true
		}
		for a := range w.addrs {
			u.addrs[a] = true
		}
	}
	return u
}

// differences compares two states component by component on a universe, without
// the state's own comparison.
func (u universe) differences(want, got *st.State) (res []string) {
	a, b := u.fingerprint(want), u.fingerprint(got)
	if a.same(b) {
		return nil
	}
	if a["status"] == "3" || b["status"] == "3" {
		return []string{fmt.Sprintf("status: %v vs %v", want.Status, got.Status)}
	}
	for _, k := range a.diff(b) {
		if a["status"] == "0" && k == "returndata" || a["status"] != "0" && internal[k] {
			continue
		}
		res = append(res, fmt.Sprintf("%s: want %s, got %s", k, clip(a[k]), clip(b[k])))
	}
	return
}

func clip(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			s = fmt.Sprintf("%x", s)
			break
		}
	}
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func newCase(g *evmgen.Gen, id int) *ref.Case { return g.Case(id) }
