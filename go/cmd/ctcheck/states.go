package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	ct "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/rep"
)

// The states built here draw keys, addresses and values from small universes so
// that independent states often agree in a component, and a fingerprint taken
// through the public interface describes them completely.

var keys []ct.U256
var addrs []tosca.Address
var smallUniverse = universe{keys: map[ct.U256]bool{}, addrs: map[tosca.Address]bool{}}

func init() {
	for i := uint64(0); i < 4; i++ {
		keys = append(keys, ct.NewU256(i))
	}
	keys = append(keys, ct.MaxU256(), ct.NewU256(1, 0, 0, 0), ct.NewU256(0, 1, 0, 0))
	for _, k := range keys {
		addrs = append(addrs, ct.NewAddress(k))
	}
	addrs = append(addrs, tosca.Address{1})
	for _, k := range keys {
		smallUniverse.keys[k] = true
	}
	for _, a := range addrs {
		smallUniverse.addrs[a] = true
	}
}

// Large states use many keys and accounts, and every part of them is large.
var bigUniverse = universe{keys: map[ct.U256]bool{}, addrs: map[tosca.Address]bool{}, big: true}
var bigKeys []ct.U256
var bigAddrs []tosca.Address

func init() {
	for i := uint64(0); i < 50; i++ {
		bigKeys = append(bigKeys, ct.NewU256(i*i, 0, 0, i))
		bigAddrs = append(bigAddrs, ct.NewAddress(ct.NewU256(i, 7, i<<20)))
	}
	bigKeys = append(bigKeys, keys...)
	bigAddrs = append(bigAddrs, addrs...)
	for _, k := range bigKeys {
		bigUniverse.keys[k] = true
	}
	for _, a := range bigAddrs {
		bigUniverse.addrs[a] = true
	}
}

type mutator = struct {
	name string
	f    func(*st.State, *rand.Rand)
}

func bigKey(r *rand.Rand) ct.U256        { return bigKeys[r.Intn(len(bigKeys))] }
func bigAddr(r *rand.Rand) tosca.Address { return bigAddrs[r.Intn(len(bigAddrs))] }

// bulks change one entry of a large component, most likely one in its middle.
var bulks = []mutator{
	{"stack", func(s *st.State, r *rand.Rand) {
		if n := s.Stack.Size(); n > 0 {
			s.Stack.Set(r.Intn(n), small(r))
		}
	}},
	{"stack", func(s *st.State, r *rand.Rand) {
		for s.Stack.Size() < 1024 {
			s.Stack.Push(small(r))
		}
	}},
	{"memory", func(s *st.State, r *rand.Rand) { s.Memory.Write(blob(r, 3), uint64(r.Intn(9000))) }},
	{"storage.current", func(s *st.State, r *rand.Rand) { s.Storage.SetCurrent(bigKey(r), small(r)) }},
	{"storage.current", func(s *st.State, r *rand.Rand) { s.Storage.RemoveCurrent(bigKey(r)) }},
	{"storage.original", func(s *st.State, r *rand.Rand) { s.Storage.SetOriginal(bigKey(r), small(r)) }},
	{"storage.original", func(s *st.State, r *rand.Rand) { s.Storage.RemoveOriginal(bigKey(r)) }},
	{"storage.warm", func(s *st.State, r *rand.Rand) { s.Storage.MarkWarm(bigKey(r)) }},
	{"storage.warm", func(s *st.State, r *rand.Rand) { s.Storage.MarkCold(bigKey(r)) }},
	{"transient", func(s *st.State, r *rand.Rand) { s.TransientStorage.Set(bigKey(r), small(r)) }},
	{"accounts.balance", func(s *st.State, r *rand.Rand) { s.Accounts.SetBalance(bigAddr(r), small(r)) }},
	{"accounts.warm", func(s *st.State, r *rand.Rand) { s.Accounts.MarkWarm(bigAddr(r)) }},
	{"logs", func(s *st.State, r *rand.Rand) {
		if n := len(s.Logs.Entries); n > 0 {
			if e := &s.Logs.Entries[r.Intn(n)]; len(e.Data) > 0 {
				e.Data[r.Intn(len(e.Data))] ^= 1
			}
		}
	}},
	{"logs", func(s *st.State, r *rand.Rand) { s.Logs.AddLog(blob(r, 2000), small(r)) }},
	{"journal", func(s *st.State, r *rand.Rand) {
		if n := len(s.CallJournal.Past); n > 0 {
			s.CallJournal.Past[r.Intn(n)].Gas++
		}
	}},
	{"journal", func(s *st.State, r *rand.Rand) {
		if n := len(s.CallJournal.Future); n > 0 {
			s.CallJournal.Future[r.Intn(n)].GasCosts++
		}
	}},
	{"journal", func(s *st.State, r *rand.Rand) {
		s.CallJournal.Call(tosca.CallKind(r.Intn(6)), tosca.CallParameters{Sender: addr(r), Input: blob(r, 500)})
	}},
	{"sdjournal", func(s *st.State, r *rand.Rand) {
		if n := len(s.SelfDestructedJournal); n > 0 {
			s.SelfDestructedJournal[r.Intn(n)] = st.NewSelfDestructEntry(bigAddr(r), bigAddr(r))
		}
	}},
	{"blobhashes", func(s *st.State, r *rand.Rand) {
		if n := len(s.TransactionContext.BlobHashes); n > 0 {
			s.TransactionContext.BlobHashes[r.Intn(n)][r.Intn(32)]++
		}
	}},
	{"hashes", func(s *st.State, r *rand.Rand) {
		h := make([]tosca.Hash, 256)
		for i := range h {
			h[i] = s.RecentBlockHashes.Get(uint64(i))
		}
		h[r.Intn(256)][r.Intn(32)]++
		s.RecentBlockHashes = ct.NewImmutableHashArray(h...)
	}},
	{"code", func(s *st.State, r *rand.Rand) {
		c := s.Code.Copy()
		if len(c) > 0 {
			c[r.Intn(len(c))]++
		}
		s.Code = st.NewCode(c)
	}},
	{"calldata", func(s *st.State, r *rand.Rand) { s.CallData = ct.NewBytes(blob(r, 5000)) }},
	{"lastreturndata", func(s *st.State, r *rand.Rand) { s.LastCallReturnData = ct.NewBytes(blob(r, 5000)) }},
	{"returndata", func(s *st.State, r *rand.Rand) { s.ReturnData = ct.NewBytes(blob(r, 5000)) }},
}

// bulk makes every component large.
func bulk(s *st.State, r *rand.Rand) {
	for n := []int{200, 1000, 1023, 1024}[r.Intn(4)]; s.Stack.Size() < n; {
		s.Stack.Push(small(r))
	}
	s.Memory.Grow(0, uint64(r.Intn(20000)))
	s.CallData = ct.NewBytes(blob(r, 5000))
	c := make([]byte, r.Intn(24577))
	r.Read(c)
	s.Code = st.NewCode(c)
	s.Pc = uint16(r.Intn(len(c) + 2))
	for i := 0; i < 60; i++ {
		s.Storage.SetCurrent(bigKey(r), small(r))
		s.Storage.SetOriginal(bigKey(r), small(r))
		s.Storage.MarkWarm(bigKey(r))
		s.TransientStorage.Set(bigKey(r), small(r))
		s.Accounts.SetBalance(bigAddr(r), small(r))
		s.Accounts.MarkWarm(bigAddr(r))
		s.CallJournal.Call(tosca.CallKind(r.Intn(6)), tosca.CallParameters{Sender: addr(r), Value: value(r), Input: blob(r, 300)})
		s.CallJournal.Future = append(s.CallJournal.Future, st.FutureCall{Success: r.Intn(2) == 0, Output: ct.NewBytes(blob(r, 300)), GasCosts: gas(r)})
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(bigAddr(r), bigAddr(r)))
		s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, hash(r), hash(r))
	}
	for i := 0; i < 20; i++ {
		s.Logs.AddLog(blob(r, 2000), small(r), small(r))
	}
}

func small(r *rand.Rand) ct.U256 {
	switch r.Intn(8) {
	case 0, 1, 2:
		return ct.NewU256(0)
	case 3, 4:
		return ct.NewU256(1)
	case 5:
		return ct.NewU256(2, 0, 0, 0)
	case 6:
		return ct.MaxU256()
	}
	return ct.NewU256(r.Uint64(), r.Uint64(), r.Uint64(), r.Uint64())
}
func key(r *rand.Rand) ct.U256        { return keys[r.Intn(len(keys))] }
func addr(r *rand.Rand) tosca.Address { return addrs[r.Intn(len(addrs))] }
func value(r *rand.Rand) (v tosca.Value) {
	v[31] = byte(r.Intn(2))
	v[0] = byte(r.Intn(8) / 7)
	return
}
func blob(r *rand.Rand, n int) []byte {
	b := make([]byte, r.Intn(n+1))
	for i := range b {
		b[i] = byte(r.Intn(3))
	}
	return b
}
func hash(r *rand.Rand) (h tosca.Hash) {
	h[r.Intn(2)*31] = byte(r.Intn(3))
	return
}
func num(r *rand.Rand) uint64 {
	return []uint64{0, 1, 2, math.MaxUint64, 1 << 63, r.Uint64()}[r.Intn(6)]
}
func gas(r *rand.Rand) tosca.Gas {
	return []tosca.Gas{0, 1, 2, math.MaxInt64, -1, tosca.Gas(r.Uint64())}[r.Intn(6)]
}

func code(r *rand.Rand) []byte {
	c := make([]byte, r.Intn(4))
	for i := range c {
		c[i] = []byte{0, 1, 0x5b, 0x60, 0x7f}[r.Intn(5)]
	}
	if r.Intn(10) == 0 {
		c = append(c, make([]byte, r.Intn(600))...)
	}
	return c
}

// mutators change one component each, many of them in place, where a copy that
// shares memory with its origin would show.
var mutators = []struct {
	name string
	f    func(*st.State, *rand.Rand)
}{
	{"status", func(s *st.State, r *rand.Rand) { s.Status = st.StatusCode(r.Intn(4)) }},
	{"revision", func(s *st.State, r *rand.Rand) { s.Revision = tosca.Revision(r.Intn(7)) }},
	{"readonly", func(s *st.State, r *rand.Rand) { s.ReadOnly = !s.ReadOnly }},
	{"pc", func(s *st.State, r *rand.Rand) {
		s.Pc = []uint16{0, 1, 2, 3, math.MaxUint16, uint16(s.Code.Length()), uint16(s.Code.Length()) + 1, uint16(s.Code.Length()) - 1}[r.Intn(8)]
	}},
	{"gas", func(s *st.State, r *rand.Rand) { s.Gas = gas(r) }},
	{"refund", func(s *st.State, r *rand.Rand) { s.GasRefund = gas(r) }},
	{"code", func(s *st.State, r *rand.Rand) { s.Code = st.NewCode(code(r)) }},
	{"stack", func(s *st.State, r *rand.Rand) {
		if s.Stack.Size() < st.MaxStackSize {
			s.Stack.Push(small(r))
		}
	}},
	{"stack", func(s *st.State, r *rand.Rand) {
		if s.Stack.Size() > 0 {
			s.Stack.Pop()
		}
	}},
	{"stack", func(s *st.State, r *rand.Rand) {
		if s.Stack.Size() > 0 {
			s.Stack.Set(r.Intn(s.Stack.Size()), small(r))
		}
	}},
	{"stack", func(s *st.State, r *rand.Rand) {
		s.Stack.Resize(r.Intn(s.Stack.Size() + 1))
	}},
	{"stack", func(s *st.State, r *rand.Rand) {
		v := make([]ct.U256, r.Intn(4))
		for i := range v {
			v[i] = small(r)
		}
		s.Stack = st.NewStack(v...)
	}},
	{"memory", func(s *st.State, r *rand.Rand) { s.Memory.Write(blob(r, 40), uint64(r.Intn(70))) }},
	{"memory", func(s *st.State, r *rand.Rand) { s.Memory.Grow(uint64(r.Intn(70)), uint64(r.Intn(40))) }},
	{"memory", func(s *st.State, r *rand.Rand) { s.Memory.Set(blob(r, 70)) }},
	{"memory", func(s *st.State, r *rand.Rand) { s.Memory.Append(blob(r, 40)) }},
	{"memory", func(s *st.State, r *rand.Rand) {
		if b := s.Memory.Read(uint64(r.Intn(70)), uint64(r.Intn(40))); len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(3))
		}
	}},
	{"memory", func(s *st.State, r *rand.Rand) { s.Memory.Hash(uint64(r.Intn(70)), uint64(r.Intn(40))) }},
	{"storage.current", func(s *st.State, r *rand.Rand) { s.Storage.SetCurrent(key(r), small(r)) }},
	{"storage.current", func(s *st.State, r *rand.Rand) { s.Storage.RemoveCurrent(key(r)) }},
	{"storage.original", func(s *st.State, r *rand.Rand) { s.Storage.SetOriginal(key(r), small(r)) }},
	{"storage.original", func(s *st.State, r *rand.Rand) { s.Storage.RemoveOriginal(key(r)) }},
	{"storage.warm", func(s *st.State, r *rand.Rand) { s.Storage.MarkWarm(key(r)) }},
	{"storage.warm", func(s *st.State, r *rand.Rand) { s.Storage.MarkCold(key(r)) }},
	{"storage", func(s *st.State, r *rand.Rand) {
		b := st.NewStorageBuilder()
		for i := r.Intn(4); i > 0; i-- {
			b.SetCurrent(key(r), small(r)).SetOriginal(key(r), small(r)).SetWarm(key(r), r.Intn(2) == 0)
		}
		s.Storage = b.Build()
	}},
	{"transient", func(s *st.State, r *rand.Rand) { s.TransientStorage.Set(key(r), small(r)) }},
	{"accounts.balance", func(s *st.State, r *rand.Rand) { s.Accounts.SetBalance(addr(r), small(r)) }},
	{"accounts.warm", func(s *st.State, r *rand.Rand) { s.Accounts.MarkWarm(addr(r)) }},
	{"accounts", func(s *st.State, r *rand.Rand) {
		b := st.NewAccountsBuilder()
		for i := r.Intn(4); i > 0; i-- {
			switch r.Intn(3) {
			case 0:
				b.SetBalance(addr(r), small(r))
			case 1:
				b.SetCode(addr(r), ct.NewBytes(blob(r, 3)))
			case 2:
				b.SetWarm(addr(r))
			}
		}
		s.Accounts = b.Build()
	}},
	{"logs", func(s *st.State, r *rand.Rand) {
		t := make([]ct.U256, r.Intn(5))
		for i := range t {
			t[i] = small(r)
		}
		s.Logs.AddLog(blob(r, 5), t...)
	}},
	{"logs", func(s *st.State, r *rand.Rand) {
		if n := len(s.Logs.Entries); n > 0 {
			if e := &s.Logs.Entries[r.Intn(n)]; len(e.Data) > 0 {
				e.Data[r.Intn(len(e.Data))] ^= 1
			} else if len(e.Topics) > 0 {
				e.Topics[r.Intn(len(e.Topics))] = small(r)
			}
		}
	}},
	{"logs", func(s *st.State, r *rand.Rand) {
		if n := len(s.Logs.Entries); n > 0 {
			if e := &s.Logs.Entries[r.Intn(n)]; len(e.Topics) > 0 {
				e.Topics[r.Intn(len(e.Topics))] = small(r)
			}
		}
	}},
	{"logs", func(s *st.State, r *rand.Rand) {
		if n := len(s.Logs.Entries); n > 0 {
			s.Logs.Entries = s.Logs.Entries[:n-1]
		}
	}},
	{"callcontext.account", func(s *st.State, r *rand.Rand) { s.CallContext.AccountAddress = addr(r) }},
	{"callcontext.caller", func(s *st.State, r *rand.Rand) { s.CallContext.CallerAddress = addr(r) }},
	{"callcontext.value", func(s *st.State, r *rand.Rand) { s.CallContext.Value = small(r) }},
	{"journal", func(s *st.State, r *rand.Rand) {
		s.CallJournal.Call(tosca.CallKind(r.Intn(6)), tosca.CallParameters{Sender: addr(r), Recipient: addr(r), Value: value(r), Input: blob(r, 4), Gas: gas(r), CodeAddress: addr(r)})
	}},
	{"journal", func(s *st.State, r *rand.Rand) {
		s.CallJournal.Future = append(s.CallJournal.Future, st.FutureCall{Success: r.Intn(2) == 0, Output: ct.NewBytes(blob(r, 4)), GasCosts: gas(r), GasRefund: gas(r), CreatedAccount: addr(r)})
	}},
	{"journal", func(s *st.State, r *rand.Rand) {
		if n := len(s.CallJournal.Future); n > 0 {
			f := &s.CallJournal.Future[r.Intn(n)]
			switch r.Intn(5) {
			case 0:
				f.Success = !f.Success
			case 1:
				f.Output = ct.NewBytes(blob(r, 4))
			case 2:
				f.GasCosts = gas(r)
			case 3:
				f.GasRefund = gas(r)
			case 4:
				f.CreatedAccount = addr(r)
			}
		}
	}},
	{"journal", func(s *st.State, r *rand.Rand) {
		if n := len(s.CallJournal.Past); n > 0 {
			p := &s.CallJournal.Past[r.Intn(n)]
			switch r.Intn(7) {
			case 0:
				p.Kind = tosca.CallKind(r.Intn(6))
			case 1:
				p.Recipient = addr(r)
			case 2:
				p.Sender = addr(r)
			case 3:
				p.Input = ct.NewBytes(blob(r, 4))
			case 4:
				p.Value = value(r)
			case 5:
				p.Gas = gas(r)
			case 6:
				p.CodeAddress = addr(r)
			}
		}
	}},
	{"block.basefee", func(s *st.State, r *rand.Rand) { s.BlockContext.BaseFee = small(r) }},
	{"block.blobbasefee", func(s *st.State, r *rand.Rand) { s.BlockContext.BlobBaseFee = small(r) }},
	{"block.number", func(s *st.State, r *rand.Rand) { s.BlockContext.BlockNumber = num(r) }},
	{"block.chainid", func(s *st.State, r *rand.Rand) { s.BlockContext.ChainID = small(r) }},
	{"block.coinbase", func(s *st.State, r *rand.Rand) { s.BlockContext.CoinBase = addr(r) }},
	{"block.gaslimit", func(s *st.State, r *rand.Rand) { s.BlockContext.GasLimit = num(r) }},
	{"block.gasprice", func(s *st.State, r *rand.Rand) { s.BlockContext.GasPrice = small(r) }},
	{"block.prevrandao", func(s *st.State, r *rand.Rand) { s.BlockContext.PrevRandao = small(r) }},
	{"block.timestamp", func(s *st.State, r *rand.Rand) { s.BlockContext.TimeStamp = num(r) }},
	{"calldata", func(s *st.State, r *rand.Rand) { s.CallData = ct.NewBytes(blob(r, 3)) }},
	{"lastreturndata", func(s *st.State, r *rand.Rand) { s.LastCallReturnData = ct.NewBytes(blob(r, 3)) }},
	{"returndata", func(s *st.State, r *rand.Rand) { s.ReturnData = ct.NewBytes(blob(r, 3)) }},
	{"selfdestructed", func(s *st.State, r *rand.Rand) { s.HasSelfDestructed = !s.HasSelfDestructed }},
	{"sdjournal", func(s *st.State, r *rand.Rand) {
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(addr(r), addr(r)))
	}},
	{"sdjournal", func(s *st.State, r *rand.Rand) {
		if n := len(s.SelfDestructedJournal); n > 0 {
			s.SelfDestructedJournal[r.Intn(n)] = st.NewSelfDestructEntry(addr(r), addr(r))
		}
	}},
	{"sdjournal", func(s *st.State, r *rand.Rand) {
		if n := len(s.SelfDestructedJournal); n > 0 {
			s.SelfDestructedJournal = s.SelfDestructedJournal[:n-1]
		}
	}},
	{"hashes", func(s *st.State, r *rand.Rand) {
		h := make([]tosca.Hash, r.Intn(257))
		for i := 0; i < 3 && len(h) > 0; i++ {
			h[r.Intn(len(h))] = hash(r)
		}
		s.RecentBlockHashes = ct.NewImmutableHashArray(h...)
	}},
	{"hashes", func(s *st.State, r *rand.Rand) { s.RecentBlockHashes = ct.ImmutableHashArray{} }},
	{"hashes", func(s *st.State, r *rand.Rand) { s.RecentBlockHashes = ct.NewImmutableHashArray(hash(r)) }},
	{"origin", func(s *st.State, r *rand.Rand) { s.TransactionContext.OriginAddress = addr(r) }},
	{"blobhashes", func(s *st.State, r *rand.Rand) {
		s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, hash(r))
	}},
	{"blobhashes", func(s *st.State, r *rand.Rand) {
		if n := len(s.TransactionContext.BlobHashes); n > 0 {
			s.TransactionContext.BlobHashes[r.Intn(n)] = hash(r)
		}
	}},
	{"blobhashes", func(s *st.State, r *rand.Rand) {
		if n := len(s.TransactionContext.BlobHashes); n > 0 {
			s.TransactionContext.BlobHashes = s.TransactionContext.BlobHashes[:n-1]
		}
	}},
}

// observations that must not change what is observed
var observers = []func(*st.State){
	func(s *st.State) { _ = s.String() },
	func(s *st.State) { s.Code.Hash(); s.Code.ToHumanReadableString(int(s.Pc), 5) },
	func(s *st.State) { s.Eq(s.Clone()) },
	func(s *st.State) { s.Diff(s) },
	func(s *st.State) { s.Memory.ExpansionCosts(ct.NewU256(3000), ct.NewU256(7)) },
}

// print is a fingerprint: every component by name.
type print map[string]string

var internal = map[string]bool{"pc": true, "stack": true, "memory": true, "lastreturndata": true}

func fingerprint(s *st.State) print { return smallUniverse.fingerprint(s) }

func (u universe) fingerprint(s *st.State) print {
	f := print{}
	p := func(k string, v any) { f[k] = fmt.Sprintf("%v", v) }
	p("status", int(s.Status))
	p("revision", int(s.Revision))
	p("readonly", s.ReadOnly)
	p("pc", s.Pc)
	p("codelen", s.Code.Length())
	p("gas", int64(s.Gas))
	p("refund", int64(s.GasRefund))
	f["code"] = string(s.Code.Copy())
	b := []byte{}
	for i := 0; i < s.Stack.Size(); i++ {
		w := s.Stack.Get(i).Bytes32be()
		b = append(b, w[:]...)
	}
	f["stack"] = string(b)
	f["memory"] = string(s.Memory.Clone().Read(0, uint64(s.Memory.Size())))
	for k := range u.keys {
		n := k.String()
		p("storage.current."+n, s.Storage.GetCurrent(k))
		p("storage.original."+n, s.Storage.GetOriginal(k))
		p("storage.warm."+n, s.Storage.IsWarm(k))
		p("transient."+n, s.TransientStorage.Get(k))
	}
	for a := range u.addrs {
		n := fmt.Sprintf("%x", a)
		p("accounts.exists."+n, s.Accounts.Exists(a))
		p("accounts.balance."+n, s.Accounts.GetBalance(a))
		p("accounts.code."+n, s.Accounts.GetCode(a))
		p("accounts.warm."+n, s.Accounts.IsWarm(a))
	}
	p("logs.count", len(s.Logs.Entries))
	for i, l := range s.Logs.Entries {
		p(fmt.Sprintf("logs.%d", i), fmt.Sprint(l.Topics, l.Data))
	}
	p("callcontext.account", s.CallContext.AccountAddress)
	p("callcontext.caller", s.CallContext.CallerAddress)
	p("callcontext.value", s.CallContext.Value)
	for i, c := range s.CallJournal.Past {
		p(fmt.Sprintf("journal.past.%d", i), fmt.Sprintf("%d %x %x %x %x %d %x", c.Kind, c.Recipient, c.Sender, c.Input.ToBytes(), c.Value[:], c.Gas, c.CodeAddress))
	}
	for i, c := range s.CallJournal.Future {
		p(fmt.Sprintf("journal.future.%d", i), fmt.Sprintf("%t %x %d %d %x", c.Success, c.Output.ToBytes(), c.GasCosts, c.GasRefund, c.CreatedAccount))
	}
	c := &s.BlockContext
	p("block.basefee", c.BaseFee)
	p("block.blobbasefee", c.BlobBaseFee)
	p("block.number", c.BlockNumber)
	p("block.chainid", c.ChainID)
	p("block.coinbase", c.CoinBase)
	p("block.gaslimit", c.GasLimit)
	p("block.gasprice", c.GasPrice)
	p("block.prevrandao", c.PrevRandao)
	p("block.timestamp", c.TimeStamp)
	p("calldata", s.CallData)
	p("lastreturndata", s.LastCallReturnData)
	p("returndata", s.ReturnData)
	p("selfdestructed", s.HasSelfDestructed)
	p("sdjournal.count", len(s.SelfDestructedJournal))
	for i, e := range s.SelfDestructedJournal {
		p(fmt.Sprintf("sdjournal.%d", i), fmt.Sprintf("%+v", e))
	}
	h := uint64(14695981039346656037)
	for i := uint64(0); i < 256; i++ {
		x := s.RecentBlockHashes.Get(i)
		for _, c := range x {
			h = (h ^ uint64(c)) * 1099511628211
		}
	}
	p("hashes", h)
	p("origin", s.TransactionContext.OriginAddress)
	p("blobhashes", fmt.Sprintf("%d %x", len(s.TransactionContext.BlobHashes), s.TransactionContext.BlobHashes))
	return f
}

func (a print) diff(b print) (res []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			res = append(res, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			res = append(res, k)
		}
	}
	return
}

// same says whether two states are alike as far as their status makes it matter.
func (a print) same(b print) bool {
	if a["status"] != b["status"] {
		return false
	}
	if a["status"] == "3" {
		return true
	}
	for _, k := range a.diff(b) {
		switch {
		case a["status"] == "0" && k == "returndata":
		case a["status"] != "0" && internal[k]:
		case k == "pc":
			var pa, pb, n int
			fmt.Sscan(a["pc"], &pa)
			fmt.Sscan(b["pc"], &pb)
			fmt.Sscan(a["codelen"], &n)
			if pa < n || pb < n {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (a print) hash() uint64 {
	h := uint64(0)
	for k, v := range a {
		h += rep.Fnv(k, v)
	}
	return h
}

func freshState(r *rand.Rand) *st.State {
	s := st.NewState(st.NewCode(code(r)))
	for i := r.Intn(60); i > 0; i-- {
		mutators[r.Intn(len(mutators))].f(s, r)
	}
	return s
}

type tracked struct {
	s *st.State
	f print
}

func copies() {
	rep.Parallel(8, func(w int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(w)))
		for i := 0; i < scale(150, 8000); i++ {
			u := smallUniverse
			if i%10 == 7 {
				u = bigUniverse
			}
			R.Guard("copies", func() { copyHistory(r, u) })
		}
	})
}

func copyHistory(r *rand.Rand, u universe) {
	fingerprint := u.fingerprint
	pool := []*tracked{}
	add := func(s *st.State) *tracked {
		t := &tracked{s, fingerprint(s)}
		pool = append(pool, t)
		return t
	}
	history := []string{}
	for i := 0; i < 2; i++ {
		s := freshState(r)
		if u.big {
			bulk(s, r)
			R.Add("large_states", 1)
		}
		if r.Intn(3) > 0 {
			s.Status = st.Running
		}
		add(s)
	}
	log := func(f string, a ...any) { history = append(history, fmt.Sprintf(f, a...)) }
	bad := func(key, f string, a ...any) {
		R.Violation(key, fmt.Sprintf(f, a...)+"\nafter "+strings.Join(history[max(0, len(history)-12):], "; "), "")
	}
	check := func(what string, touched *tracked) {
		for i, t := range pool {
			if t == touched {
				continue
			}
			R.Add("unchanged_states_checked", 1)
			if d := t.f.diff(fingerprint(t.s)); len(d) > 0 {
				bad("state:shared:"+part(d[0]), "%s changed %v of state %d, which was not touched", what, d, i)
				t.f = fingerprint(t.s)
			}
		}
	}
	compare := func(a, b *tracked) {
		want := a.f.same(b.f)
		d := a.f.diff(b.f)
		eq, qe := a.s.Eq(b.s), b.s.Eq(a.s)
		diff := a.s.Diff(b.s)
		R.Add("comparisons", 1)
		if want {
			R.Add("comparisons_of_equal_states", 1)
			if len(d) > 0 {
				R.Add("comparisons_of_equal_states_with_irrelevant_differences", 1)
			}
		} else if len(d) == 1 || (len(d) == 2 && strings.HasPrefix(d[0], "code")) {
			R.Add("comparisons_with_one_component_different", 1)
		}
		if eq != want || qe != want {
			site := "none"
			if len(d) > 0 {
				site = part(d[0])
			}
			bad("state:eq:"+site, "Eq = %t, reversed %t, want %t; status %s, components that differ: %v", eq, qe, want, a.f["status"], d)
		}
		if len(d) == 0 && len(diff) > 0 {
			bad("state:diff-of-alike", "states that are alike have differences %q", diff)
		}
		if !want && len(diff) == 0 {
			bad("state:diff-missing:"+part(d[0]), "states that differ in %v have no differences listed", d)
		}
	}
	for step := 0; step < 60; step++ {
		R.Eval(1)
		t := pool[r.Intn(len(pool))]
		switch n := r.Intn(12); {
		case n < 3:
			log("clone")
			c := &tracked{t.s.Clone(), nil}
			c.f = fingerprint(c.s)
			R.Add("clones", 1)
			if d := t.f.diff(c.f); len(d) > 0 {
				bad("state:clone:"+part(d[0]), "clone differs in %v", d)
			}
			if !c.s.Eq(t.s) || !t.s.Eq(c.s) || len(c.s.Diff(t.s)) > 0 {
				bad("state:clone-eq", "clone is not equal: %v", c.s.Diff(t.s))
			}
			check("cloning", nil)
			if len(pool) < 6 {
				pool = append(pool, c)
			} else {
				i := r.Intn(len(pool))
				if r.Intn(2) == 0 {
					pool[i].s.Release()
				}
				pool[i] = c
			}
		case n < 9:
			m := mutators[r.Intn(len(mutators))]
			if u.big && r.Intn(3) == 0 {
				m = bulks[r.Intn(len(bulks))]
			}
			log("%s", m.name)
			m.f(t.s, r)
			old := t.f
			t.f = fingerprint(t.s)
			for _, k := range old.diff(t.f) {
				if !strings.HasPrefix(k, m.name) && !(m.name == "code" && k == "codelen") && !(strings.HasPrefix(m.name, "accounts") && strings.HasPrefix(k, "accounts")) {
					bad("state:side-effect:"+part(k), "setting %s changed %s", m.name, k)
				}
			}
			R.Add("mutations", 1)
			R.Distinct(t.f.hash())
			check("setting "+m.name, t)
		case n < 10:
			log("observe")
			observers[r.Intn(len(observers))](t.s)
			check("observing", nil)
		default:
			compare(t, pool[r.Intn(len(pool))])
		}
		if len(pool) > 1 && r.Intn(4) == 0 {
			a, b := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			compare(a, b)
		}
	}
	// A pair that differs by one mutation.
	for i := 0; i < 25; i++ {
		R.Eval(1)
		t := pool[r.Intn(len(pool))]
		c := &tracked{t.s.Clone(), nil}
		if r.Intn(2) == 0 {
			c.s.Status = st.Running
			t = &tracked{c.s.Clone(), nil}
			t.f = fingerprint(t.s)
		}
		m := mutators[r.Intn(len(mutators))]
		if u.big && r.Intn(2) == 0 {
			m = bulks[r.Intn(len(bulks))]
		}
		m.f(c.s, r)
		log("pair by %s", m.name)
		c.f = fingerprint(c.s)
		compare(t, c)
	}
}

func part(k string) string {
	if p := strings.Split(k, "."); len(p) > 1 {
		return p[0] + "." + p[1]
	}
	return k
}

func files() {
	dir, err := os.MkdirTemp("", "ctfiles")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	rep.Parallel(8, func(w int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(w)))
		for i := 0; i < scale(400, 20000); i++ {
			u := smallUniverse
			if i%10 == 7 {
				u = bigUniverse
			}
			R.Guard("files", func() { fileCase(r, u, filepath.Join(dir, fmt.Sprintf("s%d.json", w))) })
		}
	})
}

func fileCase(r *rand.Rand, u universe, path string) {
	fingerprint := u.fingerprint
	s := freshState(r)
	if u.big {
		bulk(s, r)
		R.Add("large_states", 1)
	}
	f := fingerprint(s)
	R.Eval(1)
	R.Distinct(f.hash())
	if err := st.ExportStateJSON(s, path); err != nil {
		R.Violation("file:export", err.Error(), "")
		return
	}
	if d := f.diff(fingerprint(s)); len(d) > 0 {
		R.Violation("file:export-changes:"+part(d[0]), fmt.Sprint("writing changed ", d), "")
	}
	for i := r.Intn(10); i > 0; i-- {
		mutators[r.Intn(len(mutators))].f(s, r)
	}
	b, err := st.ImportStateJSON(path)
	if err != nil {
		R.Violation("file:import", err.Error(), "")
		return
	}
	g := fingerprint(b)
	R.Add("states_read_back", 1)
	for k := range f {
		R.Max("components", int64(len(f)))
		if f[k] != g[k] {
			R.Violation("file:"+part(k), fmt.Sprintf("%s: written %q, read %q", k, f[k], g[k]), "")
		}
	}
	if d := f.diff(g); len(d) > 0 {
		R.Violation("file:"+part(d[0]), fmt.Sprint("read back different: ", d), "")
	}
	// A second reading is independent of changes to the first; a copy equals it.
	c, err := st.ImportStateJSON(path)
	if err != nil || !c.Eq(b) || len(c.Diff(b)) > 0 {
		R.Violation("file:reread", "two readings differ", "")
		return
	}
	for i := 0; i < 10; i++ {
		mutators[r.Intn(len(mutators))].f(b, r)
	}
	if d := f.diff(fingerprint(c)); len(d) > 0 {
		R.Violation("file:shared:"+part(d[0]), fmt.Sprint("changing one reading changed the other: ", d), "")
	}
	// what was read can be written and read again, with the same text
	path2 := path + "2"
	old, err1 := os.ReadFile(path)
	err2 := st.ExportStateJSON(c, path2)
	again, err3 := os.ReadFile(path2)
	if err1 != nil || err2 != nil || err3 != nil {
		R.Violation("file:rewrite", fmt.Sprint(err1, err2, err3), "")
	}
	d, err := st.ImportStateJSON(path2)
	if err != nil || len(f.diff(fingerprint(d))) > 0 {
		R.Violation("file:rewrite", "second generation differs", "")
	}
	if string(old) == string(again) {
		R.Add("rewritten_identically", 1)
	}
	// damage: a truncated or altered text is rejected or read without crashing
	dmg := append([]byte{}, old...)
	if r.Intn(2) == 0 {
		dmg = dmg[:r.Intn(len(dmg))]
		for i := range dmg {
			if dmg[i] != ' ' && dmg[i] != '\n' {
				break
			}
		}
		if os.WriteFile(path2, dmg, 0o600) == nil {
			if _, err := st.ImportStateJSON(path2); err == nil {
				R.Violation("file:truncated-accepted", fmt.Sprintf("%d of %d bytes", len(dmg), len(old)), "")
			}
			R.Add("truncated_files_rejected", 1)
		}
	}
}
