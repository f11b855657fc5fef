package main

import (
	"bytes"
	"fmt"
	"math/big"

	bridge "github.com/Fantom-foundation/Tosca/go/geth_adapter"
	_ "github.com/Fantom-foundation/Tosca/go/processor/opera"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	geth "github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
	"verif/ref"
)

// The parts of the repository that run Tosca interpreters inside of
// go-ethereum's EVM, for which shim/go/geth has a stand-in.
var (
	gethMode  bool // R01 and R03
	operaMode bool // R03
)

// gethCall says how go-ethereum calls contracts; the bridge is to pass on exactly
// this.
func (f frame) gethCall(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	w, fail, untouched := f.w, tosca.CallResult{}, tosca.CallResult{GasLeft: p.Gas}
	child := frame{f.model, f.depth + 1, f.static || kind == tosca.StaticCall}
	if child.depth > 1024 {
		return untouched, nil
	}
	creating := kind == tosca.Create || kind == tosca.Create2
	if (creating || kind == tosca.Call || kind == tosca.CallCode) && val(w.bal[p.Sender]).Cmp(val(p.Value)) < 0 {
		return untouched, nil
	}
	self, runs, input := p.Recipient, p.Recipient, p.Input
	if kind == tosca.DelegateCall || kind == tosca.CallCode {
		runs = p.CodeAddress
	}
	code, hash := w.GetCode(runs), new(tosca.Hash)
	*hash = w.GetCodeHash(runs)
	if creating {
		code, input = tosca.Code(p.Input), nil
		*hash = tosca.Hash(ref.Keccak256(code))
		self = newAddress(kind, p, w.nonce[p.Sender], *hash)
		if kind == tosca.Create {
			hash = nil // not computed
		}
		if w.nonce[p.Sender] == 1<<64-1 {
			return untouched, nil
		}
		w.nonce[p.Sender]++
		if f.block.Revision >= tosca.R09_Berlin {
			w.warmA[self] = true
		}
		if w.nonce[self] != 0 || len(w.code[self]) > 0 {
			return fail, nil
		}
	}
	before := w.state.clone()
	undo := func() { w.state = before }
	if creating {
		w.created[self] = true
		w.nonce[self] = 1
	}
	if (creating || kind == tosca.Call) && p.Sender != self {
		w.bal[p.Sender] = unval(new(big.Int).Sub(val(w.bal[p.Sender]), val(p.Value)))
		w.bal[self] = unval(new(big.Int).Add(val(w.bal[self]), val(p.Value)))
	}
	if operaMode && self == stateCon && kind == tosca.Call {
		left, ok := f.stateContract(p, false)
		if !ok {
			undo()
			return fail, nil
		}
		return tosca.CallResult{Success: true, GasLeft: left}, nil
	}
	if c := precompile(f.block.Revision, runs); c != nil && !creating {
		cost := tosca.Gas(c.RequiredGas(p.Input))
		if p.Gas < cost {
			undo()
			return fail, nil
		}
		out, err := c.Run(p.Input)
		if err != nil {
			undo()
			return fail, nil
		}
		return tosca.CallResult{Success: true, Output: out, GasLeft: p.Gas - cost}, nil
	}
	if kind == tosca.Call && len(code) == 0 {
		return tosca.CallResult{Success: true, GasLeft: p.Gas}, nil
	}
	res, err := f.interp.Run(tosca.Parameters{BlockParameters: f.block, TransactionParameters: f.tx, Context: child, Static: child.static,
		Depth: child.depth, Gas: p.Gas, Recipient: self, Sender: p.Sender, Input: input, Value: p.Value, CodeHash: hash, Code: code})
	if err != nil {
		undo()
		return fail, err
	}
	if !res.Success {
		undo()
		return tosca.CallResult{Output: res.Output, GasLeft: res.GasLeft}, nil
	}
	w.refund += int64(res.GasRefund)
	r := tosca.CallResult{Success: true, Output: res.Output, GasLeft: res.GasLeft}
	if creating {
		deposit := tosca.Gas(200 * len(res.Output))
		bad := len(res.Output) > 24576 || f.block.Revision >= tosca.R10_London && len(res.Output) > 0 && res.Output[0] == 0xef
		if bad || res.GasLeft < deposit {
			undo()
			return fail, nil
		}
		r.GasLeft -= deposit
		r.CreatedAddress = self
		w.SetCode(self, tosca.Code(res.Output))
	}
	return r, nil
}

// selfDestruct as of the revision.
func (m *model) selfDestruct(a, b tosca.Address) bool {
	w := m.w
	if m.block.Revision < tosca.R13_Cancun || w.created[a] {
		return w.SelfDestruct(a, b)
	}
	first := !w.dead[a]
	v := val(w.bal[a])
	w.bal[a] = tosca.Value{}
	w.bal[b] = unval(v.Add(v, val(w.bal[b])))
	return first
}

// operaBlock is what contracts see of a block in the opera processor: blocks have
// no beneficiary and a constant difficulty.
func operaBlock(b tosca.BlockParameters) tosca.BlockParameters {
	b.Coinbase, b.PrevRandao, b.BlobBaseFee = tosca.Address{}, tosca.Hash{31: 1}, tosca.Value{}
	return b
}

// stateDB is a state as go-ethereum has it.
type stateDB struct {
	w      *World
	refund uint64
	saved  map[int]uint64
	blocks []uint64 // of the logs
}

func (s *stateDB) CreateAccount(a common.Address) {
	if s.Exist(a) && s.w.nonce[tosca.Address(a)]+uint64(len(s.w.code[tosca.Address(a)])) > 0 {
		s.w.fail("state.overwritten", fmt.Sprintf("account %x was created again", a[:]), "R01")
	}
}
func (s *stateDB) CreateContract(a common.Address) { s.w.created[tosca.Address(a)] = true }
func (s *stateDB) SubBalance(a common.Address, d *uint256.Int, _ tracing.BalanceChangeReason) {
	have := val(s.w.bal[tosca.Address(a)])
	if have.Cmp(d.ToBig()) < 0 {
		s.w.fail("state.negative-balance", fmt.Sprintf("%v taken from %x, which has %v", d, a[:], have), "R01")
	}
	s.w.bal[tosca.Address(a)] = unval(have.Sub(have, d.ToBig()))
}
func (s *stateDB) AddBalance(a common.Address, d *uint256.Int, _ tracing.BalanceChangeReason) {
	have := val(s.w.bal[tosca.Address(a)])
	s.w.bal[tosca.Address(a)] = unval(have.Add(have, d.ToBig()))
}
func (s *stateDB) GetBalance(a common.Address) *uint256.Int {
	b := s.w.bal[tosca.Address(a)]
	return new(uint256.Int).SetBytes(b[:])
}
func (s *stateDB) GetNonce(a common.Address) uint64    { return s.w.nonce[tosca.Address(a)] }
func (s *stateDB) SetNonce(a common.Address, n uint64) { s.w.nonce[tosca.Address(a)] = n }
func (s *stateDB) GetCodeHash(a common.Address) common.Hash {
	return common.Hash(s.w.GetCodeHash(tosca.Address(a)))
}
func (s *stateDB) GetCode(a common.Address) []byte    { return s.w.GetCode(tosca.Address(a)) }
func (s *stateDB) SetCode(a common.Address, c []byte) { s.w.SetCode(tosca.Address(a), c) }
func (s *stateDB) GetCodeSize(a common.Address) int   { return s.w.GetCodeSize(tosca.Address(a)) }
func (s *stateDB) AddRefund(n uint64)                 { s.refund += n }
func (s *stateDB) GetRefund() uint64                  { return s.refund }
func (s *stateDB) SubRefund(n uint64) {
	if n > s.refund {
		s.w.fail("state.negative-refund", fmt.Sprintf("refund counter below zero (%d taken from %d)", n, s.refund), "R01")
	}
	s.refund -= n
}
func (s *stateDB) GetCommittedState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(s.w.GetCommittedStorage(tosca.Address(a), tosca.Key(k)))
}
func (s *stateDB) GetState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(s.w.GetStorage(tosca.Address(a), tosca.Key(k)))
}
func (s *stateDB) SetState(a common.Address, k common.Hash, v common.Hash) {
	s.w.SetStorage(tosca.Address(a), tosca.Key(k), tosca.Word(v))
}
func (s *stateDB) GetStorageRoot(common.Address) common.Hash { return common.Hash{} }
func (s *stateDB) GetTransientState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(s.w.GetTransientStorage(tosca.Address(a), tosca.Key(k)))
}
func (s *stateDB) SetTransientState(a common.Address, k, v common.Hash) {
	s.w.SetTransientStorage(tosca.Address(a), tosca.Key(k), tosca.Word(v))
}
func (s *stateDB) SelfDestruct(a common.Address) {
	s.w.burnt = new(big.Int).Add(s.w.burnt, val(s.w.bal[tosca.Address(a)]))
	s.w.bal[tosca.Address(a)] = tosca.Value{}
	s.w.dead[tosca.Address(a)] = true
}
func (s *stateDB) Selfdestruct6780(a common.Address) {
	if s.w.created[tosca.Address(a)] {
		s.SelfDestruct(a)
	}
}
func (s *stateDB) HasSelfDestructed(a common.Address) bool { return s.w.dead[tosca.Address(a)] }
func (s *stateDB) Exist(a common.Address) bool             { return s.w.AccountExists(tosca.Address(a)) }
func (s *stateDB) Empty(a common.Address) bool             { return !s.Exist(a) }
func (s *stateDB) AddressInAccessList(a common.Address) bool {
	return s.w.warmA[tosca.Address(a)]
}
func (s *stateDB) SlotInAccessList(a common.Address, k common.Hash) (bool, bool) {
	return s.w.warmA[tosca.Address(a)], s.w.warmS[slot{tosca.Address(a), tosca.Key(k)}]
}
func (s *stateDB) AddAddressToAccessList(a common.Address) { s.w.warmA[tosca.Address(a)] = true }
func (s *stateDB) AddSlotToAccessList(a common.Address, k common.Hash) {
	s.w.warmS[slot{tosca.Address(a), tosca.Key(k)}] = true
}
func (s *stateDB) PointCache() *utils.PointCache { return nil }
func (s *stateDB) Prepare(params.Rules, common.Address, common.Address, *common.Address, []common.Address, types.AccessList) {
}
func (s *stateDB) RevertToSnapshot(i int) {
	s.w.RestoreSnapshot(tosca.Snapshot(i))
	s.refund = s.saved[i]
}
func (s *stateDB) Snapshot() int {
	i := int(s.w.CreateSnapshot())
	s.saved[i] = s.refund
	return i
}
func (s *stateDB) AddLog(l *types.Log) {
	t := make([]tosca.Hash, len(l.Topics))
	for i, x := range l.Topics {
		t[i] = tosca.Hash(x)
	}
	s.blocks = append(s.blocks, l.BlockNumber)
	s.w.EmitLog(tosca.Log{Address: tosca.Address(l.Address), Topics: t, Data: l.Data})
}
func (s *stateDB) AddPreimage(common.Hash, []byte) {}
func (s *stateDB) Witness() *stateless.Witness     { return nil }

func big64(n int64) *big.Int { return big.NewInt(n) }

// bridged runs a scenario's first call in go-ethereum's EVM, with the bridge in
// the place of its interpreter.
func bridged(interp tosca.Interpreter, s *scenario, w *World) (res tosca.CallResult, err error, refund uint64) {
	b, t := s.block, s.tx
	never, always := big64(b.BlockNumber+1), big64(0)
	after := func(r tosca.Revision) *big.Int {
		if b.Revision >= r {
			return always
		}
		return never
	}
	cfg := *params.AllEthashProtocolChanges
	cfg.ChainID = new(big.Int).SetBytes(b.ChainID[:])
	cfg.BerlinBlock, cfg.LondonBlock = after(tosca.R09_Berlin), after(tosca.R10_London)
	time, later := uint64(b.Timestamp), uint64(b.Timestamp)+1
	cfg.ShanghaiTime, cfg.CancunTime = &later, &later
	if b.Revision >= tosca.R12_Shanghai {
		cfg.ShanghaiTime = &time
	}
	if b.Revision >= tosca.R13_Cancun {
		cfg.CancunTime = &time
	}
	ctx := geth.BlockContext{
		CanTransfer: func(db geth.StateDB, a common.Address, v *uint256.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db geth.StateDB, a, b common.Address, v *uint256.Int) {
			db.SubBalance(a, v, 0)
			db.AddBalance(b, v, 0)
		},
		GetHash:     func(n uint64) common.Hash { return common.Hash(w.GetBlockHash(int64(n))) },
		Coinbase:    common.Address(b.Coinbase),
		GasLimit:    uint64(b.GasLimit),
		BlockNumber: big64(b.BlockNumber),
		Time:        time,
		BaseFee:     new(big.Int).SetBytes(b.BaseFee[:]),
		BlobBaseFee: new(big.Int).SetBytes(b.BlobBaseFee[:]),
		Difficulty:  new(big.Int).SetBytes(b.PrevRandao[:]),
	}
	if b.BaseFee == (tosca.Value{}) && b.BlockNumber%2 == 0 {
		ctx.BaseFee = nil
	}
	if b.BlobBaseFee == (tosca.Value{}) && b.BlockNumber%3 == 0 {
		ctx.BlobBaseFee = nil
	}
	if b.Revision >= tosca.R11_Paris {
		r := common.Hash(b.PrevRandao)
		ctx.Random, ctx.Difficulty = &r, big64(7)
	}
	tx := geth.TxContext{Origin: common.Address(t.Sender), GasPrice: new(big.Int).SetBytes(t.GasPrice[:])}
	for _, h := range s.blobs {
		tx.BlobHashes = append(tx.BlobHashes, common.Hash(h))
	}
	db := &stateDB{w: w, refund: s.refund0, saved: map[int]uint64{}}
	evm := geth.NewEVM(ctx, tx, db, &cfg, geth.Config{Interpreter: bridge.NewGethInterpreterFactory(interp)})
	from, value, gas := geth.AccountRef(t.Sender), new(uint256.Int).SetBytes(t.Value[:]), uint64(t.GasLimit)
	var created common.Address
	switch s.kind {
	case tosca.Create:
		res.Output, created, gas, err = evm.Create(from, t.Input, gas, value)
	case tosca.Create2:
		res.Output, created, gas, err = evm.Create2(from, t.Input, gas, value, new(uint256.Int).SetBytes(s.salt[:]))
	case tosca.StaticCall:
		res.Output, gas, err = evm.StaticCall(from, common.Address(*t.Recipient), t.Input, gas)
	default:
		res.Output, gas, err = evm.Call(from, common.Address(*t.Recipient), t.Input, gas, value)
	}
	res.Success, res.GasLeft, res.CreatedAddress = err == nil, tosca.Gas(gas), tosca.Address(created)
	if gas >= 1<<63 {
		w.fail("bridge.gas-bounds", fmt.Sprintf("a call with %d gas returned %d", t.GasLimit, gas), "R01")
	}
	if evm.GetDepth() != 0 {
		w.fail("bridge.depth", fmt.Sprintf("the call depth is %d after the call", evm.GetDepth()), "R01")
	}
	for _, n := range db.blocks {
		if n != uint64(b.BlockNumber) {
			w.fail("bridge.log-block", fmt.Sprintf("a log of block %d carries the block number %d", b.BlockNumber, n), "R01")
		}
	}
	return res, err, db.refund
}

// judgeBridge compares a run in go-ethereum's EVM with the model of its calls.
func judgeBridge(s *scenario, where string, verbose bool) bool {
	sw, mw := newWorld(s.pre), newWorld(s.pre)
	sw.monitor, sw.verbose, mw.verbose = true, verbose, verbose
	input := bytes.Clone(s.tx.Input)
	var got tosca.CallResult
	var gotErr error
	var refund uint64
	if !R.Guard("bridge", func() { got, gotErr, refund = bridged(&runner{w: sw, scripts: s.scripts}, s, sw) }) {
		return true
	}
	m := &model{w: mw, interp: &runner{w: mw, scripts: s.scripts}, block: s.block}
	mw.refund = int64(s.refund0)
	m.tx = tosca.TransactionParameters{Origin: s.tx.Sender, GasPrice: s.tx.GasPrice, BlobHashes: s.blobs}
	p := tosca.CallParameters{Sender: s.tx.Sender, Value: s.tx.Value, Gas: s.tx.GasLimit, Input: s.tx.Input, Salt: s.salt}
	if s.kind == tosca.StaticCall {
		p.Value = tosca.Value{}
	}
	if s.tx.Recipient != nil {
		p.Recipient = *s.tx.Recipient
	}
	want, wantErr := frame{m, -1, false}.gethCall(s.kind, p)
	if !verbose {
		account(sw, s, want.Success, got.GasLeft)
	}
	clean := true
	rpt := func(key, detail string) {
		clean = false
		if verbose {
			report(key, detail, where, s, "R01")
		}
	}
	if sw.misuse != "" {
		rpt("snapshot-misuse", sw.misuse)
	}
	if !bytes.Equal(input, s.tx.Input) {
		rpt("input-modified", "the input was modified")
	}
	for _, f := range sw.failure {
		rpt(f.key, f.detail)
	}
	if !sameTrace(sw, mw, func(key, detail string, first, a, b event, field string) { rpt(key, detail) }) {
		return clean
	}
	if got.Success != want.Success {
		rpt("success", fmt.Sprintf("success %v (%v), want %v (%v)", got.Success, gotErr, want.Success, wantErr))
		return clean
	}
	if got.GasLeft != want.GasLeft {
		rpt("gas-left", fmt.Sprintf("gas left %d, want %d", got.GasLeft, want.GasLeft))
	}
	if !bytes.Equal(got.Output, want.Output) && (want.Success || want.GasLeft > 0) {
		rpt("output", fmt.Sprintf("output %x, want %x", []byte(got.Output), []byte(want.Output)))
	}
	if want.Success && got.CreatedAddress != want.CreatedAddress {
		rpt("contract-address", fmt.Sprintf("created %v, want %v", got.CreatedAddress, want.CreatedAddress))
	}
	if w := max(0, mw.refund); int64(refund) != w {
		rpt("refund", fmt.Sprintf("refund %d, want %d", refund, w))
	}
	if sw.state.hash(true) != mw.state.hash(true) {
		d := sw.state.diff(mw.state, true)
		rpt("state:"+d[0][:bytes.IndexByte([]byte(d[0]), ':')], "after the call "+d[0])
	}
	return clean
}
