package main

import (
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	geth "github.com/ethereum/go-ethereum/core/vm"
	"verif/ref"
)

// The reference processor: written from the rules in the property statements,
// on unbounded integers, sharing nothing with the code under test.

var (
	driver   = addr("d100a01e00000000000000000000000000000000")
	stateCon = addr("d100ec0000000000000000000000000000000000")
)

func addr(h string) (a tosca.Address) { copy(a[:], ref.UnhexBytes(h)); return }

type outcome struct {
	receipt  tosca.Receipt
	err      error
	rejected bool
	// what the statements leave open
	anyNonce, anyOutput, anyErr bool
}

type model struct {
	w      *World
	interp tosca.Interpreter
	block  tosca.BlockParameters
	tx     tosca.TransactionParameters
}

func precompile(rev tosca.Revision, a tosca.Address) (p geth.PrecompiledContract) {
	n := 9
	if rev >= tosca.R13_Cancun {
		n = 10
	}
	for _, x := range a[:19] {
		if x != 0 {
			return nil
		}
	}
	if a[19] == 0 || int(a[19]) > n {
		return nil
	}
	switch {
	case rev >= tosca.R13_Cancun:
		p = geth.PrecompiledContractsCancun[[20]byte(a)]
	case rev >= tosca.R09_Berlin:
		p = geth.PrecompiledContractsBerlin[[20]byte(a)]
	default:
		p = geth.PrecompiledContractsIstanbul[[20]byte(a)]
	}
	return
}

func (m *model) run(t tosca.Transaction) (o outcome) {
	w := m.w
	reject := outcome{rejected: true}
	if w.nonce[t.Sender] != t.Nonce || t.Nonce == 1<<64-1 || len(w.code[t.Sender]) > 0 {
		return reject
	}
	price, limit := val(t.GasPrice), big.NewInt(int64(t.GasLimit))
	fee := new(big.Int).Mul(price, limit)
	if val(w.bal[t.Sender]).Cmp(fee) < 0 {
		return reject
	}
	if t.Recipient == nil && m.block.Revision >= tosca.R12_Shanghai && len(t.Input) > 2*24576 {
		return reject
	}
	w.bal[t.Sender] = unval(new(big.Int).Sub(val(w.bal[t.Sender]), fee))

	intrinsic := int64(21000)
	if t.Recipient == nil {
		intrinsic = 53000
	}
	for _, b := range t.Input {
		if b == 0 {
			intrinsic += 4
		} else {
			intrinsic += 16
		}
	}
	for _, e := range t.AccessList {
		intrinsic += 2400 + 1900*int64(len(e.Keys))
	}
	if int64(t.GasLimit) < intrinsic {
		return outcome{receipt: tosca.Receipt{GasUsed: t.GasLimit}, anyNonce: true, anyErr: operaMode}
	}
	gas := t.GasLimit - tosca.Gas(intrinsic)

	if m.block.Revision >= tosca.R09_Berlin && (t.AccessList != nil || operaMode) {
		w.warmA[t.Sender] = true
		if t.Recipient != nil {
			w.warmA[*t.Recipient] = true
		}
		for i := byte(1); i <= 20; i++ {
			a := tosca.Address{19: i}
			if precompile(m.block.Revision, a) != nil {
				w.warmA[a] = true
			}
		}
		for _, e := range t.AccessList {
			w.warmA[e.Address] = true
			for _, k := range e.Keys {
				w.warmS[slot{e.Address, k}] = true
			}
		}
	}

	m.tx = tosca.TransactionParameters{Origin: t.Sender, GasPrice: t.GasPrice}
	p := tosca.CallParameters{Sender: t.Sender, Value: t.Value, Gas: gas, Input: t.Input}
	kind := tosca.Create
	if t.Recipient != nil {
		kind = tosca.Call
		p.Recipient = *t.Recipient
		w.nonce[t.Sender]++
	}
	if operaMode {
		m.block = operaBlock(m.block)
	}
	res, err := frame{m, -1, false}.Call(kind, p)
	if operaMode {
		err = nil // any error is the transaction's failure
		res.GasRefund = tosca.Gas(max(0, w.refund))
	}
	if err != nil {
		return outcome{err: err, receipt: tosca.Receipt{GasUsed: t.GasLimit}}
	}
	left := int64(res.GasLeft)
	if t.Sender != (tosca.Address{}) {
		left -= left / 10
	}
	if res.Success {
		used := int64(t.GasLimit) - left
		most := used / 5
		if m.block.Revision < tosca.R10_London {
			most = used / 2
		}
		left += min(int64(res.GasRefund), most)
	}
	back := new(big.Int).Mul(price, big.NewInt(left))
	w.bal[t.Sender] = unval(back.Add(back, val(w.bal[t.Sender])))
	o.receipt = tosca.Receipt{Success: res.Success, GasUsed: t.GasLimit - tosca.Gas(left), Output: res.Output, Logs: w.GetLogs()}
	if !res.Success && res.GasLeft == 0 {
		o.anyOutput = true // not told apart from a failure, which has no output
	}
	if kind == tosca.Create {
		c := res.CreatedAddress
		o.receipt.ContractAddress = &c
	}
	return
}

// frame is what a running contract sees.
type frame struct {
	*model
	depth  int
	static bool
}

func (m *model) AccountExists(a tosca.Address) bool        { return m.w.AccountExists(a) }
func (m *model) GetBalance(a tosca.Address) tosca.Value    { return m.w.GetBalance(a) }
func (m *model) SetBalance(a tosca.Address, v tosca.Value) { m.w.SetBalance(a, v) }
func (m *model) GetNonce(a tosca.Address) uint64           { return m.w.GetNonce(a) }
func (m *model) SetNonce(a tosca.Address, n uint64)        { m.w.SetNonce(a, n) }
func (m *model) GetCode(a tosca.Address) tosca.Code        { return m.w.GetCode(a) }
func (m *model) GetCodeHash(a tosca.Address) tosca.Hash    { return m.w.GetCodeHash(a) }
func (m *model) GetCodeSize(a tosca.Address) int           { return m.w.GetCodeSize(a) }
func (m *model) SetCode(a tosca.Address, c tosca.Code)     { m.w.SetCode(a, c) }
func (m *model) SelfDestruct(a, b tosca.Address) bool {
	if gethMode {
		return m.selfDestruct(a, b)
	}
	return m.w.SelfDestruct(a, b)
}
func (m *model) CreateSnapshot() tosca.Snapshot                     { return m.w.CreateSnapshot() }
func (m *model) RestoreSnapshot(s tosca.Snapshot)                   { m.w.RestoreSnapshot(s) }
func (m *model) EmitLog(l tosca.Log)                                { m.w.EmitLog(l) }
func (m *model) GetLogs() []tosca.Log                               { return m.w.GetLogs() }
func (m *model) GetBlockHash(n int64) tosca.Hash                    { return m.w.GetBlockHash(n) }
func (m *model) IsAddressInAccessList(a tosca.Address) bool         { return m.w.IsAddressInAccessList(a) }
func (m *model) HasSelfDestructed(a tosca.Address) bool             { return m.w.HasSelfDestructed(a) }
func (m *model) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return m.w.GetStorage(a, k) }
func (m *model) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	return m.w.SetStorage(a, k, v)
}
func (m *model) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return m.w.GetTransientStorage(a, k)
}
func (m *model) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	m.w.SetTransientStorage(a, k, v)
}
func (m *model) AccessAccount(a tosca.Address) tosca.AccessStatus { return m.w.AccessAccount(a) }
func (m *model) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	return m.w.AccessStorage(a, k)
}
func (m *model) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return m.w.GetCommittedStorage(a, k)
}
func (m *model) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return m.w.IsSlotInAccessList(a, k)
}

func (f frame) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	if gethMode {
		return f.gethCall(kind, p)
	}
	w, fail := f.w, tosca.CallResult{}
	child := frame{f.model, f.depth + 1, f.static || kind == tosca.StaticCall}
	if child.depth > 1024 {
		return fail, nil
	}
	self, code, input := p.Recipient, w.GetCode(p.Recipient), p.Input
	hash := w.GetCodeHash(p.Recipient)
	if kind == tosca.DelegateCall || kind == tosca.CallCode {
		code, hash = w.GetCode(p.CodeAddress), w.GetCodeHash(p.CodeAddress)
	}
	creating := kind == tosca.Create || kind == tosca.Create2
	if creating {
		code, input = tosca.Code(p.Input), nil
		hash = tosca.Hash(ref.Keccak256(code))
		self = newAddress(kind, p, w.nonce[p.Sender], hash)
		w.nonce[p.Sender]++
		if w.nonce[self] != 0 || len(w.code[self]) > 0 {
			return fail, nil
		}
	}
	before := w.state.clone()
	undo := func() { w.state = before }
	if creating {
		w.nonce[self] = 1
	}
	if kind == tosca.Call || kind == tosca.CallCode || creating {
		amount, from, to := val(p.Value), val(w.bal[p.Sender]), val(w.bal[self])
		if from.Cmp(amount) < 0 {
			undo()
			return fail, nil
		}
		if p.Sender != self {
			if to.Add(to, amount); to.Cmp(two256) >= 0 {
				undo()
				return fail, nil
			}
			w.bal[p.Sender], w.bal[self] = unval(from.Sub(from, amount)), unval(to)
		}
	}
	if self == stateCon && (kind == tosca.Call || kind == tosca.StaticCall) {
		left, ok := f.stateContract(p, child.static)
		if !ok {
			undo()
			return fail, nil
		}
		return tosca.CallResult{Success: true, GasLeft: left}, nil
	}
	runs := self
	if kind == tosca.DelegateCall || kind == tosca.CallCode {
		runs = p.CodeAddress
	}
	if c := precompile(f.block.Revision, runs); c != nil && !creating {
		cost := tosca.Gas(c.RequiredGas(p.Input))
		if p.Gas < cost {
			undo()
			return fail, nil
		}
		out, err := c.Run(p.Input)
		if err != nil {
			undo()
			return fail, nil
		}
		return tosca.CallResult{Success: true, Output: out, GasLeft: p.Gas - cost}, nil
	}
	if len(code) == 0 && !creating {
		return tosca.CallResult{Success: true, GasLeft: p.Gas}, nil
	}
	res, err := f.interp.Run(tosca.Parameters{BlockParameters: f.block, TransactionParameters: f.tx, Context: child, Kind: kind, Static: child.static,
		Depth: child.depth, Gas: p.Gas, Recipient: self, Sender: p.Sender, Input: input, Value: p.Value, CodeHash: &hash, Code: code})
	r := tosca.CallResult{Success: res.Success, Output: res.Output, GasLeft: res.GasLeft, GasRefund: res.GasRefund}
	if err != nil || !res.Success {
		undo()
	} else if creating {
		deposit := tosca.Gas(200 * len(res.Output))
		bad := len(res.Output) > 24576 || f.block.Revision >= tosca.R10_London && len(res.Output) > 0 && res.Output[0] == 0xef
		if bad || res.GasLeft < deposit {
			undo()
			return fail, nil
		}
		r.GasLeft -= deposit
		w.SetCode(self, tosca.Code(res.Output))
	}
	if creating {
		r.CreatedAddress = self
	}
	return r, err
}

func newAddress(kind tosca.CallKind, p tosca.CallParameters, nonce uint64, hash tosca.Hash) (a tosca.Address) {
	var in []byte
	if kind == tosca.Create2 {
		in = append(append(append([]byte{0xff}, p.Sender[:]...), p.Salt[:]...), hash[:]...)
	} else {
		n := new(big.Int).SetUint64(nonce).Bytes()
		if !(len(n) == 1 && n[0] < 0x80) {
			n = append([]byte{0x80 + byte(len(n))}, n...)
		}
		body := append(append([]byte{0x94}, p.Sender[:]...), n...)
		in = append([]byte{0xc0 + byte(len(body))}, body...)
	}
	h := ref.Keccak256(in)
	copy(a[:], h[12:])
	return
}

var selectors = map[string]string{"setBalance": "e30443bc", "copyCode": "d6a0c7af", "swapCode": "07690b2a", "setStorage": "39e503ab", "incNonce": "79bead38"}

func (f frame) stateContract(p tosca.CallParameters, static bool) (tosca.Gas, bool) {
	w := f.w
	protected := p.Sender
	if operaMode {
		protected = f.tx.Origin
	}
	if p.Sender != driver || static || len(p.Input) < 4 {
		return 0, false
	}
	arg := p.Input[4:]
	word := func(i int) []byte { return arg[32*i : 32*i+32] }
	account := func(i int) (a tosca.Address) { copy(a[:], word(i)[12:]); return }
	gas := p.Gas
	pay := func(n int) bool { gas -= tosca.Gas(n); return gas >= 0 }
	switch ref.HexBytes(p.Input[:4]) {
	case selectors["setBalance"]:
		if !pay(9000) || len(arg) != 64 || account(0) == protected {
			return 0, false
		}
		w.bal[account(0)] = tosca.Value(word(1))
	case selectors["copyCode"]:
		if !pay(32000) || len(arg) != 64 {
			return 0, false
		}
		c := w.GetCode(account(1))
		if !pay(203 * len(c)) {
			return 0, false
		}
		w.SetCode(account(0), c)
	case selectors["swapCode"]:
		if !pay(64000) || len(arg) != 64 {
			return 0, false
		}
		a, b := w.GetCode(account(0)), w.GetCode(account(1))
		if !pay((203*len(a) + 203*len(b)) / 2) {
			return 0, false
		}
		w.SetCode(account(0), b)
		w.SetCode(account(1), a)
	case selectors["setStorage"]:
		if !pay(20000) || len(arg) != 96 {
			return 0, false
		}
		w.SetStorage(account(0), tosca.Key(word(1)), tosca.Word(word(2)))
	case selectors["incNonce"]:
		if !pay(9000) || len(arg) != 64 || account(0) == protected {
			return 0, false
		}
		n := new(big.Int).SetBytes(word(1))
		if n.Sign() == 0 || n.BitLen() > 8 {
			return 0, false
		}
		w.nonce[account(0)] += n.Uint64()
	default:
		return 0, false
	}
	return gas, true
}
