package ref

import (
	"fmt"
	"math/big"
	"sort"
)

// StorageStatus follows the EVMC classification.
type StorageStatus int

const (
	StAssigned StorageStatus = iota
	StAdded
	StDeleted
	StModified
	StDeletedAdded
	StModifiedDeleted
	StDeletedRestored
	StAddedDeleted
	StModifiedRestored
)

// Classify implements the table of the storage status definition: the status
// is determined by which of original, current and new value coincide.
func Classify(orig, cur, new Hash) StorageStatus {
	z := Hash{}
	if cur == new {
		return StAssigned
	}
	if orig == cur { // first change in this transaction
		switch {
		case orig == z:
			return StAdded
		case new == z:
			return StDeleted
		default:
			return StModified
		}
	}
	// the slot was changed before
	switch {
	case orig == z && new == z: // 0 -> Y -> 0
		return StAddedDeleted
	case orig == z: // 0 -> Y -> Z
		return StAssigned
	case cur == z && new == orig: // X -> 0 -> X
		return StDeletedRestored
	case cur == z: // X -> 0 -> Z
		return StDeletedAdded
	case new == z: // X -> Y -> 0
		return StModifiedDeleted
	case new == orig: // X -> Y -> X
		return StModifiedRestored
	default: // X -> Y -> Z
		return StAssigned
	}
}

// World is the live host state of one run of a Case; it serves both the
// reference interpreter and the adapters to the systems under test, and
// records the ordered log of state effects.
type World struct {
	C         *Case
	Balances  map[Addr]*big.Int
	Storage   map[Slot]StorageVal
	Transient map[Slot]Hash
	WarmAddr  map[Addr]bool
	WarmSlot  map[Slot]bool
	Destroyed map[Addr]bool
	Events    []string
	Calls     int
	// BadHost is set when the system under test uses the host in a way that is
	// never legitimate (e.g. asks for a block hash out of range).
	BadHost []string
}

func NewWorld(c *Case) *World {
	w := &World{C: c, Balances: map[Addr]*big.Int{}, Storage: map[Slot]StorageVal{}, Transient: map[Slot]Hash{},
		WarmAddr: map[Addr]bool{}, WarmSlot: map[Slot]bool{}, Destroyed: map[Addr]bool{}}
	for a, x := range c.Accounts {
		w.Balances[a] = x.Balance
	}
	for k, v := range c.Storage {
		w.Storage[k] = v
	}
	for k, v := range c.Transient {
		w.Transient[k] = v
	}
	for k, v := range c.WarmAddr {
		if v {
			w.WarmAddr[k] = true
		}
	}
	for k, v := range c.WarmSlot {
		if v {
			w.WarmSlot[k] = true
		}
	}
	for k, v := range c.Destroyed {
		if v {
			w.Destroyed[k] = true
		}
	}
	return w
}

func (w *World) ev(f string, args ...any) { w.Events = append(w.Events, fmt.Sprintf(f, args...)) }

func (w *World) Balance(a Addr) *big.Int {
	if b, ok := w.Balances[a]; ok {
		return b
	}
	return zero
}
func (w *World) Nonce(a Addr) uint64 {
	if x, ok := w.C.Accounts[a]; ok {
		return x.Nonce
	}
	return 0
}
func (w *World) Code(a Addr) []byte {
	if x, ok := w.C.Accounts[a]; ok {
		return x.Code
	}
	return nil
}

// Empty is emptiness as of EIP-161.
func (w *World) Empty(a Addr) bool {
	return w.Balance(a).Sign() == 0 && w.Nonce(a) == 0 && len(w.Code(a)) == 0
}
func (w *World) CodeHash(a Addr) Hash {
	if w.Empty(a) {
		return Hash{}
	}
	return Keccak256(w.Code(a))
}
func (w *World) GetStorage(a Addr, k Hash) Hash { return w.Storage[Slot{a, k}].Cur }
func (w *World) GetOriginal(a Addr, k Hash) Hash {
	return w.Storage[Slot{a, k}].Orig
}
func (w *World) SetStorage(a Addr, k, v Hash) StorageStatus {
	s := w.Storage[Slot{a, k}]
	st := Classify(s.Orig, s.Cur, v)
	s.Cur = v
	w.Storage[Slot{a, k}] = s
	w.ev("S %x %x %x", a, k, v)
	return st
}
func (w *World) GetTransient(a Addr, k Hash) Hash { return w.Transient[Slot{a, k}] }
func (w *World) SetTransient(a Addr, k, v Hash) {
	w.Transient[Slot{a, k}] = v
	w.ev("T %x %x %x", a, k, v)
}
func (w *World) AccessAddr(a Addr) bool {
	warm := w.WarmAddr[a]
	w.WarmAddr[a] = true
	return warm
}
func (w *World) AccessSlot(a Addr, k Hash) bool {
	warm := w.WarmSlot[Slot{a, k}]
	w.WarmSlot[Slot{a, k}] = true
	return warm
}
func (w *World) Log(a Addr, topics []Hash, data []byte) {
	s := fmt.Sprintf("L %x %s", a, HexBytes(data))
	for _, t := range topics {
		s += fmt.Sprintf(" %x", t)
	}
	w.Events = append(w.Events, s)
}
func (w *World) SelfDestruct(a, b Addr) bool {
	w.ev("D %x %x", a, b)
	first := !w.Destroyed[a]
	w.Destroyed[a] = true
	return first
}
func (w *World) BlockHash(n int64) Hash { return BlockHash(w.C.BlockHashSeed, n) }

// Msg is a nested call as received by the host.
type Msg struct {
	Kind      Kind
	Static    bool
	Depth     int
	Gas       int64
	Recipient Addr
	Sender    Addr
	CodeAddr  Addr
	Value     *big.Int
	Input     []byte
	Salt      Hash
}

type CallOutcome struct {
	Success  bool
	Reverted bool
	GasLeft  int64
	Refund   int64
	Output   []byte
	Created  Addr
	Err      bool // the host reports an error of its own
}

func (w *World) Call(m Msg) CallOutcome {
	if m.Depth > 1024 { // not logged: whether the limit is enforced by host or interpreter is not observable
		return CallOutcome{GasLeft: m.Gas}
	}
	rec, code := m.Recipient.Hex(), m.CodeAddr.Hex()
	if m.Kind == Create || m.Kind == Create2 {
		rec, code = "-", "-"
	}
	salt := "-"
	if m.Kind == Create2 {
		salt = m.Salt.Hex()
	}
	st := 0
	if m.Static {
		st = 1
	}
	w.ev("C %v %d %d %d %s %x %s %064x %s %s", m.Kind, st, m.Depth, m.Gas, rec, m.Sender, code, m.Value, HexBytes(m.Input), salt)
	idx := w.Calls
	w.Calls++
	if len(w.C.Replies) == 0 {
		return CallOutcome{Success: true, GasLeft: m.Gas}
	}
	r := w.C.Replies[idx%len(w.C.Replies)]
	switch r.Status {
	case 0:
		for _, e := range r.Effects {
			if m.Static && (e.Kind == 'S' || e.Kind == 'T' || e.Kind == 'B') {
				continue
			}
			switch e.Kind {
			case 'S':
				s := w.Storage[Slot{e.A, e.K}]
				s.Cur = e.V
				w.Storage[Slot{e.A, e.K}] = s
				w.WarmSlot[Slot{e.A, e.K}] = true
			case 'T':
				w.Transient[Slot{e.A, e.K}] = e.V
			case 'W':
				w.WarmAddr[e.A] = true
			case 'K':
				w.WarmSlot[Slot{e.A, e.K}] = true
			case 'B':
				w.Balances[e.A] = e.V.Big()
			}
		}
		gl := new(big.Int).Mul(big.NewInt(m.Gas), big.NewInt(r.GasFrac))
		// a creation hands out the deployed code, which is no return data
		return CallOutcome{Success: true, GasLeft: gl.Div(gl, big.NewInt(255)).Int64(), Refund: r.Refund, Output: r.Output, Created: r.Created}
	case 1:
		gl := new(big.Int).Mul(big.NewInt(m.Gas), big.NewInt(r.GasFrac))
		return CallOutcome{Reverted: true, GasLeft: gl.Div(gl, big.NewInt(255)).Int64(), Output: r.Output, Created: r.Created}
	case 3:
		return CallOutcome{Err: true}
	default:
		return CallOutcome{Created: r.Created}
	}
}

// WarmLists returns the warm sets in canonical text form.
func (w *World) WarmLists() (as, ss []string) {
	for a, v := range w.WarmAddr {
		if v {
			as = append(as, a.Hex())
		}
	}
	for s, v := range w.WarmSlot {
		if v {
			ss = append(ss, s.A.Hex()+":"+s.K.Hex())
		}
	}
	sort.Strings(as)
	sort.Strings(ss)
	return
}
