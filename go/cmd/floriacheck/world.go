package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
)

type slot struct {
	a tosca.Address
	k tosca.Key
}

// state is everything a snapshot covers.
type state struct {
	bal   map[tosca.Address]tosca.Value
	nonce map[tosca.Address]uint64
	code  map[tosca.Address]tosca.Code
	sto   map[slot]tosca.Word
	tra   map[slot]tosca.Word
	warmA map[tosca.Address]bool
	warmS map[slot]bool
	dead  map[tosca.Address]bool
	logs  []tosca.Log
	burnt *big.Int
	// go-ethereum's state only
	refund  int64
	created map[tosca.Address]bool
}

func newState() *state {
	return &state{map[tosca.Address]tosca.Value{}, map[tosca.Address]uint64{}, map[tosca.Address]tosca.Code{}, map[slot]tosca.Word{}, map[slot]tosca.Word{},
		map[tosca.Address]bool{}, map[slot]bool{}, map[tosca.Address]bool{}, nil, new(big.Int), 0, map[tosca.Address]bool{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *state) clone() *state {
	return &state{cp(s.bal), cp(s.nonce), cp(s.code), cp(s.sto), cp(s.tra), cp(s.warmA), cp(s.warmS), cp(s.dead), append([]tosca.Log(nil), s.logs...), s.burnt, s.refund, cp(s.created)}
}

// World is a transaction context with real snapshots.
type World struct {
	*state
	orig    *state
	snaps   []*state
	misuse  string
	runs    int
	budget  int
	events  []event
	monitor bool
	verbose bool
	failure []finding // found by the monitors inside of the run
	stats   map[string]int64
}

func newWorld(s *state) *World {
	return &World{state: s.clone(), orig: s.clone(), budget: 800, stats: map[string]int64{}}
}

func (w *World) AccountExists(a tosca.Address) bool {
	return w.bal[a] != (tosca.Value{}) || w.nonce[a] != 0 || len(w.code[a]) > 0
}
func (w *World) GetBalance(a tosca.Address) tosca.Value    { return w.bal[a] }
func (w *World) SetBalance(a tosca.Address, v tosca.Value) { w.bal[a] = v }
func (w *World) GetNonce(a tosca.Address) uint64           { return w.nonce[a] }
func (w *World) SetNonce(a tosca.Address, n uint64)        { w.nonce[a] = n }
func (w *World) GetCode(a tosca.Address) tosca.Code        { return bytes.Clone(w.code[a]) }
func (w *World) GetCodeHash(a tosca.Address) tosca.Hash {
	if !w.AccountExists(a) {
		return tosca.Hash{}
	}
	return tosca.Hash(ref.Keccak256(w.code[a]))
}
func (w *World) GetCodeSize(a tosca.Address) int { return len(w.code[a]) }
func (w *World) SetCode(a tosca.Address, c tosca.Code) {
	w.code[a] = bytes.Clone(c)
}
func (w *World) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.sto[slot{a, k}] }
func (w *World) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	s := slot{a, k}
	old, cur := w.orig.sto[s], w.sto[s]
	w.sto[s] = v
	return tosca.GetStorageStatus(old, cur, v)
}
func (w *World) SelfDestruct(a, b tosca.Address) bool {
	v := w.bal[a]
	w.bal[a] = tosca.Value{}
	if a == b {
		w.burnt = new(big.Int).Add(w.burnt, val(v))
	} else {
		sum := new(big.Int).Add(val(w.bal[b]), val(v))
		if sum.Cmp(two256) >= 0 { // only with more currency than there can be
			w.burnt = new(big.Int).Add(w.burnt, two256)
		}
		w.bal[b] = unval(sum)
	}
	first := !w.dead[a]
	w.dead[a] = true
	return first
}
func (w *World) CreateSnapshot() tosca.Snapshot {
	w.snaps = append(w.snaps, w.state.clone())
	return tosca.Snapshot(len(w.snaps) - 1)
}
func (w *World) RestoreSnapshot(s tosca.Snapshot) {
	if s < 0 || int(s) >= len(w.snaps) {
		w.misuse = fmt.Sprintf("restore of snapshot %d of %d", s, len(w.snaps))
		return
	}
	w.state = w.snaps[s]
	w.snaps = w.snaps[:s]
}
func (w *World) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.tra[slot{a, k}]
}
func (w *World) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	w.tra[slot{a, k}] = v
}
func (w *World) AccessAccount(a tosca.Address) tosca.AccessStatus {
	s := w.warmA[a]
	w.warmA[a] = true
	return tosca.AccessStatus(s)
}
func (w *World) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	s := w.warmS[slot{a, k}]
	w.warmS[slot{a, k}] = true
	return tosca.AccessStatus(s)
}
func (w *World) EmitLog(l tosca.Log) {
	w.logs = append(w.logs, tosca.Log{Address: l.Address, Topics: append([]tosca.Hash(nil), l.Topics...), Data: bytes.Clone(l.Data)})
}
func (w *World) GetLogs() []tosca.Log { return append([]tosca.Log(nil), w.logs...) }
func (w *World) GetBlockHash(n int64) tosca.Hash {
	return tosca.Hash(ref.BlockHash(7, n))
}
func (w *World) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.orig.sto[slot{a, k}]
}
func (w *World) IsAddressInAccessList(a tosca.Address) bool { return w.warmA[a] }
func (w *World) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.warmA[a], w.warmS[slot{a, k}]
}
func (w *World) HasSelfDestructed(a tosca.Address) bool { return w.dead[a] }

func val(v tosca.Value) *big.Int { return new(big.Int).SetBytes(v[:]) }
func unval(b *big.Int) (v tosca.Value) {
	new(big.Int).Mod(b, two256).FillBytes(v[:])
	return
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func (s *state) total() *big.Int {
	t := new(big.Int)
	for _, v := range s.bal {
		t.Add(t, val(v))
	}
	return t
}

// diff lists the components in which two states differ, in a fixed order:
// balance, nonce, code, storage, transient, log, warm.
func (s *state) diff(o *state, warm bool) (r []string) {
	r = append(r, mapDiff("balance", s.bal, o.bal, func(a, b tosca.Value) bool { return a == b })...)
	r = append(r, mapDiff("nonce", s.nonce, o.nonce, func(a, b uint64) bool { return a == b })...)
	r = append(r, mapDiff("code", s.code, o.code, func(a, b tosca.Code) bool { return bytes.Equal(a, b) })...)
	r = append(r, mapDiff("storage", s.sto, o.sto, func(a, b tosca.Word) bool { return a == b })...)
	r = append(r, mapDiff("transient", s.tra, o.tra, func(a, b tosca.Word) bool { return a == b })...)
	if a, b := logText(s.logs), logText(o.logs); a != b {
		r = append(r, fmt.Sprintf("log: %s, want %s", a, b))
	}
	if warm {
		r = append(r, mapDiff("warm", s.warmA, o.warmA, func(a, b bool) bool { return a == b })...)
		r = append(r, mapDiff("warm", s.warmS, o.warmS, func(a, b bool) bool { return a == b })...)
	}
	return
}

func logText(l []tosca.Log) string {
	s := fmt.Sprint(len(l))
	for _, x := range l {
		s += fmt.Sprintf(" %x:%x:%x", x.Address, x.Topics, x.Data)
	}
	return s
}

func mapDiff[K comparable, V any](what string, a, b map[K]V, eq func(V, V) bool) (r []string) {
	for k, v := range a {
		if !eq(v, b[k]) {
			r = append(r, short(fmt.Sprintf("%s: %s is %s, want %s", what, txt(k), txt(v), txt(b[k]))))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			var z V
			if !eq(v, z) {
				r = append(r, short(fmt.Sprintf("%s: %s is %s, want %s", what, txt(k), txt(z), txt(v))))
			}
		}
	}
	sort.Strings(r)
	return
}

func short(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func txt(x any) string {
	switch v := x.(type) {
	case bool, uint64:
		return fmt.Sprint(v)
	case tosca.Address:
		return fmt.Sprintf("%x", v[:])
	case tosca.Value:
		return fmt.Sprintf("%x", v[:])
	case tosca.Word:
		return fmt.Sprintf("%x", v[:])
	case slot:
		return fmt.Sprintf("%x/%x", v.a[:], v.k[:])
	case tosca.Code:
		return fmt.Sprintf("%x", []byte(v))
	}
	return fmt.Sprintf("%x", x)
}

// hasher condenses what is compared; texts are only made once something differs.
type hasher uint64

func (h *hasher) u(v uint64) {
	x := (uint64(*h) ^ v) * 0x9e3779b97f4a7c15
	*h = hasher(x ^ x>>29)
}

func (h *hasher) b(b []byte) {
	h.u(uint64(len(b)))
	for ; len(b) >= 8; b = b[8:] {
		h.u(binary.LittleEndian.Uint64(b))
	}
	for _, c := range b {
		h.u(uint64(c) + 256)
	}
}

func flag8(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// hash covers everything diff compares, independent of the order of maps.
func (s *state) hash(warm bool) uint64 {
	var t uint64
	for k, v := range s.bal {
		if v != (tosca.Value{}) {
			h := hasher(1)
			h.b(k[:])
			h.b(v[:])
			t += uint64(h)
		}
	}
	for k, v := range s.nonce {
		if v != 0 {
			h := hasher(2)
			h.b(k[:])
			h.u(v)
			t += uint64(h)
		}
	}
	for k, v := range s.code {
		if len(v) > 0 {
			h := hasher(3)
			h.b(k[:])
			h.b(v)
			t += uint64(h)
		}
	}
	for i, m := range []map[slot]tosca.Word{s.sto, s.tra} {
		for k, v := range m {
			if v != (tosca.Word{}) {
				h := hasher(4 + i)
				h.b(k.a[:])
				h.b(k.k[:])
				h.b(v[:])
				t += uint64(h)
			}
		}
	}
	for i, l := range s.logs {
		h := hasher(100 + i)
		h.b(l.Address[:])
		for _, x := range l.Topics {
			h.b(x[:])
		}
		h.b(l.Data)
		t += uint64(h)
	}
	if warm {
		for k, v := range s.warmA {
			if v {
				h := hasher(6)
				h.b(k[:])
				t += uint64(h)
			}
		}
		for k, v := range s.warmS {
			if v {
				h := hasher(7)
				h.b(k.a[:])
				h.b(k.k[:])
				t += uint64(h)
			}
		}
	}
	return t
}
