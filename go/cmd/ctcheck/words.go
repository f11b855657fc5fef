package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	ct "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	prand "pgregory.net/rand"

	"verif/rep"
)

var mod = new(big.Int).Lsh(big.NewInt(1), 256)
var half = new(big.Int).Lsh(big.NewInt(1), 255)

// word draws words that are telling: few bits, long carries, equal limbs.
func word(r *rand.Rand) (w [32]byte) {
	limb := func() uint64 {
		switch r.Intn(8) {
		case 0, 1:
			return 0
		case 2, 3:
			return math.MaxUint64
		case 4:
			return 1 << r.Intn(64)
		case 5:
			return uint64(r.Intn(3))
		case 6:
			return math.MaxUint64 - uint64(r.Intn(3))
		}
		return r.Uint64()
	}
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint64(w[8*i:], limb())
	}
	switch r.Intn(8) {
	case 0, 1:
		r.Read(w[r.Intn(32):])
	case 2: // small numbers: shift distances, byte positions, exponents
		w = [32]byte{}
		binary.BigEndian.PutUint16(w[30:], uint16(r.Intn(520)))
	}
	return w
}

func toBig(w [32]byte) *big.Int { return new(big.Int).SetBytes(w[:]) }
func wrap(b *big.Int) *big.Int  { return new(big.Int).Mod(b, mod) }
func fromBig(b *big.Int) (w [32]byte) {
	wrap(b).FillBytes(w[:])
	return
}
func signed(b *big.Int) *big.Int {
	if b.Cmp(half) >= 0 {
		return new(big.Int).Sub(b, mod)
	}
	return new(big.Int).Set(b)
}
func u(w [32]byte) ct.U256 { return ct.NewU256FromBytes(w[:]...) }

func words() {
	rep.Parallel(8, func(w int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(w)))
		for i := 0; i < scale(40000, 3000000); i++ {
			R.Guard("word", func() { wordCase(r) })
		}
		for i := 0; i < scale(1500, 60000); i++ {
			R.Guard("text", func() { wordText(r) })
			R.Guard("bytes", func() { byteValues(r) })
		}
	})
	R.Guard("revision", revisions)
}

func wordCase(r *rand.Rand) {
	wa, wb, wc := word(r), word(r), word(r)
	switch r.Intn(6) {
	case 0:
		wb = wa
	case 1:
		wb = fromBig(new(big.Int).Sub(mod, toBig(wa)))
	case 2:
		wb = wa
		wb[r.Intn(32)] ^= 1 << r.Intn(8)
	}
	if r.Intn(4) == 0 {
		wc = wb
	}
	a, b, c := toBig(wa), toBig(wb), toBig(wc)
	x, y, z := u(wa), u(wb), u(wc)
	R.Eval(1)
	R.Distinct(rep.Fnv(wa, wb, wc))
	eq := func(op string, want *big.Int, got ct.U256) {
		w := fromBig(want)
		if got.Bytes32be() != w {
			R.Violation("word:"+op, fmt.Sprintf("%s(%x, %x, %x) = %x, want %x", op, wa, wb, wc, got.Bytes32be(), w), "")
		}
		R.Add("operations", 1)
	}
	flag := func(op string, want, got bool) {
		if want != got {
			R.Violation("word:"+op, fmt.Sprintf("%s(%x, %x) = %v, want %v", op, wa, wb, got, want), "")
		}
		R.Add("operations", 1)
	}
	n := func() *big.Int { return new(big.Int) }
	orZero := func(d *big.Int, f func() *big.Int) *big.Int {
		if d.Sign() == 0 {
			return n()
		}
		return f()
	}
	sa, sb := signed(a), signed(b)
	eq("add", n().Add(a, b), x.Add(y))
	eq("sub", n().Sub(a, b), x.Sub(y))
	eq("mul", n().Mul(a, b), x.Mul(y))
	eq("addmod", orZero(c, func() *big.Int { return n().Mod(n().Add(a, b), c) }), x.AddMod(y, z))
	eq("mulmod", orZero(c, func() *big.Int { return n().Mod(n().Mul(a, b), c) }), x.MulMod(y, z))
	eq("div", orZero(b, func() *big.Int { return n().Quo(a, b) }), x.Div(y))
	eq("mod", orZero(b, func() *big.Int { return n().Rem(a, b) }), x.Mod(y))
	eq("sdiv", orZero(b, func() *big.Int { return n().Quo(sa, sb) }), x.SDiv(y))
	eq("smod", orZero(b, func() *big.Int { return n().Rem(sa, sb) }), x.SMod(y))
	eq("exp", n().Exp(a, b, mod), x.Exp(y))
	eq("and", n().And(a, b), x.And(y))
	eq("or", n().Or(a, b), x.Or(y))
	eq("xor", n().Xor(a, b), x.Xor(y))
	eq("not", n().Sub(n().Sub(mod, big.NewInt(1)), a), x.Not())
	ext := a
	if b.Cmp(big.NewInt(31)) < 0 {
		bits := uint(8 * (b.Int64() + 1))
		ext = n().Mod(a, n().Lsh(big.NewInt(1), bits))
		if ext.Bit(int(bits-1)) == 1 {
			ext = n().Sub(ext, n().Lsh(big.NewInt(1), bits))
		}
	}
	eq("signextend", ext, x.SignExtend(y))
	shl, shr, sar := n(), n(), n()
	if b.Cmp(big.NewInt(256)) < 0 {
		d := uint(b.Uint64())
		shl.Lsh(a, d)
		shr.Rsh(a, d)
		sar.Rsh(sa, d)
	} else if sa.Sign() < 0 {
		sar.SetInt64(-1)
	}
	eq("shl", shl, x.Shl(y))
	eq("shr", shr, x.Shr(y))
	eq("srsh", sar, x.Srsh(y))
	flag("eq", a.Cmp(b) == 0, x.Eq(y))
	flag("ne", a.Cmp(b) != 0, x.Ne(y))
	flag("==", a.Cmp(b) == 0, x == y)
	flag("lt", a.Cmp(b) < 0, x.Lt(y))
	flag("gt", a.Cmp(b) > 0, x.Gt(y))
	flag("slt", sa.Cmp(sb) < 0, x.Slt(y))
	flag("sgt", sa.Cmp(sb) > 0, x.Sgt(y))
	flag("iszero", a.Sign() == 0, x.IsZero())
	flag("isuint64", a.IsUint64(), x.IsUint64())
	if x.Uint64() != n().And(a, n().SetUint64(math.MaxUint64)).Uint64() {
		R.Violation("word:uint64", fmt.Sprintf("Uint64(%x) = %x", wa, x.Uint64()), "")
	}
	if got := x.Bytes20be(); !bytes.Equal(got[:], wa[12:]) || ct.NewAddress(x) != tosca.Address(got) {
		R.Violation("word:bytes20", fmt.Sprintf("Bytes20be(%x) = %x", wa, got), "")
	}
	eq("address", toBig([32]byte(append(make([]byte, 12), wa[12:]...))), ct.AddressToU256(ct.NewAddress(x)))
	eq("bigint", a, ct.NewU256FromBigInt(a))
	if x.ToBigInt().Cmp(a) != 0 {
		R.Violation("word:tobigint", fmt.Sprintf("ToBigInt(%x) = %v", wa, x.ToBigInt()), "")
	}
	i := x.Uint256()
	eq("uint256", a, ct.NewU256FromUint256(&i))
	l := [4]uint64{}
	for k := range l {
		l[k] = binary.BigEndian.Uint64(wa[8*k:])
	}
	k := r.Intn(5)
	eq("limbs", n().Mod(a, n().Lsh(big.NewInt(1), uint(64*k))), ct.NewU256(l[4-k:]...))
	k = r.Intn(33)
	eq("frombytes", n().SetBytes(wa[:k]), ct.NewU256FromBytes(wa[:k]...))
	// the operands are values and stay what they were
	eq("operand", a, x)
	eq("operand", b, y)
	eq("operand", c, z)
	// Draws from a range lie in it; so do repeated ones with the same seed.
	lo, hi, wl, wh := x, y, a, b
	if a.Cmp(b) > 0 {
		lo, hi, wl, wh = y, x, b, a
	}
	rs := r.Uint64()
	d := ct.RandU256Between(prand.New(rs), lo, hi)
	db := d.ToBigInt()
	if db.Cmp(wl) < 0 || db.Cmp(wh) > 0 {
		R.Violation("word:between", fmt.Sprintf("RandU256Between(%x, %x) = %v", wl, wh, d), "")
	}
	if d != ct.RandU256Between(prand.New(rs), lo, hi) {
		R.Violation("word:between", "same seed, different draw", "")
	}
}

func wordText(r *rand.Rand) {
	wa := word(r)
	x := u(wa)
	R.Eval(1)
	R.Add("texts", 1)
	want := fmt.Sprintf("%x %x %x %x", wa[:8], wa[8:16], wa[16:24], wa[24:])
	if x.String() != want {
		R.Violation("word:string", fmt.Sprintf("String(%x) = %q", wa, x.String()), "")
	}
	if x.DecimalString() != toBig(wa).String() {
		R.Violation("word:decimal", fmt.Sprintf("DecimalString(%x) = %q", wa, x.DecimalString()), "")
	}
	text, err := x.MarshalText()
	if err != nil || string(text) != want {
		R.Violation("word:marshal", fmt.Sprintf("MarshalText(%x) = %q, %v", wa, text, err), "")
	}
	y := u(word(r))
	if err := y.UnmarshalText(text); err != nil || y != x {
		R.Violation("word:unmarshal", fmt.Sprintf("UnmarshalText(%q) = %v, %v", text, y, err), "")
	}
	up := u(word(r))
	if err := up.UnmarshalText([]byte(strings.ToUpper(want))); err == nil && up != x {
		R.Violation("word:unmarshal", fmt.Sprintf("upper case %q read as %v", want, up), "")
	}
	// as map key and value, as the state files use it
	m := map[ct.U256]ct.U256{x: y, u(word(r)): u(word(r))}
	j, err := json.Marshal(m)
	back := map[ct.U256]ct.U256{}
	if err != nil || json.Unmarshal(j, &back) != nil || len(back) != len(m) {
		R.Violation("word:json", fmt.Sprintf("%v: %s", m, j), "")
	}
	for k, v := range m {
		if back[k] != v {
			R.Violation("word:json", fmt.Sprintf("%v: %s", m, j), "")
		}
	}
	// damaged texts: what is accepted must be a well-formed number with that value
	d := []byte(want)
	switch r.Intn(5) {
	case 0:
		d[r.Intn(len(d))] = byte(r.Intn(256))
	case 1:
		p := r.Intn(len(d))
		d = append(d[:p:p], d[p+1:]...)
	case 2:
		p := r.Intn(len(d) + 1)
		d = append(append(d[:p:p], "0 fg\n-x"[r.Intn(7)]), d[p:]...)
	case 3:
		d = append(d, []byte("\n")...)
	case 4:
		d = d[:r.Intn(len(d))]
	}
	q := u(word(r))
	if err := q.UnmarshalText(d); err == nil {
		R.Add("damaged_texts_accepted", 1)
		if !strings.EqualFold(string(d), q.String()) {
			R.Violation("word:unmarshal-damaged", fmt.Sprintf("%q read as %v", d, q), "")
		}
	} else {
		R.Add("damaged_texts_rejected", 1)
		if strings.EqualFold(string(d), want) {
			R.Violation("word:unmarshal", fmt.Sprintf("%q rejected", d), "")
		}
	}
	for _, v := range []*big.Int{new(big.Int).Neg(new(big.Int).Add(toBig(wa), big.NewInt(1))), new(big.Int).Add(toBig(wa), mod)} {
		ok := func() (ok bool) {
			defer func() { ok = recover() != nil }()
			ct.NewU256FromBigInt(v)
			return
		}()
		if !ok {
			R.Violation("word:bigint-range", fmt.Sprintf("%v accepted", v), "")
		}
	}
}

func byteValues(r *rand.Rand) {
	data := make([]byte, r.Intn(100))
	r.Read(data)
	keep := bytes.Clone(data)
	b := ct.NewBytes(data)
	R.Eval(1)
	R.Add("byte_values", 1)
	if len(data) > 0 {
		data[r.Intn(len(data))]++ // the value must not follow its source
	}
	c := b.ToBytes()
	if !bytes.Equal(c, keep) || b.Length() != len(keep) {
		R.Violation("bytes:copy", fmt.Sprintf("%x stored as %x", keep, c), "")
	}
	if len(c) > 0 {
		c[r.Intn(len(c))]++
		if !bytes.Equal(b.ToBytes(), keep) {
			R.Violation("bytes:copy", "a handed out slice changes the value", "")
		}
		lo := r.Intn(len(keep))
		hi := lo + r.Intn(len(keep)-lo+1)
		if !bytes.Equal(b.Get(uint64(lo), uint64(hi)), keep[lo:hi]) {
			R.Violation("bytes:get", fmt.Sprintf("Get(%d,%d) of %x", lo, hi, keep), "")
		}
	}
	if b.String() != fmt.Sprintf("0x%x", keep) {
		R.Violation("bytes:string", b.String(), "")
	}
	j, err := json.Marshal(b)
	back := ct.NewBytes([]byte{1, 2})
	if err != nil || json.Unmarshal(j, &back) != nil || back != b {
		R.Violation("bytes:json", fmt.Sprintf("%x written as %s read as %v", keep, j, back), "")
	}
	n := r.Intn(80)
	right, left := make([]byte, n), make([]byte, n)
	copy(right, keep)
	if n < len(keep) {
		copy(left, keep)
	} else {
		copy(left[n-len(keep):], keep)
	}
	if !bytes.Equal(ct.RightPadSlice(keep, n), right) || !bytes.Equal(ct.LeftPadSlice(keep, n), left) {
		R.Violation("bytes:pad", fmt.Sprintf("%x padded to %d: %x, %x", keep, n, ct.RightPadSlice(keep, n), ct.LeftPadSlice(keep, n)), "")
	}
	limit := r.Intn(300)
	if s := ct.RandomBytes(prand.New(r.Uint64()), limit); s.Length() > limit {
		R.Violation("bytes:random", fmt.Sprintf("%d bytes, limit %d", s.Length(), limit), "")
	}
	if s := ct.RandomBytesOfSize(prand.New(r.Uint64()), limit); s.Length() != limit {
		R.Violation("bytes:random", fmt.Sprintf("%d bytes, wanted %d", s.Length(), limit), "")
	}
	// hash arrays
	hashes := make([]tosca.Hash, r.Intn(257))
	for i := range hashes {
		if r.Intn(2) == 0 {
			r.Read(hashes[i][:])
		}
	}
	arr := ct.NewImmutableHashArray(hashes...)
	saved := append([]tosca.Hash{}, hashes...)
	if len(hashes) > 0 {
		hashes[r.Intn(len(hashes))][3] ^= 1
	}
	same := ct.NewImmutableHashArray(saved...)
	for i := uint64(0); i < 256; i++ {
		want := tosca.Hash{}
		if int(i) < len(saved) {
			want = saved[i]
		}
		if arr.Get(i) != want {
			R.Violation("hasharray:get", fmt.Sprintf("index %d: %x", i, arr.Get(i)), "")
		}
	}
	if !arr.Equal(same) || !same.Equal(arr) {
		R.Violation("hasharray:equal", "equal arrays differ", "")
	}
	p := r.Intn(256)
	full := append(append([]tosca.Hash{}, saved...), make([]tosca.Hash, 256-len(saved))...)
	full[p][r.Intn(32)] ^= 1 << r.Intn(8)
	if other := ct.NewImmutableHashArray(full...); arr.Equal(other) || other.Equal(arr) {
		R.Violation("hasharray:equal", fmt.Sprintf("arrays differing at %d equal", p), "")
	}
	if zero := (ct.ImmutableHashArray{}); zero.Equal(arr) != arr.Equal(zero) || zero.Equal(arr) != arr.Equal(ct.NewImmutableHashArray()) {
		R.Violation("hasharray:equal", "nil array compares differently from a zero array", "")
	}
	j, err = json.Marshal(arr)
	var rd ct.ImmutableHashArray
	if err != nil || json.Unmarshal(j, &rd) != nil || !rd.Equal(arr) {
		R.Violation("hasharray:json", "not read back", "")
	}
}

// revisions checks that fork blocks and times order the revisions and that block
// numbers map to the revision whose range they lie in.
func revisions() {
	var prev uint64
	for rev := ct.MinRevision; rev <= ct.NewestSupportedRevision+1; rev++ {
		r := rev
		if r > ct.NewestSupportedRevision {
			r = ct.R99_UnknownNextRevision
		}
		start := ct.GetForkBlock(r)
		if rev > ct.MinRevision && start <= prev {
			R.Violation("revision:order", fmt.Sprintf("%v starts at %d", r, start), "")
		}
		prev = start
		n, err := ct.GetBlockRangeLengthFor(r)
		if err != nil {
			R.Violation("revision:length", err.Error(), "")
		}
		blocks := []uint64{start, start + 1, start + n/2, start + n - 1}
		if r == ct.R99_UnknownNextRevision {
			blocks = []uint64{start, start + 1, math.MaxUint64}
		}
		for _, b := range blocks {
			R.Eval(1)
			if got := ct.GetRevisionForBlock(b); got != r {
				R.Violation("revision:block", fmt.Sprintf("block %d is %v, want %v", b, got, r), "")
			}
		}
		if ct.GetForkTime(r) != ct.GetForkTime(r) || (rev > ct.MinRevision && ct.GetForkTime(r) == 0) {
			R.Violation("revision:time", fmt.Sprintf("%v", r), "")
		}
	}
}
