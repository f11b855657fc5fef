package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"

	"verif/rep"
)

var mod = new(big.Int).Lsh(big.NewInt(1), 256)

// word draws words that are telling: few bits, long carries, equal limbs.
func word(r *rand.Rand) (w [32]byte) {
	limb := func() uint64 {
		switch r.Intn(8) {
		case 0, 1:
			return 0
		case 2, 3:
			return math.MaxUint64
		case 4:
			return 1 << r.Intn(64)
		case 5:
			return uint64(r.Intn(3))
		case 6:
			return math.MaxUint64 - uint64(r.Intn(3))
		}
		return r.Uint64()
	}
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint64(w[8*i:], limb())
	}
	if r.Intn(4) == 0 {
		r.Read(w[r.Intn(32):])
	}
	return w
}

func toBig(w [32]byte) *big.Int { return new(big.Int).SetBytes(w[:]) }
func fromBig(b *big.Int) (w [32]byte) {
	new(big.Int).Mod(b, mod).FillBytes(w[:])
	return
}

// pair draws operands that are often related.
func pair(r *rand.Rand) (a, b [32]byte) {
	a, b = word(r), word(r)
	switch r.Intn(6) {
	case 0:
		b = a
	case 1:
		b = fromBig(new(big.Int).Sub(mod, toBig(a)))
	case 2:
		b = a
		b[r.Intn(32)] ^= 1 << r.Intn(8)
	}
	return
}

func bad(op string, want, got any, args ...any) {
	R.Violation("value:"+op, fmt.Sprintf("%s%v: got %v, want %v", op, args, got, want), "")
}

func values() {
	rep.Parallel(8, func(w int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(w)))
		for i := 0; i < scale(60000, 6000000); i++ {
			R.Guard("value", func() { valueCase(r) })
		}
	})
	texts256()
	for _, s := range []uint64{0, 1, 31, 32, 33, 63, 64, 65, math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - 30, math.MaxUint64 - 31, math.MaxUint64 - 32, math.MaxInt64, 1 << 32, 1<<32 - 1} {
		words(s)
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 20000; i++ {
		words(r.Uint64() >> r.Intn(64))
	}
}

func words(s uint64) {
	want := new(big.Int).Div(new(big.Int).Add(new(big.Int).SetUint64(s), big.NewInt(31)), big.NewInt(32))
	if got := tosca.SizeInWords(s); want.Cmp(new(big.Int).SetUint64(got)) != 0 {
		bad("SizeInWords", want, got, s)
	}
	R.Eval(1)
}

func valueCase(r *rand.Rand) {
	x, y := pair(r)
	a, b := tosca.Value(x), tosca.Value(y)
	A, B := toBig(x), toBig(y)
	R.Eval(1)
	R.Distinct(rep.Fnv(string(x[:]), string(y[:])))
	eq := func(op string, want *big.Int, got tosca.Value, args ...any) {
		if fromBig(want) != [32]byte(got) {
			bad(op, fmt.Sprintf("%x", fromBig(want)), fmt.Sprintf("%x", got[:]), args...)
		}
	}
	eq("Add", new(big.Int).Add(A, B), tosca.Add(a, b), a, b)
	eq("Sub", new(big.Int).Sub(A, B), tosca.Sub(a, b), a, b)
	s := r.Uint64() >> r.Intn(64)
	if r.Intn(4) == 0 {
		s = math.MaxUint64
	}
	eq("Scale", new(big.Int).Mul(A, new(big.Int).SetUint64(s)), a.Scale(s), a, s)
	if got := a.Cmp(b); got != A.Cmp(B) {
		bad("Cmp", A.Cmp(B), got, a, b)
	}
	if got := a.ToBig(); got.Cmp(A) != 0 {
		bad("ToBig", A, got, a)
	}
	if got := a.ToUint256().Bytes32(); got != x {
		bad("ToUint256", x, got, a)
	}
	u := a.ToUint256()
	u.SetUint64(7) // the result is a copy
	if a != tosca.Value(x) {
		bad("ToUint256-aliases", x, a, x)
	}
	eq("ValueFromUint256", A, tosca.ValueFromUint256(new(uint256.Int).SetBytes(x[:])), a)
	if got := a.String(); got != A.String() {
		bad("String", A.String(), got, x)
	}
	limbs := []uint64{binary.BigEndian.Uint64(x[:]), binary.BigEndian.Uint64(x[8:]), binary.BigEndian.Uint64(x[16:]), binary.BigEndian.Uint64(x[24:])}
	n := r.Intn(5)
	want := new(big.Int)
	for _, l := range limbs[:n] {
		want.Or(want.Lsh(want, 64), new(big.Int).SetUint64(l))
	}
	eq(fmt.Sprintf("NewValue/%d", n), want, tosca.NewValue(limbs[:n]...), limbs[:n])
	if a != tosca.Value(x) || b != tosca.Value(y) {
		bad("operand-changed", x, a)
	}
	// printing and parsing
	text, err := a.MarshalText()
	if want := "0x" + hex.EncodeToString(x[:]); err != nil || string(text) != want {
		bad("MarshalText", want, string(text), err)
	}
	var back tosca.Value
	back[3] = 0x77
	if err := back.UnmarshalText(text); err != nil || back != a {
		bad("UnmarshalText", a, back, err)
	}
	var addr, addr2 tosca.Address
	copy(addr[:], x[7:])
	text, err = addr.MarshalText()
	if want := "0x" + hex.EncodeToString(addr[:]); err != nil || string(text) != want || addr.String() != want {
		bad("Address.MarshalText", want, string(text), err, addr.String())
	}
	if err := addr2.UnmarshalText(text); err != nil || addr2 != addr {
		bad("Address.UnmarshalText", addr, addr2, err)
	}
	for what, got := range map[string]string{"Key.String": tosca.Key(x).String(), "Word.String": tosca.Word(x).String()} {
		if want := "0x" + hex.EncodeToString(x[:]); got != want {
			bad(what, want, got)
		}
	}
	j, err := json.Marshal(map[tosca.Address]tosca.Value{addr: a})
	var m map[tosca.Address]tosca.Value
	if err != nil || json.Unmarshal(j, &m) != nil || len(m) != 1 || m[addr] != a {
		bad("JSON", a, string(j), err)
	}
	if h := tosca.Hash(x); tosca.Value(h) != a {
		bad("Hash", x, h)
	}
	R.Add("operations_compared", 17)
}

// texts256 feeds malformed texts: they are rejected and leave the target alone.
func texts256() {
	r := rand.New(rand.NewSource(seed + 99))
	for i := 0; i < scale(30000, 1000000); i++ {
		size := []int{20, 32}[i%2]
		raw := make([]byte, size)
		r.Read(raw)
		t := "0x" + hex.EncodeToString(raw)
		valid := true
		switch r.Intn(10) {
		case 0:
			t, valid = t[2:], false
		case 1:
			t, valid = t[:len(t)-1], false
		case 2:
			t, valid = t[:len(t)-2], false
		case 3:
			t, valid = t+"0", false
		case 4:
			t, valid = t+"00", false
		case 5:
			p := 2 + r.Intn(len(t)-2)
			t, valid = t[:p]+string("gG xX-+_.\x00\xff"[r.Intn(11)])+t[p+1:], false
		case 6:
			t = "0x" + strings.ToUpper(t[2:])
		case 7:
			t, valid = " "+t, false
		case 8:
			t, valid = []string{"", "0", "0x", "x", "0x0", "\"\""}[r.Intn(6)], false
		}
		target := bytes.Repeat([]byte{0xa5}, size)
		var err error
		if size == 20 {
			var a tosca.Address
			copy(a[:], target)
			err = a.UnmarshalText([]byte(t))
			copy(target, a[:])
		} else {
			var a tosca.Value
			copy(a[:], target)
			err = a.UnmarshalText([]byte(t))
			copy(target, a[:])
		}
		R.Eval(1)
		if valid {
			if err != nil || !bytes.Equal(target, raw) {
				bad("UnmarshalText-accepts", hex.EncodeToString(raw), hex.EncodeToString(target), t, err)
			}
		} else {
			R.Add("malformed_texts", 1)
			if err == nil {
				bad("UnmarshalText-rejects", "an error", hex.EncodeToString(target), t)
			}
		}
	}
	R.Sample("malformed text: %q", "0x"+strings.Repeat("0", 39)+"g")
}

// The classification of EIP-2200, as in the EVMC documentation, written as a
// decision on which of the values are zero and which are equal.
func wantStatus(o, c, n int) tosca.StorageStatus {
	z := func(x int) bool { return x == 0 }
	switch {
	case c == n:
		return tosca.StorageAssigned
	case c == o && z(o):
		return tosca.StorageAdded
	case c == o && z(n):
		return tosca.StorageDeleted
	case c == o:
		return tosca.StorageModified
	case z(o) && z(n):
		return tosca.StorageAddedDeleted
	case z(o):
		return tosca.StorageAssigned
	case z(c) && n == o:
		return tosca.StorageDeletedRestored
	case z(c):
		return tosca.StorageDeletedAdded
	case z(n):
		return tosca.StorageModifiedDeleted
	case n == o:
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}

func storageStatus() {
	classes := [][3]int{}
	for o := 0; o < 4; o++ {
		for c := 0; c < 4; c++ {
			for n := 0; n < 4; n++ {
				classes = append(classes, [3]int{o, c, n})
			}
		}
	}
	rep.Parallel(8, func(w int) {
		r := rand.New(rand.NewSource(seed*1000 + int64(w)))
		for i := 0; i < scale(2000, 200000); i++ {
			var v [4]tosca.Word
			switch r.Intn(3) {
			case 0: // unrelated words
				for k := 1; k < 4; k++ {
					v[k] = word(r)
				}
			case 1: // words that differ from zero and each other in one bit
				p := r.Perm(256)
				for k := 1; k < 4; k++ {
					v[k][p[k]/8] ^= 1 << (p[k] % 8)
				}
			default: // words that differ from each other in one bit
				v[1] = word(r)
				v[2], v[3] = v[1], v[1]
				p := r.Perm(256)
				v[2][p[0]/8] ^= 1 << (p[0] % 8)
				v[3][p[1]/8] ^= 1 << (p[1] % 8)
			}
			if v[0] == v[1] || v[0] == v[2] || v[0] == v[3] || v[1] == v[2] || v[1] == v[3] || v[2] == v[3] {
				continue
			}
			for _, c := range classes {
				want := wantStatus(c[0], c[1], c[2])
				got := tosca.GetStorageStatus(v[c[0]], v[c[1]], v[c[2]])
				R.Eval(1)
				R.Add("status_"+want.String(), 1)
				if got != want {
					R.Violation(fmt.Sprintf("status:%d%d%d", c[0], c[1], c[2]), fmt.Sprintf("original %v, current %v, new %v: %v instead of %v", v[c[0]], v[c[1]], v[c[2]], got, want), "")
				}
			}
			R.Distinct(rep.Fnv(v))
		}
	})
	seen := map[string]bool{}
	all := tosca.GetAllStorageStatuses()
	for _, s := range all {
		seen[s.String()] = true
	}
	if len(all) != 9 || len(seen) != 9 {
		R.Violation("status:list", fmt.Sprint(all), "")
	}
	R.Sample("all 64 patterns of (original, current, new) over zero and three words")
}

func texts() {
	type revCase struct {
		r    tosca.Revision
		text string
	}
	known := []revCase{{tosca.R07_Istanbul, "Istanbul"}, {tosca.R09_Berlin, "Berlin"}, {tosca.R10_London, "London"}, {tosca.R11_Paris, "Paris"}, {tosca.R12_Shanghai, "Shanghai"}, {tosca.R13_Cancun, "Cancun"}}
	all := tosca.GetAllKnownRevisions()
	if len(all) != len(known) {
		R.Violation("revision:list", fmt.Sprint(all), "")
	}
	texts := map[string]tosca.Revision{}
	for i, k := range known {
		if i < len(all) && all[i] != k.r {
			R.Violation("revision:order", fmt.Sprint(all), "")
		}
		if k.r.String() != k.text {
			R.Violation("revision:name:"+k.text, k.r.String(), "")
		}
		if i > 0 && known[i-1].r >= k.r {
			R.Violation("revision:order", k.text, "")
		}
	}
	r := rand.New(rand.NewSource(seed))
	revs := []tosca.Revision{99, 1 << 31, -1 << 31, math.MaxInt64, math.MinInt64}
	for i := tosca.Revision(-300); i < 300; i++ {
		revs = append(revs, i)
	}
	for i := 0; i < 3000; i++ {
		revs = append(revs, tosca.Revision(int64(r.Uint64())>>r.Intn(64)))
	}
	for _, v := range revs {
		R.Eval(1)
		R.Distinct(rep.Fnv("r", int64(v)))
		b, err := json.Marshal(v)
		var back tosca.Revision = 1234567
		if err != nil {
			R.Violation("revision:marshal", fmt.Sprint(int64(v), err), "")
			continue
		}
		if err := json.Unmarshal(b, &back); err != nil || back != v {
			R.Violation("revision:round-trip", fmt.Sprintf("revision %d as %s decodes to %d, %v", int64(v), b, int64(back), err), "")
		}
		if o, found := texts[string(b)]; found && o != v {
			R.Violation("revision:same-text", fmt.Sprintf("%d and %d are both %s", int64(o), int64(v), b), "")
		}
		if s, _ := json.Marshal(v.String()); string(s) != string(b) {
			R.Violation("revision:two-texts", fmt.Sprintf("%s and %s", s, b), "")
		}
		texts[string(b)] = v
	}
	kinds := map[tosca.CallKind]string{tosca.Call: "call", tosca.StaticCall: "static_call", tosca.DelegateCall: "delegate_call", tosca.CallCode: "call_code", tosca.Create: "create", tosca.Create2: "create2"}
	if len(kinds) != 6 {
		R.Violation("kind:same-value", fmt.Sprint(kinds), "")
	}
	for k, name := range kinds {
		b, err := json.Marshal(k)
		var back tosca.CallKind = 99
		if err != nil || string(b) != `"`+name+`"` || k.String() != name {
			R.Violation("kind:text:"+name, fmt.Sprintf("%s %v %v", b, k, err), "")
		}
		if err := json.Unmarshal(b, &back); err != nil || back != k {
			R.Violation("kind:round-trip:"+name, fmt.Sprintf("%v %v", back, err), "")
		}
		R.Eval(1)
		R.Distinct(rep.Fnv("k", name))
	}
	for k := tosca.CallKind(-100); k < 300; k++ {
		if _, ok := kinds[k]; !ok {
			R.Eval(1)
			if b, err := json.Marshal(k); err == nil {
				R.Violation("kind:marshals-unknown", fmt.Sprintf("%d as %s", int(k), b), "")
			}
			if n := k.String(); n != "unknown" {
				for _, name := range kinds {
					if n == name {
						R.Violation("kind:same-text", fmt.Sprintf("%d prints as %s", int(k), n), "")
					}
				}
			}
		}
	}
	// everything else is rejected, also texts close to the accepted ones
	var base []string
	for _, k := range known {
		base = append(base, k.text)
	}
	for _, n := range kinds {
		base = append(base, n)
	}
	base = append(base, "Revision(3)", "Revision(99)", "Revision(-7)", "", "unknown", "R07_Istanbul", "Revision", "Revision()", "Revision(x)", "call code", "staticcall", "3")
	accepted := func(s string) (rev, kind bool) {
		for _, k := range known {
			rev = rev || k.text == s
		}
		var n int64
		if c, err := fmt.Sscanf(s, "Revision(%d)", &n); c == 1 && err == nil {
			rev = rev || fmt.Sprintf("Revision(%d)", n) == s
		}
		for _, n := range kinds {
			kind = kind || n == s
		}
		return
	}
	lenient := func(s string) (rev, kind bool) { // other spellings of a value, which may be accepted
		t := strings.ToLower(s)
		_, kind = accepted(t)
		d := strings.TrimLeft(strings.TrimSuffix(strings.TrimPrefix(s, "Revision("), ")"), "+-0123456789")
		rev = d == "" && strings.HasPrefix(s, "Revision(") && strings.HasSuffix(s, ")")
		for _, k := range known {
			rev = rev || strings.ToLower(k.text) == t
		}
		return
	}
	for i := 0; i < scale(40000, 2000000); i++ {
		s := base[r.Intn(len(base))]
		for n := r.Intn(3); n >= 0; n-- {
			p := r.Intn(len(s) + 1)
			c := string("abcdeIBLPSC()_ 0129-.\n"[r.Intn(22)])
			switch {
			case r.Intn(3) == 0:
				s = s[:p] + c + s[p:]
			case p < len(s) && r.Intn(2) == 0:
				s = s[:p] + s[p+1:]
			case p < len(s):
				s = s[:p] + c + s[p+1:]
			default:
				s += base[r.Intn(len(base))]
			}
		}
		rok, kok := accepted(s)
		rl, kl := lenient(s)
		j, _ := json.Marshal(s)
		var rv tosca.Revision
		var kv tosca.CallKind
		rerr, kerr := json.Unmarshal(j, &rv), json.Unmarshal(j, &kv)
		R.Eval(2)
		if !rok && !rl {
			R.Add("malformed_texts", 1)
			if rerr == nil {
				R.Violation("revision:accepts", fmt.Sprintf("%s decodes to %v", j, rv), "")
			}
		}
		if !kok && !kl {
			R.Add("malformed_texts", 1)
			if kerr == nil {
				R.Violation("kind:accepts", fmt.Sprintf("%s decodes to %v", j, kv), "")
			}
		}
		if rok && rerr != nil {
			R.Violation("revision:rejects", fmt.Sprintf("%s: %v", j, rerr), "")
		}
		if kok && kerr != nil {
			R.Violation("kind:rejects", fmt.Sprintf("%s: %v", j, kerr), "")
		}
	}
	for _, j := range []string{`null`, `7`, `{}`, `[]`, `true`, `"`, ``, `[1]`, `"call`, `1.5`} {
		var rv tosca.Revision = 5
		var kv tosca.CallKind = tosca.Create
		R.Eval(2)
		if err := rv.UnmarshalJSON([]byte(j)); err == nil {
			R.Violation("revision:accepts-json", fmt.Sprintf("%s decodes to %v", j, rv), "")
		}
		if err := kv.UnmarshalJSON([]byte(j)); err == nil {
			R.Violation("kind:accepts-json", fmt.Sprintf("%s decodes to %v", j, kv), "")
		}
	}
	R.Sample("revision 42 as %q, call kinds %v", tosca.Revision(42).String(), kinds)
}
