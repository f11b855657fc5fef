// Package evmgen generates executions (programs plus surrounding state) for the
// EVM monitors. All randomness comes from the given source.
package evmgen

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"math/rand"

	"verif/ref"
)

// Gen generates cases.
type Gen struct {
	R *rand.Rand
	// Focus restricts the kind of programs; empty means the full mix.
	Focus string
	// Rev fixes the revision if >= 0.
	Rev int
	// Static forces the mode: 0 mixed, 1 always static, -1 never.
	Static int

	c     *ref.Case
	addrs []ref.Addr
	keys  []ref.Hash
	b     []byte
	h     int // tracked stack height
	fix   []fixup
	labs  map[int]int
	nlab  int
	depth int
}

type fixup struct{ pos, label int }

func New(seed int64) *Gen { return &Gen{R: rand.New(rand.NewSource(seed)), Rev: -1} }

func (g *Gen) n(k int) int          { return g.R.Intn(k) }
func (g *Gen) p(pct int) bool       { return g.R.Intn(100) < pct }
func (g *Gen) op(ops ...byte)       { g.b = append(g.b, ops...) }
func pick[T any](g *Gen, xs ...T) T { return xs[g.R.Intn(len(xs))] }

func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.R.Read(b)
	return b
}

// Word returns a 256-bit value biased towards boundaries.
func (g *Gen) Word() *big.Int {
	x := new(big.Int)
	switch g.n(12) {
	case 0:
		x.SetInt64(int64(g.n(4)))
	case 1:
		x.SetInt64(int64(pick(g, 0, 1, 2, 7, 8, 30, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 65535, 65536)))
	case 2, 3:
		x.Lsh(big.NewInt(1), uint(pick(g, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 191, 192, 254, 255, g.n(256))))
		x.Add(x, big.NewInt(int64(g.n(3)-1)))
	case 4:
		x.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+g.n(4))))
	case 5:
		x.SetBytes(g.bytes(1 + g.n(32)))
	case 6:
		x.SetBytes(g.bytes(32))
	case 7: // sparse limbs
		for i := 0; i < 4; i++ {
			var l [8]byte
			switch g.n(4) {
			case 0:
				binary.BigEndian.PutUint64(l[:], ^uint64(0))
			case 1:
				binary.BigEndian.PutUint64(l[:], uint64(g.R.Int63()))
			case 2:
				binary.BigEndian.PutUint64(l[:], uint64(g.n(3)))
			}
			x.Lsh(x, 64)
			x.Or(x, new(big.Int).SetBytes(l[:]))
		}
	case 8: // negative small
		x.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(g.n(70000))))
	case 9:
		x = g.Addr().Big()
	default:
		x.SetInt64(int64(g.n(300)))
	}
	return ref.Wrap(x)
}

func (g *Gen) Addr() ref.Addr {
	if g.p(6) {
		var a ref.Addr
		a[19] = byte(1 + g.n(12))
		return a
	}
	if g.p(5) {
		var a ref.Addr
		copy(a[:], g.bytes(20))
		return a
	}
	return g.addrs[g.n(len(g.addrs))]
}

func (g *Gen) Key() ref.Hash {
	if g.p(6) {
		return ref.ToHash(g.Word())
	}
	return g.keys[g.n(len(g.keys))]
}

// StoreVal is a storage value from a very small pool, so that coincidences
// between original, current and new values are common.
func (g *Gen) StoreVal() ref.Hash {
	switch g.n(10) {
	case 0, 1, 2:
		return ref.Hash{}
	case 3:
		return ref.ToHash(g.Word())
	case 4:
		var h ref.Hash
		h[0] = byte(1 + g.n(2))
		return h
	default:
		var h ref.Hash
		h[31] = byte(1 + g.n(3))
		return h
	}
}

// --- code emission ---

func (g *Gen) push(x *big.Int) {
	b := x.Bytes()
	if len(b) == 0 {
		if g.c.Rev >= ref.Shanghai && g.p(60) {
			g.op(0x5f)
			g.h++
			return
		}
		b = []byte{0}
	}
	n := len(b)
	if g.p(12) {
		n += g.n(33 - n)
	}
	g.op(byte(0x5f + n))
	g.b = append(g.b, make([]byte, n-len(b))...)
	g.b = append(g.b, b...)
	g.h++
}

func (g *Gen) pushI(x int64) { g.push(big.NewInt(x)) }

func (g *Gen) label() int { g.nlab++; return g.nlab }

func (g *Gen) place(l int) {
	g.labs[l] = len(g.b)
	g.op(0x5b)
}

func (g *Gen) pushLabel(l int) {
	g.op(0x61, 0, 0)
	g.fix = append(g.fix, fixup{len(g.b) - 2, l})
	g.h++
}

func (g *Gen) resolve() {
	for _, f := range g.fix {
		if t, ok := g.labs[f.label]; ok {
			binary.BigEndian.PutUint16(g.b[f.pos:], uint16(t))
		}
	}
}

// memory offsets and sizes
func (g *Gen) off() *big.Int {
	switch g.n(60) {
	case 0:
		return g.Word()
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(g.n(70))))
	case 2, 3, 4:
		return big.NewInt(int64(g.n(20000)))
	case 5, 6, 7, 8, 9:
		return big.NewInt(int64(32 * g.n(20)))
	default:
		return big.NewInt(int64(g.n(300)))
	}
}

func (g *Gen) size() *big.Int {
	switch g.n(70) {
	case 0:
		return g.Word()
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(g.n(70))))
	case 2, 3:
		return big.NewInt(int64(g.n(9000)))
	case 4, 5, 6, 7, 8, 9, 10:
		return new(big.Int)
	case 11, 12, 13, 14:
		return big.NewInt(int64(pick(g, 1, 31, 32, 33, 63, 64, 65, 96, 128, 136, 135, 137, 272)))
	default:
		return big.NewInt(int64(g.n(200)))
	}
}

// dataOff is an offset into call data, code or return data.
func (g *Gen) dataOff() *big.Int {
	if g.p(15) {
		return g.Word()
	}
	return big.NewInt(int64(g.n(80)))
}

// args emits pushes so that the given words end up on the stack with the first
// one on top.
func (g *Gen) args(xs ...*big.Int) {
	for i := len(xs) - 1; i >= 0; i-- {
		g.push(xs[i])
	}
}

var binOps = []byte{1, 2, 3, 4, 5, 6, 7, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d}
var envOps = []byte{0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x58, 0x59, 0x5a}

func (g *Gen) arith() {
	g.arithOp(binOps[g.n(len(binOps))])
}

func (g *Gen) arithOp(op byte) {
	a, b := g.Word(), g.Word()
	switch op {
	case 0x0a:
		if g.p(50) {
			b = big.NewInt(int64(g.n(600)))
		}
	case 0x0b, 0x1a:
		if g.p(80) {
			a = big.NewInt(int64(g.n(35)))
		}
	case 0x1b, 0x1c, 0x1d:
		if g.p(80) {
			a = big.NewInt(int64(g.n(260)))
		}
	case 0x10, 0x11, 0x12, 0x13, 0x14:
		if g.p(30) {
			b = a
		}
	}
	if g.h >= 1 && g.p(25) { // use what is there
		g.push(a)
	} else {
		g.args(a, b)
	}
	g.op(op)
	g.h--
}

func (g *Gen) stmt() {
	switch g.n(26) {
	case 0, 1, 2, 3:
		g.arith()
	case 4:
		if g.p(50) {
			g.args(g.Word(), g.Word(), g.Word())
			g.op(pick[byte](g, 8, 9))
			g.h -= 2
		} else {
			g.push(g.Word())
			g.op(pick[byte](g, 0x15, 0x19))
		}
	case 5, 6:
		g.memOp()
	case 7, 8, 9:
		g.storeOp()
	case 10, 11:
		g.envOp()
	case 12:
		g.extOp()
	case 13, 14:
		g.stackOp()
	case 15, 16:
		g.callOp()
	case 17:
		g.logOp()
	case 18:
		g.copyOp()
	case 19:
		g.createOp()
	case 20, 21:
		g.branch()
	case 22:
		g.loop()
	case 23:
		g.superSeq()
	case 24:
		g.args(g.off(), g.size())
		g.op(0x20)
		g.h--
	case 25:
		g.retData()
	}
}

func (g *Gen) memOp() {
	switch g.n(4) {
	case 0:
		g.push(g.off())
		g.op(0x51)
	case 1:
		g.args(g.off(), g.Word())
		g.op(0x52)
		g.h -= 2
	case 2:
		g.args(g.off(), g.Word())
		g.op(0x53)
		g.h -= 2
	case 3:
		if g.c.Rev >= ref.Cancun || g.p(5) {
			g.args(g.off(), g.off(), g.size())
			g.op(0x5e)
			g.h -= 3
		} else {
			g.op(0x59)
			g.h++
		}
	}
}

func (g *Gen) storeOp() {
	k := g.Key().Big()
	switch g.n(6) {
	case 0, 1:
		g.push(k)
		g.op(0x54)
	case 2, 3, 4:
		if g.c.Static && g.p(75) {
			g.push(k)
			g.op(0x54)
			return
		}
		g.args(k, g.StoreVal().Big())
		g.op(0x55)
		g.h -= 2
	case 5:
		if g.c.Rev >= ref.Cancun || g.p(3) {
			if g.p(50) || g.c.Static && g.p(75) {
				g.push(k)
				g.op(0x5c)
			} else {
				g.args(k, g.StoreVal().Big())
				g.op(0x5d)
				g.h -= 2
			}
		}
	}
}

func (g *Gen) envOp() {
	switch g.n(8) {
	case 0:
		g.push(g.dataOff())
		g.op(0x35)
	case 1: // BLOCKHASH around the boundaries
		x := big.NewInt(g.c.Number + int64(pick(g, 0, 1, -1, -2, -255, -256, -257, -258, -100)))
		if x.Sign() < 0 || g.p(15) {
			x = g.Word()
		}
		g.push(x)
		g.op(0x40)
	case 2:
		if g.c.Rev >= ref.London || g.p(3) {
			g.op(0x48)
			g.h++
		}
	case 3:
		if g.c.Rev >= ref.Cancun || g.p(3) {
			if g.p(50) {
				x := big.NewInt(int64(g.n(len(g.c.BlobHashes) + 2)))
				if g.p(30) { // about the last one
					x = big.NewInt(int64(max(0, len(g.c.BlobHashes)+1-g.n(4))))
				}
				if g.p(20) {
					x = g.Word()
				}
				g.push(x)
				g.op(0x49)
			} else {
				g.op(0x4a)
				g.h++
			}
		}
	default:
		g.op(envOps[g.n(len(envOps))])
		g.h++
	}
}

func (g *Gen) dirtyAddr() *big.Int {
	x := g.Addr().Big()
	if g.p(15) { // dirty upper bits must be ignored
		x = new(big.Int).Or(x, new(big.Int).Lsh(new(big.Int).SetBytes(g.bytes(12)), 160))
	}
	return x
}

func (g *Gen) extOp() {
	switch g.n(5) {
	case 0:
		g.push(g.dirtyAddr())
		g.op(0x31)
	case 1:
		g.push(g.dirtyAddr())
		g.op(0x3b)
	case 2:
		g.push(g.dirtyAddr())
		g.op(0x3f)
	case 3:
		g.args(g.dirtyAddr(), g.off(), g.dataOff(), g.size())
		g.op(0x3c)
		g.h -= 4
	case 4:
		g.op(0x47)
		g.h++
	}
}

func (g *Gen) copyOp() {
	g.args(g.off(), g.dataOff(), g.size())
	g.op(pick[byte](g, 0x37, 0x39))
	g.h -= 3
}

func (g *Gen) retData() {
	switch g.n(3) {
	case 0:
		g.op(0x3d)
		g.h++
	case 1: // in bounds by construction: copy exactly what is there
		g.op(0x3d)
		g.h++
		g.push(new(big.Int))
		g.push(g.off())
		g.op(0x3e)
		g.h -= 3
	default:
		if g.p(70) { // size - k bytes from offset k
			k := int64(pick(g, 0, 0, 1))
			g.pushI(k)
			g.op(0x3d, 0x03)
			g.pushI(k)
			g.push(g.off())
			g.op(0x3e)
			g.h -= 3
			return
		}
		g.args(g.off(), big.NewInt(int64(g.n(40))), big.NewInt(int64(g.n(40))))
		if g.p(8) {
			g.b = g.b[:len(g.b)]
			g.op(0x50, 0x50, 0x50)
			g.h -= 3
			g.args(g.off(), g.Word(), g.Word())
		}
		g.op(0x3e)
		g.h -= 3
	}
}

func (g *Gen) stackOp() {
	switch g.n(5) {
	case 0:
		if g.h > 0 {
			n := min(g.h, 16)
			g.op(byte(0x80 + g.n(n)))
			g.h++
		} else {
			g.push(g.Word())
		}
	case 1:
		if g.h > 1 {
			n := min(g.h-1, 16)
			g.op(byte(0x90 + g.n(n)))
		} else {
			g.push(g.Word())
		}
	case 2:
		if g.h > 0 && g.p(60) {
			g.op(0x50)
			g.h--
		}
	case 3:
		k := 1 + g.n(18)
		for i := 0; i < k; i++ {
			g.push(g.Word())
		}
		if g.p(70) {
			i := g.n(16)
			g.op(byte(pick(g, 0x80, 0x90) + i))
			if g.b[len(g.b)-1] < 0x90 {
				g.h++
			}
		}
	case 4:
		g.push(g.Word())
	}
}

func (g *Gen) callGas() *big.Int {
	switch g.n(5) {
	case 0:
		return g.Word()
	case 1:
		return new(big.Int)
	case 2:
		return big.NewInt(int64(g.n(3000)))
	default:
		return big.NewInt(int64(g.n(100000)))
	}
}

func (g *Gen) callValue() *big.Int {
	switch g.n(8) {
	case 0:
		return g.Word()
	case 1, 2:
		return big.NewInt(int64(1 + g.n(3)))
	case 3: // around the balance
		x := new(big.Int).Add(g.c.Accounts[g.c.Recipient].Balance, big.NewInt(int64(g.n(3)-1)))
		if x.Sign() < 0 {
			x.SetInt64(0)
		}
		return ref.Wrap(x)
	default:
		return new(big.Int)
	}
}

func (g *Gen) callOp() {
	op := pick[byte](g, 0xf1, 0xf1, 0xf2, 0xf4, 0xfa)
	in1, in2, out1, out2 := g.off(), g.size(), g.off(), g.size()
	if g.p(30) { // overlapping areas
		out1 = in1
	}
	if op == 0xf1 || op == 0xf2 {
		v := g.callValue()
		if g.c.Static && op == 0xf1 && g.p(80) {
			v = new(big.Int)
		}
		g.args(g.callGas(), g.dirtyAddr(), v, in1, in2, out1, out2)
		g.h -= 6
	} else {
		g.args(g.callGas(), g.dirtyAddr(), in1, in2, out1, out2)
		g.h -= 5
	}
	g.op(op)
	if g.p(40) {
		g.op(0x5a)
		g.h++
	}
	if g.p(40) {
		g.retData()
	}
}

func (g *Gen) createOp() {
	if g.c.Static && g.p(80) {
		return
	}
	size := g.size()
	if g.p(8) {
		size = big.NewInt(int64(pick(g, 49151, 49152, 49153, 24576, 24577, 60000)))
	}
	if g.p(50) {
		g.args(g.callValue(), g.off(), size)
		g.op(0xf0)
		g.h -= 2
	} else {
		g.args(g.callValue(), g.off(), size, g.Word())
		g.op(0xf5)
		g.h -= 3
	}
	if g.p(40) {
		g.retData()
	}
}

func (g *Gen) logOp() {
	if g.c.Static && g.p(85) {
		return
	}
	n := g.n(5)
	for i := 0; i < n; i++ {
		g.push(g.Word())
	}
	g.args(g.off(), g.size())
	g.op(byte(0xa0 + n))
	g.h -= n + 2
}

func (g *Gen) cond() {
	switch g.n(4) {
	case 0:
		g.pushI(int64(g.n(2)))
	case 1:
		g.push(g.Word())
	case 2:
		g.arithOp(pick[byte](g, 0x10, 0x11, 0x12, 0x13, 0x14))
	case 3:
		if g.h > 0 {
			g.op(0x80)
			g.h++
		} else {
			g.pushI(1)
		}
	}
	if g.p(30) {
		g.op(0x15)
	}
}

func (g *Gen) branch() {
	if g.depth > 2 {
		g.arith()
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	switch g.n(5) {
	case 0, 1, 2: // if (cond) skip body
		l := g.label()
		h := g.h
		g.cond()
		g.pushLabel(l)
		if g.h < 2 {
			return
		}
		g.op(0x57)
		g.h -= 2
		base := g.h
		for i := g.n(3); i >= 0; i-- {
			g.stmt()
		}
		for g.h > base { // keep heights equal on both paths
			g.op(0x50)
			g.h--
		}
		for g.h < base {
			g.push(g.Word())
		}
		_ = h
		g.place(l)
	case 3: // unconditional jump over data
		l := g.label()
		g.pushLabel(l)
		g.op(0x56)
		g.h--
		junk := g.bytes(g.n(40))
		if g.p(50) {
			for i := range junk {
				if g.p(20) {
					junk[i] = pick[byte](g, 0x5b, 0x60, 0x7f, 0x61)
				}
			}
		}
		// a trailing push would swallow the destination; sometimes wanted
		if g.p(85) {
			junk = append(junk, make([]byte, 33)...)
		}
		g.op(junk...)
		g.place(l)
	case 4: // computed or broken jump
		switch pick(g, 0, 1, 2, 3, 3, 3, 1, 1) {
		case 0:
			g.push(g.Word())
			g.op(0x56)
			g.h--
		case 1:
			l := g.label()
			g.pushLabel(l)
			g.pushI(int64(pick(g, 0, 0, 0, 1)))
			g.op(1)
			g.op(0x56)
			g.h -= 2
			g.place(l)
		case 2: // destination with high bits set
			l := g.label()
			g.pushLabel(l)
			g.push(new(big.Int).Lsh(big.NewInt(1), uint(pick(g, 16, 31, 32, 33, 63, 64, 128, 255))))
			g.op(1)
			g.op(0x56)
			g.h -= 2
			g.place(l)
		default:
			l := g.label()
			g.push(g.Word())
			g.pushLabel(l)
			g.op(0x57)
			g.h -= 2
			g.place(l)
		}
	}
}

func (g *Gen) loop() {
	if g.depth > 1 {
		g.arith()
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	l := g.label()
	g.pushI(int64(1 + g.n(12)))
	base := g.h
	g.place(l)
	for i := g.n(3); i >= 0; i-- {
		g.stmt()
	}
	for g.h > base {
		g.op(0x50)
		g.h--
	}
	for g.h < base {
		g.push(g.Word())
	}
	g.pushI(1)
	g.op(0x90, 3) // SWAP1 SUB
	g.op(0x80)
	g.h++
	g.h--
	g.pushLabel(l)
	g.op(0x57)
	g.h -= 2
	// counter (zero) stays
	g.h = base
}

// superSeq emits the instruction sequences that interpreters like to fuse, with
// whatever is on the stack, plus random neighbours.
func (g *Gen) superSeq() {
	for g.h < 6 {
		g.push(g.Word())
	}
	type seq struct {
		ops []byte
		d   int
	}
	p1 := func() []byte { return []byte{0x60, byte(g.n(256))} }
	p4 := func() []byte { return append([]byte{0x63}, g.bytes(4)...) }
	p2 := func() []byte { return append([]byte{0x61}, g.bytes(2)...) }
	cat := func(bs ...[]byte) (r []byte) {
		for _, b := range bs {
			r = append(r, b...)
		}
		return
	}
	o := func(b ...byte) []byte { return b }
	k := 1 + g.n(4)
	for i := 0; i < k; i++ {
		for g.h < 6 {
			g.push(g.Word())
		}
		s := pick(g,
			seq{o(0x90, 0x50, 0x91, 0x90), -1},       // SWAP1 POP SWAP2 SWAP1
			seq{o(0x50, 0x91, 0x90, 0x50), -2},       // POP SWAP2 SWAP1 POP
			seq{o(0x90, 0x50), -1},                   // SWAP1 POP
			seq{o(0x91, 0x50), -1},                   // SWAP2 POP
			seq{o(0x50, 0x50), -2},                   // POP POP
			seq{o(0x90, 0x91), 0},                    // SWAP1 SWAP2
			seq{o(0x91, 0x90), 0},                    // SWAP2 SWAP1
			seq{o(0x81, 0x10), 0},                    // DUP2 LT
			seq{cat(p1(), p1()), 2},                  // PUSH1 PUSH1
			seq{cat(p1(), o(0x01)), 0},               // PUSH1 ADD
			seq{cat(p1(), o(0x1b)), 0},               // PUSH1 SHL
			seq{cat(p1(), o(0x80)), 2},               // PUSH1 DUP1
			seq{cat(p1(), p4(), o(0x82)), 3},         // PUSH1 PUSH4 DUP3
			seq{o(0x16, 0x90, 0x50, 0x91, 0x90), -2}, // AND SWAP1 POP SWAP2 SWAP1
			seq{cat(p2(), p1(), p1()), 3},            // pushes
			seq{cat(o(0x15), p1(), o(0x16)), 0},      // ISZERO PUSH1 AND
			seq{cat(p1(), p1(), p1(), o(0x01)), 2},   // PUSH1 PUSH1 PUSH1 ADD
			seq{cat(p1(), o(0x80, 0x80)), 3},
			seq{cat(o(0x50), p1(), o(0x90, 0x50)), -1},
		)
		g.op(s.ops...)
		g.h += s.d
	}
	if g.p(40) {
		switch g.n(4) {
		case 0: // ISZERO PUSH2 JUMPI
			l := g.label()
			g.op(0x15)
			g.pushLabel(l)
			g.op(0x57)
			g.h -= 2
			g.place(l)
		case 1: // PUSH2 JUMP
			l := g.label()
			g.pushLabel(l)
			g.op(0x56)
			g.h--
			g.place(l)
		case 2: // function return: dest x y -> SWAP2 SWAP1 POP JUMP
			l := g.label()
			g.pushLabel(l)
			g.push(g.Word())
			g.push(g.Word())
			g.op(0x91, 0x90, 0x50, 0x56)
			g.h -= 2
			g.place(l)
		case 3: // DUP2 MSTORE: value, offset -> keeps
			g.push(big.NewInt(int64(g.n(200))))
			g.push(g.Word())
			g.op(0x81, 0x52)
			g.h--
		}
	}
	if g.p(10) { // bad jump in fused form
		g.push(g.Word())
		g.push(g.Word())
		g.push(g.Word())
		g.op(0x91, 0x90, 0x50, 0x56)
		g.h -= 3
	}
}

// epilogue makes the stack and memory visible and ends the program.
func (g *Gen) epilogue() {
	if g.p(85) {
		n := min(g.h, 8)
		for i := 0; i < n; i++ {
			g.pushI(int64(32 * i))
			g.op(0x52)
			g.h -= 2
		}
		if g.p(30) {
			g.op(0x5a)
			g.h++
			g.pushI(int64(32 * n))
			g.op(0x52)
			g.h -= 2
		}
	}
	switch g.n(12) {
	case 0:
		g.op(0x00)
	case 1:
		g.push(g.dirtyAddr())
		g.op(0xff)
	case 2:
	case 3:
		g.op(0xfe)
	case 4, 5:
		g.op(0x59, 0x5f)
		if g.c.Rev < ref.Shanghai {
			g.b = g.b[:len(g.b)-1]
			g.op(0x60, 0)
		}
		g.op(0xfd)
	case 6:
		g.args(g.off(), g.size())
		g.op(pick[byte](g, 0xf3, 0xfd))
	default:
		g.op(0x59, 0x60, 0, 0xf3)
	}
}

// opFocus runs one instruction on many operand combinations.
func (g *Gen) opFocus() {
	var op byte
	for {
		op = byte(g.n(256))
		if ref.IsDefined(op, g.c.Rev) && op != 0 && op != 0xf3 && op != 0xfd && op != 0xff && op != 0x56 && op != 0x57 {
			break
		}
	}
	g.opFocusOn(op)
}

func (g *Gen) opFocusOn(op byte) {
	pops, pushes := ref.StackEffect(op)
	rounds := 3 + g.n(10)
	if pops > 7 {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		switch {
		case op >= 1 && op <= 7 || op == 0xa || op == 0xb || op >= 0x10 && op <= 0x14 || op >= 0x16 && op <= 0x18 || op >= 0x1a && op <= 0x1d:
			h := g.h
			g.h = 0
			g.arithOp(op)
			g.h = h + 1
		case op == 0x51:
			g.push(g.off())
			g.op(op)
		case op == 0x52 || op == 0x53:
			g.args(g.off(), g.Word())
			g.op(op)
			g.h -= 2
		case op == 0x37 || op == 0x39:
			g.args(g.off(), g.dataOff(), g.size())
			g.op(op)
			g.h -= 3
		case op == 0x3c || op == 0x31 || op == 0x3b || op == 0x3f:
			g.extOp()
			continue
		case op == 0x3e:
			g.callOp()
			g.retData()
			continue
		case op == 0x40 || op >= 0x48 && op <= 0x4a:
			g.envOp()
			continue
		case op >= 0x54 && op <= 0x55 || op == 0x5c || op == 0x5d:
			g.storeOp()
			continue
		case op == 0x5e:
			g.args(g.off(), g.off(), g.size())
			g.op(op)
			g.h -= 3
		case op == 0x20:
			if g.p(50) {
				g.args(big.NewInt(int64(g.n(100))), g.Word())
				g.op(0x52)
				g.h -= 2
			}
			g.args(g.off(), g.size())
			g.op(op)
			g.h--
		case op >= 0x60 && op <= 0x7f:
			g.op(op)
			g.op(g.bytes(int(op) - 0x5f)...)
			g.h++
		case op >= 0xf0 && op != 0xf5 && op != 0xf0:
			g.callOp()
			continue
		case op == 0xf0 || op == 0xf5:
			g.createOp()
			continue
		case op >= 0xa0 && op <= 0xa4:
			g.logOp()
			continue
		default:
			for j := 0; j < pops; j++ {
				g.push(g.Word())
			}
			g.op(op)
			g.h += pushes - pops
		}
		if g.h > 0 && pushes > 0 && pops < 8 {
			g.pushI(int64(32 * i))
			g.op(0x52)
			g.h -= 2
		}
	}
}

// jumpFocus builds codes full of potential destinations inside and outside of
// push data and jumps to an arbitrary position.
func (g *Gen) jumpFocus() {
	n := 3 + g.n(120)
	body := make([]byte, 0, n)
	for len(body) < n {
		switch g.n(6) {
		case 0, 1:
			body = append(body, 0x5b)
		case 2:
			body = append(body, byte(0x60+g.n(32)))
		case 3:
			body = append(body, pick[byte](g, 0x58, 0x5a, 0x30, 0x36, 0x5f))
		case 4:
			k := g.n(33)
			body = append(body, byte(0x5f+k))
			for i := 0; i < k; i++ {
				body = append(body, pick[byte](g, 0x5b, 0x5b, 0x60, 0x00, 0x7f))
			}
		case 5:
			body = append(body, byte(g.n(256)))
		}
	}
	t := g.n(n + 8)
	head := 4
	if g.p(50) {
		// PUSH2 t JUMP
		g.op(0x61, byte((t+head)>>8), byte(t+head), 0x56)
	} else {
		head = 6
		g.op(0x60, byte(g.n(2)), 0x61, byte((t+head)>>8), byte(t+head), 0x57)
	}
	g.op(body...)
	g.h = 0
	if g.p(40) {
		g.op(0x58, 0x60, 0, 0x52, 0x59, 0x60, 0, 0xf3)
	}
}

// hashes digests areas of a few sizes with contents from a tiny pool, so that
// inputs repeat and share prefixes.
func (g *Gen) hashes() {
	for i := 2 + g.n(10); i >= 0; i-- {
		for j := g.n(3); j >= 0; j-- {
			g.args(big.NewInt(int64(pick(g, 0, 31, 32, 63, 64))), big.NewInt(int64(g.n(3))))
			g.op(pick[byte](g, 0x52, 0x52, 0x53))
			g.h -= 2
		}
		g.args(big.NewInt(int64(pick(g, 0, 0, 1, 32, 33))), big.NewInt(int64(pick(g, 32, 64, 32, 64, 31, 33, 63, 65, 0, 1, 96))))
		g.op(0x20)
		g.h--
		if g.h > 12 {
			g.op(0x18, 0x18, 0x18)
			g.h -= 3
		}
	}
}

// hashLoop digests many different inputs, more than caches hold, twice.
func (g *Gen) hashLoop() {
	n := 1100 + g.n(900)
	start := g.n(500)
	size := pick(g, 32, 64, 64, 40)
	// acc at memory 128; outer counter below inner counter on the stack
	g.op(0x60, 2)
	outer := len(g.b)
	g.op(0x5b, 0x61, byte(n>>8), byte(n))
	inner := len(g.b)
	g.op(0x5b)
	g.op(0x80, 0x61, byte(start>>8), byte(start), 0x01, 0x60, byte(pick(g, 0, size-32)), 0x52) // mem := i+start
	g.op(0x60, byte(size), 0x60, 0, 0x20)
	g.op(0x60, 128, 0x51, 0x60, 3, 0x02, 0x18, 0x60, 128, 0x52) // acc = acc*3 ^ hash
	g.op(0x60, 1, 0x90, 0x03, 0x80, 0x61, byte(inner>>8), byte(inner), 0x57, 0x50)
	g.op(0x60, 1, 0x90, 0x03, 0x80, 0x61, byte(outer>>8), byte(outer), 0x57)
	g.op(0x60, 32, 0x60, 128, 0xf3)
}

// HashAccum returns a program that folds the hashes of the n values start+1 to
// start+n, written at the end of size bytes of memory, and its required output.
func (g *Gen) HashAccum(id, start, n, size int) (*ref.Case, ref.Hash) {
	b3 := func(x int) []byte { return []byte{0x62, byte(x >> 16), byte(x >> 8), byte(x)} }
	return g.hashAccum(id, n, size, append(b3(start), 0x01), func(i int) int { return i + start })
}

// HashFew is HashAccum over the n numbers from n to 1, limited to those up to mask.
func (g *Gen) HashFew(id, mask, n, size int) (*ref.Case, ref.Hash) {
	return g.hashAccum(id, n, size, []byte{0x60, byte(mask), 0x16}, func(i int) int { return i & mask })
}

func (g *Gen) hashAccum(id, n, size int, next []byte, value func(int) int) (*ref.Case, ref.Hash) {
	g.Focus = "structured"
	c := g.Case(id)
	c.Static, c.Create, c.Tag, c.CodeHash = false, false, "hashaccum", true
	c.Gas = int64(n)*300 + 100_000
	b3 := func(x int) []byte { return []byte{0x62, byte(x >> 16), byte(x >> 8), byte(x)} }
	b := b3(n)
	loop := len(b)
	b = append(b, 0x5b, 0x80)
	b = append(append(b, next...), 0x60, byte(size-32), 0x52)
	b = append(b, 0x60, byte(size), 0x60, 0, 0x20, 0x60, 128, 0x51, 0x60, 3, 0x02, 0x18, 0x60, 128, 0x52)
	b = append(b, 0x60, 1, 0x90, 0x03, 0x80, 0x61, byte(loop>>8), byte(loop), 0x57)
	c.Code = append(b, 0x60, 32, 0x60, 128, 0xf3)
	acc := new(big.Int)
	buf := make([]byte, size)
	for i := n; i > 0; i-- {
		h := ref.ToHash(big.NewInt(int64(value(i))))
		copy(buf[size-32:], h[:])
		acc = ref.Wrap(acc.Mul(acc, big.NewInt(3)))
		acc.Xor(acc, ref.Keccak256(buf).Big())
	}
	return c, ref.ToHash(acc)
}

// JumpSweep returns cases jumping to every position of one code that is made
// of landing sites, which return their own position, and decoys inside of
// immediate data.
func (g *Gen) JumpSweep(id int, maxLen int) []*ref.Case {
	c := g.Case(id)
	c.Static, c.Create = false, false
	c.Tag = "jumpsweep"
	land := []byte{0x5b, 0x58, 0x60, 0, 0x52, 0x59, 0x60, 0, 0xf3}
	var body []byte
	n := 1 + g.n(maxLen)
	if g.p(30) {
		n = 1 + g.n(60)
	}
	for len(body) < n {
		switch g.n(8) {
		case 0, 1, 2:
			body = append(body, land...)
		case 3, 4:
			k := 1 + g.n(32)
			body = append(body, byte(0x5f+k))
			d := bytes.Repeat(land, 4)[:k]
			if g.p(30) {
				d = bytes.Repeat([]byte{0x5b}, k)
			}
			body = append(body, d...)
		case 5: // truncated data swallowed by what follows
			body = append(body, byte(0x60+g.n(32)))
		case 6:
			body = append(body, bytes.Repeat([]byte{pick[byte](g, 0x00, 0x30, 0x50, 0x5b, 0xfe, 0x7f)}, g.n(40))...)
		case 7:
			body = append(body, g.bytes(g.n(6))...)
		}
	}
	if g.p(40) {
		body = append(body, byte(0x60+g.n(32)))
		body = append(body, bytes.Repeat([]byte{0x5b}, g.n(4))...)
	}
	// the target comes from the input, so that all jumps share one code
	head := []byte{0x60, 0, 0x35, 0x56}
	if g.p(50) {
		head = []byte{0x60, 1, 0x60, 0, 0x35, 0x57}
	}
	if g.p(30) { // fused forms
		head = []byte{0x60, 0, 0x35, 0x60, 7, 0x60, 9, 0x91, 0x90, 0x50, 0x56}
	}
	c.Code = append(append([]byte(nil), head...), body...)
	c.Gas = 200_000
	c.CodeHash = true
	var targets []*big.Int
	step := 1 + len(c.Code)/400
	for t := g.n(step); t < len(c.Code)+3; t += step {
		targets = append(targets, big.NewInt(int64(t)))
	}
	d := ref.JumpDests(c.Code)
	for i, k := g.n(len(d)), 0; k < 6; i, k = g.n(len(d)), k+1 {
		for i < len(d)-1 && !d[i] {
			i++
		}
		for _, sh := range []uint{16, 31, 32, 63, 64, 128, 255} {
			targets = append(targets, new(big.Int).Add(big.NewInt(int64(i)), new(big.Int).Lsh(big.NewInt(1), sh)))
		}
	}
	if step > 1 { // sampled: make sure real and decoy sites are among the targets
		for k := 0; k < 300; k++ {
			i := g.n(len(c.Code))
			for i < len(c.Code)-1 && c.Code[i] != 0x5b {
				i++
			}
			targets = append(targets, big.NewInt(int64(i)))
		}
	}
	var res []*ref.Case
	for i, t := range targets {
		x := *c
		x.ID = id + i
		h := ref.ToHash(ref.Wrap(t))
		x.Input = h[:]
		if i%7 == 3 {
			x.CodeHash = false
		}
		res = append(res, &x)
	}
	return res
}

func (g *Gen) deepStack() {
	k := 1010 + g.n(18)
	for i := 0; i < k; i++ {
		g.op(pick[byte](g, 0x30, 0x58, 0x36, 0x5a))
		g.h++
	}
	for i := g.n(30); i > 0; i-- {
		switch g.n(5) {
		case 0:
			g.op(byte(0x80 + g.n(16)))
		case 1:
			g.op(byte(0x90 + g.n(16)))
		case 2:
			g.op(0x50)
		case 3:
			g.op(0x60, byte(g.n(256)))
		case 4:
			g.op(0x01)
		}
	}
	g.h = 20
}

// Program generates code according to the focus.
func (g *Gen) Program(focus string) {
	g.b, g.h, g.fix, g.labs, g.nlab, g.depth = nil, 0, nil, map[int]int{}, 0, 0
	raw := false
	switch focus {
	case "structured":
		for i := 1 + g.n(14); i >= 0; i-- {
			g.stmt()
		}
		g.epilogue()
	case "opfocus":
		g.opFocus()
		g.epilogue()
	case "mutated":
		for i := 1 + g.n(10); i >= 0; i-- {
			g.stmt()
		}
		g.epilogue()
		g.resolve()
		g.fix = nil
		for i := 1 + g.n(4); i > 0 && len(g.b) > 0; i-- {
			at := g.n(len(g.b))
			switch g.n(4) {
			case 0:
				g.b[at] = byte(g.n(256))
			case 1:
				g.b = append(g.b[:at], g.b[at+1:]...)
			case 2:
				g.b = append(g.b[:at], append(g.bytes(1+g.n(3)), g.b[at:]...)...)
			case 3:
				g.b = g.b[:at]
			}
		}
	case "rawops":
		for i := g.n(8); i > 0; i-- {
			g.push(g.Word())
		}
		for i := g.n(80); i > 0; i-- {
			if g.p(40) {
				g.push(big.NewInt(int64(g.n(100))))
			}
			for {
				op := byte(g.n(256))
				if ref.IsDefined(op, g.c.Rev) || g.p(1) {
					g.op(op)
					break
				}
			}
		}
	case "random":
		g.b = g.bytes(g.n(100))
		raw = true
	case "storage":
		for i := 2 + g.n(12); i >= 0; i-- {
			g.storeOp()
		}
		if g.p(50) {
			g.op(0x5a)
			g.h++
		}
		g.epilogue()
	case "calls":
		for i := 1 + g.n(5); i >= 0; i-- {
			switch g.n(6) {
			case 0:
				g.createOp()
			case 1:
				g.storeOp()
			case 2:
				g.stmt()
			default:
				g.callOp()
			}
		}
		g.epilogue()
	case "jumps":
		g.jumpFocus()
		raw = true
	case "hashes":
		g.hashes()
		g.epilogue()
	case "hashloop":
		g.hashLoop()
	case "super":
		for i := 1 + g.n(8); i >= 0; i-- {
			if g.p(70) {
				g.superSeq()
			} else {
				g.stmt()
			}
		}
		g.epilogue()
	case "deep":
		g.deepStack()
		g.epilogue()
	case "memory":
		for i := 2 + g.n(10); i >= 0; i-- {
			switch g.n(5) {
			case 0:
				g.copyOp()
			case 1:
				g.args(g.off(), g.size())
				g.op(0x20)
				g.h--
			default:
				g.memOp()
			}
		}
		g.epilogue()
	default:
		panic("unknown focus " + focus)
	}
	if !raw {
		g.resolve()
	}
}

var mix = []string{"structured", "structured", "structured", "structured", "opfocus", "opfocus", "opfocus", "mutated", "mutated", "rawops", "random", "storage", "storage", "calls", "calls", "jumps", "super", "super", "memory", "memory", "deep", "hashes"}

// Case generates one case.
func (g *Gen) Case(id int) *ref.Case {
	c := &ref.Case{ID: id, Accounts: map[ref.Addr]*ref.Account{}, Storage: map[ref.Slot]ref.StorageVal{}, Transient: map[ref.Slot]ref.Hash{},
		WarmAddr: map[ref.Addr]bool{}, WarmSlot: map[ref.Slot]bool{}, Destroyed: map[ref.Addr]bool{}}
	g.c = c
	c.Rev = g.Rev
	if c.Rev < 0 {
		c.Rev = g.n(ref.NumRevisions)
	}
	c.Static = g.Static > 0 || g.Static == 0 && g.p(15)
	c.Depth = pick(g, 0, 0, 0, 1, 2, 5, 1022, 1023, 1024)
	g.addrs = nil
	for i := 0; i < 6; i++ {
		var a ref.Addr
		copy(a[:], g.bytes(20))
		if g.p(20) {
			copy(a[:10], make([]byte, 10))
		}
		g.addrs = append(g.addrs, a)
	}
	c.Recipient, c.Sender = g.addrs[0], g.addrs[1]
	if g.p(5) {
		c.Sender = c.Recipient
	}
	bal := func() *big.Int {
		switch g.n(5) {
		case 0:
			return new(big.Int)
		case 1:
			return big.NewInt(int64(g.n(4)))
		case 2:
			return ref.Wrap(g.Word())
		default:
			return new(big.Int).SetBytes(g.bytes(1 + g.n(16)))
		}
	}
	// accounts 0..3 may exist, 4 and 5 never do
	for i := 0; i < 4; i++ {
		if i > 0 && g.p(25) {
			continue
		}
		x := &ref.Account{Balance: bal()}
		if g.p(50) {
			x.Nonce = uint64(g.n(3))
		}
		if g.p(50) {
			x.Code = g.bytes(g.n(70))
		}
		if i > 0 && x.Balance.Sign() == 0 && x.Nonce == 0 && len(x.Code) == 0 {
			x.Nonce = 1
		}
		c.Accounts[g.addrs[i]] = x
	}
	g.keys = nil
	for i := 0; i < 4; i++ {
		var k ref.Hash
		switch g.n(3) {
		case 0:
			k[31] = byte(i)
		case 1:
			copy(k[:], g.bytes(32))
		case 2:
			k[0], k[31] = byte(g.n(3)), byte(i)
		}
		g.keys = append(g.keys, k)
	}
	for _, k := range g.keys {
		s := ref.Slot{A: c.Recipient, K: k}
		if g.p(65) {
			v := ref.StorageVal{Orig: g.StoreVal()}
			v.Cur = v.Orig
			if g.p(55) {
				v.Cur = g.StoreVal()
			}
			c.Storage[s] = v
			if v.Cur != v.Orig || g.p(50) {
				c.WarmSlot[s] = true
			}
		}
		if c.Rev >= ref.Cancun && g.p(30) {
			c.Transient[s] = g.StoreVal()
		}
		if g.p(20) {
			c.WarmSlot[ref.Slot{A: g.addrs[2], K: k}] = true
		}
	}
	for _, a := range g.addrs {
		if g.p(50) {
			c.WarmAddr[a] = true
		}
	}
	for i := byte(1); i <= 9; i++ {
		if g.p(80) {
			c.WarmAddr[ref.Addr{19: i}] = true
		}
	}
	if g.p(10) {
		c.Destroyed[c.Recipient] = true
	}
	c.Number = int64(pick(g, 0, 1, 2, 255, 256, 257, 258, 1000, 20_000_000))
	c.Timestamp = int64(g.R.Uint32())
	c.GasLimit = int64(g.R.Uint32()) << uint(g.n(20))
	copy(c.Coinbase[:], g.bytes(20))
	copy(c.Origin[:], g.bytes(20))
	copy(c.PrevRandao[:], g.bytes(32))
	c.ChainID = ref.ToHash(g.Word())
	c.BaseFee = ref.ToHash(g.Word())
	c.BlobBaseFee = ref.ToHash(g.Word())
	c.GasPrice = ref.ToHash(g.Word())
	c.BlockHashSeed = byte(g.n(256))
	blobs := g.n(4)
	if g.p(15) {
		blobs = pick(g, 6, 7, 9, 17, 33, 255, 256, 257, 300)
	}
	for i := blobs; i > 0; i-- {
		c.BlobHashes = append(c.BlobHashes, ref.ToHash(g.Word()))
	}
	c.Input = g.bytes(pick(g, 0, 4, 31, 32, 33, 36, 68, g.n(200)))
	c.Value = ref.ToHash(g.callValueAny())
	c.CodeHash = g.p(60)
	if id%10 < 4 {
		c.HashPart = id%10 + 1
	}
	c.ZeroHash = g.p(40)
	c.Create = g.p(5)
	for i := g.n(4); i > 0; i-- {
		r := ref.Reply{Status: pick(g, 0, 0, 0, 1, 1, 2), GasFrac: int64(pick(g, 0, 255, g.n(256), g.n(256)))}
		if r.Status < 2 {
			r.Output = g.bytes(pick(g, 0, 1, 31, 32, 33, 64, g.n(150)))
		}
		if r.Status == 0 {
			r.Refund = int64(pick(g, 0, 0, 4800, -4800, 15000, g.n(20000)))
			r.Created = g.Addr()
			for k := g.n(4); k > 0; k-- {
				e := ref.Effect{Kind: pick[byte](g, 'S', 'T', 'W', 'K', 'B'), A: g.Addr(), K: g.Key(), V: g.StoreVal()}
				if e.Kind != 'W' && g.p(70) {
					e.A = c.Recipient
				}
				if e.Kind == 'B' && g.p(60) {
					e.V = ref.ToHash(g.Word())
				}
				r.Effects = append(r.Effects, e)
			}
		}
		c.Replies = append(c.Replies, r)
	}
	f := g.Focus
	if f == "" {
		f = mix[g.n(len(mix))]
	}
	c.Tag = f
	g.Program(f)
	c.Code = g.b
	g.Gas(c)
	return c
}

func (g *Gen) callValueAny() *big.Int {
	if g.p(50) {
		return new(big.Int)
	}
	return g.Word()
}

const maxSteps = 30_000

// Gas picks a gas limit: often generous, often right at what the program needs.
func (g *Gen) Gas(c *ref.Case) {
	probe := int64(pick(g, 60_000, 400_000, 3_000_000))
	if g.p(3) {
		probe = int64(1_000_000_000)
	}
	for {
		c.Gas = probe
		r, v := ref.RunCase(c, nil, maxSteps)
		if v.Inconclusive {
			probe /= 8
			continue
		}
		if r.Status == "fail" {
			if g.p(20) {
				c.Gas = int64(g.n(int(probe)))
			}
			break
		}
		used := probe - r.Gas
		switch g.n(8) {
		case 0:
			c.Gas = used
		case 1:
			c.Gas = used - 1
		case 2:
			c.Gas = int64(g.n(int(used + 1)))
		case 3:
			c.Gas = used + int64(g.n(3000))
		}
		if c.Gas < 0 {
			c.Gas = 0
		}
		break
	}
	if _, v := ref.RunCase(c, nil, 4*maxSteps); v.Inconclusive {
		c.Gas = 1000
	}
}

// Long builds a program of more than 64 KiB, as creation code could be before
// Shanghai: blocks that run into the next one, or jump over filler, with
// destinations beyond the range of 16 bits, and destinations that a truncated
// position would hit instead. PC is only used below 64 KiB (see LongPc).
func (g *Gen) Long(id int) *ref.Case {
	c := g.Case(id)
	c.Static, c.Create, c.Gas, c.CodeHash = false, false, 3_000_000, g.p(50)
	c.Tag = "long"
	size := []int{66_000, 70_000, 90_000, 131_000, 132_000, 140_000, 200_000}[g.n(7)] + g.n(600)
	var b []byte
	var fix [][2]int // positions of PUSH3 constants and the blocks they name
	var at []int     // positions of the blocks
	filler := func(n int) {
		if len(b)+n > size {
			n = size - len(b)
		}
		end := len(b) + n
		for len(b) < end {
			switch g.n(4) {
			case 0:
				b = append(append(b, byte(0x7f)), bytes.Repeat([]byte{0x5b}, 32)...)
			case 1:
				k := 1 + g.n(32)
				b = append(append(b, byte(0x5f+k)), g.bytes(k)...)
			case 2:
				b = append(b, bytes.Repeat([]byte{pick[byte](g, 0, 0xfe, 0x50, 0x30)}, g.n(300))...)
			default:
				b = append(append(b, 0x7e), bytes.Repeat([]byte{0x5b, 0x60, 0x01}, 10)...)
				b = append(b, 0x5b)
			}
		}
	}
	b = append(b, 0x60, 0) // the accumulator
	for len(b) < size-100 {
		if len(b) > 4 || g.p(50) {
			at = append(at, len(b))
			b = append(b, 0x5b)
		}
		for k := g.n(4); k >= 0; k-- {
			switch g.n(6) {
			case 0:
				b = append(b, 0x61, byte(g.n(256)), byte(g.n(256)), 0x01)
			case 1:
				b = append(b, 0x80, 0x01)
			case 2:
				b = append(append(append(b, 0x7f), g.bytes(32)...), 0x18)
			case 3:
				b = append(b, 0x60, byte(g.n(256)), 0x60, 3, 0x01, 0x01)
			case 4:
				if len(b) < 65_000 {
					b = append(b, 0x58, 0x01)
				} else {
					b = append(b, 0x38, 0x18)
				}
			case 5: // a piece of the code, from the far end
				b = append(b, 0x60, 32, 0x62, byte(g.n(4)), byte(g.n(256)), byte(g.n(256)), 0x60, 0, 0x39, 0x60, 0, 0x51, 0x18)
			}
		}
		gap := 0
		if g.p(60) {
			gap = g.n(1 + g.n(size/3))
		}
		switch g.n(5) {
		case 0, 1: // run through filler made of push data into the next block
			if gap > 3000 {
				gap = 3000
			}
			for gap > 0 {
				k := 1 + g.n(32)
				b = append(append(b, byte(0x5f+k)), bytes.Repeat([]byte{0x5b}, k)...)
				b = append(b, 0x50)
				gap -= k + 2
			}
		case 2:
			fix = append(fix, [2]int{len(b) + 1, len(at)})
			b = append(b, 0x62, 0, 0, 0, 0x56)
			filler(gap)
		case 3:
			fix = append(fix, [2]int{len(b) + 3, len(at)})
			b = append(b, 0x80, 0x15, 0x62, 0, 0, 0, 0x57) // acc == 0
			fix[len(fix)-1][0] = len(b) - 4
		case 4:
			b = append(b, 0x60, byte(1+g.n(3)))
			fix = append(fix, [2]int{len(b) + 1, len(at)})
			b = append(b, 0x62, 0, 0, 0, 0x57)
			filler(gap)
		}
	}
	at = append(at, len(b))
	b = append(b, 0x5b, 0x60, 0, 0x52, 0x59, 0x60, 0, 0xf3)
	for _, f := range fix {
		t := at[f[1]]
		if g.p(3) {
			t = at[g.n(len(at))] // may loop until the gas is gone
		}
		b[f[0]], b[f[0]+1], b[f[0]+2] = byte(t>>16), byte(t>>8), byte(t)
		if g.p(2) && t > 65535 { // a wrong jump, right if truncated
			b[f[0]+2] ^= 1
		}
	}
	// destinations at the positions other blocks have modulo 64 KiB
	c.Code = b
	return c
}

// LongPc asks for a program counter beyond the range of 16 bits.
func (g *Gen) LongPc(id int) *ref.Case {
	c := g.Case(id)
	c.Static, c.Create, c.Gas, c.CodeHash = false, false, 3_000_000, true
	c.Tag = "longpc"
	c.Code = append([]byte{0x62, 1, 0, 2, 0x56}, make([]byte, 65538-5)...)
	c.Code = append(c.Code, 0x5b, 0x58, 0x60, 0, 0x52, 0x59, 0x60, 0, 0xf3)
	return c
}
