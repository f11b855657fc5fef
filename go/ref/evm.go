package ref

import (
	"math/big"
)

// Status of an execution.
type Status int

const (
	Running Status = iota
	Stopped
	Returned
	Reverted
	Failed
	SelfDestructed
)

func (s Status) String() string {
	return [...]string{"running", "stopped", "returned", "reverted", "failed", "selfdestructed"}[s]
}

// Host is what an execution sees of its surroundings.
type Host interface {
	Balance(Addr) *big.Int
	Code(Addr) []byte
	CodeHash(Addr) Hash
	Empty(Addr) bool
	GetStorage(Addr, Hash) Hash
	SetStorage(Addr, Hash, Hash) StorageStatus
	GetOriginal(Addr, Hash) Hash
	GetTransient(Addr, Hash) Hash
	SetTransient(Addr, Hash, Hash)
	AccessAddr(Addr) bool
	AccessSlot(Addr, Hash) bool
	Log(Addr, []Hash, []byte)
	SelfDestruct(a, b Addr) bool
	BlockHash(int64) Hash
	Call(Msg) CallOutcome
}

// Env is the constant environment of an execution.
type Env struct {
	Rev                            int
	Static                         bool
	Depth                          int
	Recipient, Sender              Addr
	Input                          []byte
	Value                          *big.Int
	Code                           []byte
	Number, Timestamp, GasLimit    int64
	Coinbase, Origin               Addr
	PrevRandao, ChainID            Hash
	BaseFee, BlobBaseFee, GasPrice Hash
	BlobHashes                     []Hash
}

func EnvOf(c *Case) *Env {
	return &Env{Rev: c.Rev, Static: c.Static, Depth: c.Depth, Recipient: c.Recipient, Sender: c.Sender, Input: c.Input, Value: c.Value.Big(), Code: c.Code,
		Number: c.Number, Timestamp: c.Timestamp, GasLimit: c.GasLimit, Coinbase: c.Coinbase, Origin: c.Origin, PrevRandao: c.PrevRandao,
		ChainID: c.ChainID, BaseFee: c.BaseFee, BlobBaseFee: c.BlobBaseFee, GasPrice: c.GasPrice, BlobHashes: c.BlobHashes}
}

// VM is the state of one execution.
type VM struct {
	E      *Env
	H      Host
	PC     uint64
	Gas    int64
	Refund int64
	Stack  []*big.Int // last element is the top
	Mem    []byte
	RetBuf []byte // result of the last nested call
	Out    []byte
	Status Status
	Why    string
	Steps  int
	dests  []bool

	// TraceFn, if set, is told every instruction before it is executed; the
	// end of the code as an implicit STOP.
	TraceFn func(op byte, implicit bool, gas int64, stack []*big.Int)
	// OpHist counts executed opcodes by opcode; optional.
	OpHist *[256]uint64
	// Trace is a hash of the executed instruction sequence.
	Trace uint64
	// MaxMem aborts the run (Inconclusive) when memory would exceed it.
	MaxMem       uint64
	Inconclusive bool
}

func NewVM(e *Env, h Host, gas int64) *VM {
	return &VM{E: e, H: h, Gas: gas, MaxMem: 1 << 28}
}

// JumpDests returns for every code position whether it is a valid destination.
func JumpDests(code []byte) []bool {
	r := make([]bool, len(code))
	for i := 0; i < len(code); i++ {
		op := code[i]
		if op == 0x5b {
			r[i] = true
		}
		if op >= 0x60 && op <= 0x7f {
			i += int(op) - 0x5f
		}
	}
	return r
}

// IsDefined tells whether an opcode exists in a revision.
func IsDefined(op byte, rev int) bool {
	switch {
	case op <= 0x0b, op >= 0x10 && op <= 0x1d, op == 0x20, op >= 0x30 && op <= 0x47:
		return true
	case op == 0x48:
		return rev >= London
	case op == 0x49 || op == 0x4a:
		return rev >= Cancun
	case op >= 0x50 && op <= 0x5b:
		return true
	case op >= 0x5c && op <= 0x5e:
		return rev >= Cancun
	case op == 0x5f:
		return rev >= Shanghai
	case op >= 0x60 && op <= 0xa4:
		return true
	case op >= 0xf0 && op <= 0xf5, op == 0xfa, op == 0xfd, op == 0xff:
		return true
	}
	return false // includes the designated invalid instruction 0xfe
}

// StackEffect returns the number of popped and pushed words.
func StackEffect(op byte) (pops, pushes int) {
	switch {
	case op == 0x00 || op == 0x5b:
		return 0, 0
	case op == 0x08 || op == 0x09:
		return 3, 1
	case op <= 0x0b:
		return 2, 1
	case op == 0x15 || op == 0x19:
		return 1, 1
	case op >= 0x10 && op <= 0x1d:
		return 2, 1
	case op == 0x20:
		return 2, 1
	case op == 0x31, op == 0x35, op == 0x3b, op == 0x3f, op == 0x40, op == 0x49, op == 0x51, op == 0x54, op == 0x5c:
		return 1, 1
	case op == 0x37, op == 0x39, op == 0x3e, op == 0x5e:
		return 3, 0
	case op == 0x3c:
		return 4, 0
	case op >= 0x30 && op <= 0x4a:
		return 0, 1
	case op == 0x50:
		return 1, 0
	case op == 0x52, op == 0x53, op == 0x55, op == 0x57, op == 0x5d:
		return 2, 0
	case op == 0x56:
		return 1, 0
	case op == 0x58, op == 0x59, op == 0x5a, op == 0x5f:
		return 0, 1
	case op >= 0x60 && op <= 0x7f:
		return 0, 1
	case op >= 0x80 && op <= 0x8f:
		return int(op) - 0x7f, int(op) - 0x7f + 1
	case op >= 0x90 && op <= 0x9f:
		return int(op) - 0x8e, int(op) - 0x8e
	case op >= 0xa0 && op <= 0xa4:
		return int(op) - 0xa0 + 2, 0
	case op == 0xf0:
		return 3, 1
	case op == 0xf1 || op == 0xf2:
		return 7, 1
	case op == 0xf3 || op == 0xfd:
		return 2, 0
	case op == 0xf4 || op == 0xfa:
		return 6, 1
	case op == 0xf5:
		return 4, 1
	case op == 0xff:
		return 1, 0
	}
	return 0, 0
}

func staticGas(op byte, rev int) int64 {
	switch op {
	case 0x00, 0xf3, 0xfd:
		return 0
	case 0x01, 0x03, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d:
		return 3
	case 0x02, 0x04, 0x05, 0x06, 0x07, 0x0b:
		return 5
	case 0x08, 0x09:
		return 8
	case 0x0a:
		return 10
	case 0x20:
		return 30
	case 0x31, 0x3b, 0x3c, 0x3f: // BALANCE, EXTCODESIZE, EXTCODECOPY, EXTCODEHASH
		if rev >= Berlin {
			return 0
		}
		return 700
	case 0x35, 0x37, 0x39, 0x3e, 0x49, 0x51, 0x52, 0x53, 0x5e:
		return 3
	case 0x40:
		return 20
	case 0x47:
		return 5
	case 0x50:
		return 2
	case 0x54:
		if rev >= Berlin {
			return 0
		}
		return 800
	case 0x55:
		return 0
	case 0x56:
		return 8
	case 0x57:
		return 10
	case 0x5b:
		return 1
	case 0x5c, 0x5d:
		return 100
	case 0x58, 0x59, 0x5a, 0x5f:
		return 2
	case 0xf0, 0xf5:
		return 32000
	case 0xf1, 0xf2, 0xf4, 0xfa:
		if rev >= Berlin {
			return 0
		}
		return 700
	case 0xff:
		return 5000
	}
	switch {
	case op >= 0x30 && op <= 0x4a:
		return 2
	case op >= 0x60 && op <= 0x9f:
		return 3
	case op >= 0xa0 && op <= 0xa4:
		return 375 * (int64(op-0xa0) + 1)
	}
	return 0
}

type abort struct{ why string }

func (v *VM) fail(why string) { panic(abort{why}) }

// charge takes gas; costs are passed as big numbers where they can be huge.
func (v *VM) charge(g int64) {
	if g < 0 || v.Gas < g {
		v.fail("out of gas")
	}
	v.Gas -= g
}

func (v *VM) chargeBig(g *big.Int) {
	if !g.IsInt64() {
		v.fail("out of gas")
	}
	v.charge(g.Int64())
}

func (v *VM) pop() *big.Int {
	x := v.Stack[len(v.Stack)-1]
	v.Stack = v.Stack[:len(v.Stack)-1]
	return x
}
func (v *VM) push(x *big.Int) { v.Stack = append(v.Stack, x) }
func (v *VM) pushU(x uint64)  { v.push(new(big.Int).SetUint64(x)) }
func (v *VM) pushB(b bool) {
	if b {
		v.push(one)
	} else {
		v.push(zero)
	}
}

var big512 = big.NewInt(512)
var big3 = big.NewInt(3)
var big31 = big.NewInt(31)

func words(size *big.Int) *big.Int {
	w := new(big.Int).Add(size, big31)
	return w.Rsh(w, 5)
}

func memCost(w *big.Int) *big.Int {
	c := new(big.Int).Mul(w, w)
	c.Quo(c, big512)
	return c.Add(c, new(big.Int).Mul(w, big3))
}

// expansion returns the cost of making [offset, offset+size) addressable and
// the resulting memory size.
func (v *VM) expansion(offset, size *big.Int) (*big.Int, *big.Int) {
	cur := big.NewInt(int64(len(v.Mem)))
	if size.Sign() == 0 {
		return zero, cur
	}
	w := words(new(big.Int).Add(offset, size))
	end := new(big.Int).Lsh(w, 5)
	if end.Cmp(cur) <= 0 {
		return zero, cur
	}
	return new(big.Int).Sub(memCost(w), memCost(words(cur))), end
}

func (v *VM) grow(end *big.Int) {
	n := end.Uint64()
	if n > v.MaxMem {
		v.Inconclusive = true
		v.fail("oracle memory limit")
	}
	if uint64(len(v.Mem)) < n {
		v.Mem = append(v.Mem, make([]byte, n-uint64(len(v.Mem)))...)
	}
}

// mem charges for and performs an expansion and returns the region.
func (v *VM) mem(offset, size *big.Int) []byte {
	cost, end := v.expansion(offset, size)
	v.chargeBig(cost)
	v.grow(end)
	return v.region(offset, size)
}

func (v *VM) region(offset, size *big.Int) []byte {
	if size.Sign() == 0 {
		return nil
	}
	o, s := offset.Uint64(), size.Uint64()
	return v.Mem[o : o+s]
}

func (v *VM) copyCost(size *big.Int, per int64) {
	v.chargeBig(new(big.Int).Mul(words(size), big.NewInt(per)))
}

// slice reads data[offset:offset+size] with zero padding.
func slice(data []byte, offset *big.Int, size uint64) []byte {
	r := make([]byte, size)
	if offset.IsUint64() && offset.Uint64() < uint64(len(data)) {
		copy(r, data[offset.Uint64():])
	}
	return r
}

func (v *VM) accountAccess(a Addr) {
	if v.E.Rev >= Berlin {
		if v.H.AccessAddr(a) {
			v.charge(100)
		} else {
			v.charge(2600)
		}
	}
}

func (v *VM) noStatic() {
	if v.E.Static {
		v.fail("static violation")
	}
}

// Step executes one instruction.
func (v *VM) Step() {
	if v.Status != Running {
		return
	}
	if v.PC >= uint64(len(v.E.Code)) {
		if v.TraceFn != nil {
			v.TraceFn(0, true, v.Gas, v.Stack)
		}
		v.Status = Stopped
		return
	}
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(abort)
			if !ok {
				panic(r)
			}
			v.Status, v.Why, v.Gas, v.Refund, v.Out = Failed, a.why, 0, 0, nil
		}
	}()
	op := v.E.Code[v.PC]
	if v.TraceFn != nil {
		v.TraceFn(op, false, v.Gas, v.Stack)
	}
	v.Steps++
	if v.OpHist != nil {
		v.OpHist[op]++
	}
	v.Trace = (v.Trace ^ uint64(op) + 1) * 0x100000001b3
	if !IsDefined(op, v.E.Rev) {
		v.fail("undefined instruction")
	}
	pops, pushes := StackEffect(op)
	if len(v.Stack) < pops {
		v.fail("stack underflow")
	}
	if len(v.Stack)-pops+pushes > 1024 {
		v.fail("stack overflow")
	}
	v.charge(staticGas(op, v.E.Rev))
	v.exec(op)
}

// Run executes until the end or the given number of steps (<0: unlimited).
func (v *VM) Run(steps int) {
	for v.Status == Running && steps != 0 {
		v.Step()
		steps--
	}
}

func (v *VM) exec(op byte) {
	E, H := v.E, v.H
	next := v.PC + 1
	switch {
	case op == 0x00:
		v.Status = Stopped
		return
	case op >= 0x01 && op <= 0x07 || op == 0x0a || op == 0x0b || op >= 0x10 && op <= 0x14 || op >= 0x16 && op <= 0x18 || op >= 0x1a && op <= 0x1d:
		a, b := v.pop(), v.pop()
		if op == 0x0a {
			v.charge(50 * int64((b.BitLen()+7)/8))
		}
		v.push(Binary(op, a, b))
	case op == 0x08 || op == 0x09:
		a, b, n := v.pop(), v.pop(), v.pop()
		if n.Sign() == 0 {
			v.push(zero)
		} else {
			r := new(big.Int)
			if op == 0x08 {
				r.Add(a, b)
			} else {
				r.Mul(a, b)
			}
			v.push(r.Mod(r, n))
		}
	case op == 0x15:
		v.pushB(v.pop().Sign() == 0)
	case op == 0x19:
		v.push(new(big.Int).Sub(max256, v.pop()))
	case op == 0x20:
		off, size := v.pop(), v.pop()
		v.copyCost(size, 6)
		h := Keccak256(v.mem(off, size))
		v.push(h.Big())
	case op == 0x30:
		v.push(E.Recipient.Big())
	case op == 0x31:
		a := ToAddr(v.pop())
		v.accountAccess(a)
		v.push(H.Balance(a))
	case op == 0x32:
		v.push(E.Origin.Big())
	case op == 0x33:
		v.push(E.Sender.Big())
	case op == 0x34:
		v.push(E.Value)
	case op == 0x35:
		v.push(new(big.Int).SetBytes(slice(E.Input, v.pop(), 32)))
	case op == 0x36:
		v.pushU(uint64(len(E.Input)))
	case op == 0x37, op == 0x39:
		dst, src, size := v.pop(), v.pop(), v.pop()
		data := E.Input
		if op == 0x39 {
			data = E.Code
		}
		v.copyCost(size, 3)
		m := v.mem(dst, size)
		copy(m, slice(data, src, uint64(len(m))))
	case op == 0x38:
		v.pushU(uint64(len(E.Code)))
	case op == 0x3a:
		v.push(E.GasPrice.Big())
	case op == 0x3b:
		a := ToAddr(v.pop())
		v.accountAccess(a)
		v.pushU(uint64(len(H.Code(a))))
	case op == 0x3c:
		a := ToAddr(v.pop())
		dst, src, size := v.pop(), v.pop(), v.pop()
		v.accountAccess(a)
		v.copyCost(size, 3)
		m := v.mem(dst, size)
		copy(m, slice(H.Code(a), src, uint64(len(m))))
	case op == 0x3d:
		v.pushU(uint64(len(v.RetBuf)))
	case op == 0x3e:
		dst, src, size := v.pop(), v.pop(), v.pop()
		v.copyCost(size, 3)
		end := new(big.Int).Add(src, size)
		if end.Cmp(big.NewInt(int64(len(v.RetBuf)))) > 0 {
			v.fail("return data out of bounds")
		}
		m := v.mem(dst, size)
		copy(m, slice(v.RetBuf, src, uint64(len(m))))
	case op == 0x3f:
		a := ToAddr(v.pop())
		v.accountAccess(a)
		if H.Empty(a) {
			v.push(zero)
		} else {
			v.push(H.CodeHash(a).Big())
		}
	case op == 0x40:
		n := v.pop()
		cur := big.NewInt(E.Number)
		if n.Cmp(cur) >= 0 || new(big.Int).Sub(cur, n).Cmp(big.NewInt(256)) > 0 {
			v.push(zero)
		} else {
			v.push(H.BlockHash(n.Int64()).Big())
		}
	case op == 0x41:
		v.push(E.Coinbase.Big())
	case op == 0x42:
		v.pushU(uint64(E.Timestamp))
	case op == 0x43:
		v.pushU(uint64(E.Number))
	case op == 0x44:
		v.push(E.PrevRandao.Big())
	case op == 0x45:
		v.pushU(uint64(E.GasLimit))
	case op == 0x46:
		v.push(E.ChainID.Big())
	case op == 0x47:
		v.push(H.Balance(E.Recipient))
	case op == 0x48:
		v.push(E.BaseFee.Big())
	case op == 0x49:
		i := v.pop()
		if i.IsUint64() && i.Uint64() < uint64(len(E.BlobHashes)) {
			v.push(E.BlobHashes[i.Uint64()].Big())
		} else {
			v.push(zero)
		}
	case op == 0x4a:
		v.push(E.BlobBaseFee.Big())
	case op == 0x50:
		v.pop()
	case op == 0x51:
		m := v.mem(v.pop(), big.NewInt(32))
		v.push(new(big.Int).SetBytes(m))
	case op == 0x52:
		off, val := v.pop(), v.pop()
		val.FillBytes(v.mem(off, big.NewInt(32)))
	case op == 0x53:
		off, val := v.pop(), v.pop()
		v.mem(off, one)[0] = byte(new(big.Int).And(val, big.NewInt(255)).Uint64())
	case op == 0x54:
		k := ToHash(v.pop())
		if E.Rev >= Berlin {
			if H.AccessSlot(E.Recipient, k) {
				v.charge(100)
			} else {
				v.charge(2100)
			}
		}
		v.push(H.GetStorage(E.Recipient, k).Big())
	case op == 0x55:
		v.sstore()
	case op == 0x56:
		v.jump(v.pop())
		return
	case op == 0x57:
		d, c := v.pop(), v.pop()
		if c.Sign() != 0 {
			v.jump(d)
			return
		}
	case op == 0x58:
		v.pushU(v.PC)
	case op == 0x59:
		v.pushU(uint64(len(v.Mem)))
	case op == 0x5a:
		v.pushU(uint64(v.Gas))
	case op == 0x5b:
	case op == 0x5c:
		v.push(H.GetTransient(E.Recipient, ToHash(v.pop())).Big())
	case op == 0x5d:
		v.noStatic()
		k, x := v.pop(), v.pop()
		H.SetTransient(E.Recipient, ToHash(k), ToHash(x))
	case op == 0x5e:
		dst, src, size := v.pop(), v.pop(), v.pop()
		v.copyCost(size, 3)
		far := dst
		if src.Cmp(dst) > 0 {
			far = src
		}
		v.mem(far, size)
		tmp := append([]byte(nil), v.region(src, size)...)
		copy(v.region(dst, size), tmp)
	case op == 0x5f:
		v.push(zero)
	case op >= 0x60 && op <= 0x7f:
		n := uint64(op) - 0x5f
		v.push(new(big.Int).SetBytes(slice(E.Code, new(big.Int).SetUint64(v.PC+1), n)))
		next = v.PC + 1 + n
	case op >= 0x80 && op <= 0x8f:
		v.push(v.Stack[len(v.Stack)-int(op-0x7f)])
	case op >= 0x90 && op <= 0x9f:
		t := len(v.Stack) - 1
		o := t - int(op-0x8f)
		v.Stack[t], v.Stack[o] = v.Stack[o], v.Stack[t]
	case op >= 0xa0 && op <= 0xa4:
		v.noStatic()
		off, size := v.pop(), v.pop()
		topics := make([]Hash, op-0xa0)
		for i := range topics {
			topics[i] = ToHash(v.pop())
		}
		v.chargeBig(new(big.Int).Lsh(size, 3))
		H.Log(E.Recipient, topics, append([]byte(nil), v.mem(off, size)...))
	case op == 0xf0, op == 0xf5:
		v.create(op == 0xf5)
	case op == 0xf1, op == 0xf2, op == 0xf4, op == 0xfa:
		v.call(op)
	case op == 0xf3, op == 0xfd:
		off, size := v.pop(), v.pop()
		v.Out = append([]byte(nil), v.mem(off, size)...)
		v.Status = Returned
		if op == 0xfd {
			v.Status = Reverted
		}
		return
	case op == 0xff:
		v.noStatic()
		b := ToAddr(v.pop())
		if E.Rev >= Berlin && !H.AccessAddr(b) {
			v.charge(2600)
		}
		if H.Balance(E.Recipient).Sign() != 0 && H.Empty(b) {
			v.charge(25000)
		}
		if H.SelfDestruct(E.Recipient, b) && E.Rev < London {
			v.Refund += 24000
		}
		v.Status = SelfDestructed
		return
	default:
		panic("reference: unhandled opcode")
	}
	v.PC = next
}

func (v *VM) jump(d *big.Int) {
	if v.dests == nil {
		v.dests = JumpDests(v.E.Code)
	}
	if !d.IsUint64() || d.Uint64() >= uint64(len(v.dests)) || !v.dests[d.Uint64()] {
		v.fail("bad jump destination")
	}
	v.PC = d.Uint64()
}

// Binary evaluates the two-operand arithmetic, comparison and bit operations;
// a is the operand from the top of the stack.
func Binary(op byte, a, b *big.Int) *big.Int {
	r := new(big.Int)
	bool2 := func(x bool) *big.Int {
		if x {
			return one
		}
		return zero
	}
	switch op {
	case 0x01:
		return Wrap(r.Add(a, b))
	case 0x02:
		return Wrap(r.Mul(a, b))
	case 0x03:
		return Wrap(r.Sub(a, b))
	case 0x04:
		if b.Sign() == 0 {
			return zero
		}
		return r.Quo(a, b)
	case 0x05:
		if b.Sign() == 0 {
			return zero
		}
		return Wrap(r.Quo(Signed(a), Signed(b))) // truncated
	case 0x06:
		if b.Sign() == 0 {
			return zero
		}
		return r.Rem(a, b)
	case 0x07:
		if b.Sign() == 0 {
			return zero
		}
		return Wrap(r.Rem(Signed(a), Signed(b)))
	case 0x0a:
		return r.Exp(a, b, two256)
	case 0x0b: // SIGNEXTEND: a is the byte index, b the value
		if a.Cmp(big.NewInt(31)) >= 0 {
			return b
		}
		bits := uint(a.Uint64())*8 + 8
		m := new(big.Int).Lsh(one, bits)
		r.And(b, new(big.Int).Sub(m, one))
		if r.Bit(int(bits)-1) == 1 {
			r.Sub(r, m)
		}
		return Wrap(r)
	case 0x10:
		return bool2(a.Cmp(b) < 0)
	case 0x11:
		return bool2(a.Cmp(b) > 0)
	case 0x12:
		return bool2(Signed(a).Cmp(Signed(b)) < 0)
	case 0x13:
		return bool2(Signed(a).Cmp(Signed(b)) > 0)
	case 0x14:
		return bool2(a.Cmp(b) == 0)
	case 0x16:
		return r.And(a, b)
	case 0x17:
		return r.Or(a, b)
	case 0x18:
		return r.Xor(a, b)
	case 0x1a:
		if a.Cmp(big.NewInt(32)) >= 0 {
			return zero
		}
		h := ToHash(b)
		return big.NewInt(int64(h[a.Uint64()]))
	case 0x1b:
		if a.Cmp(big.NewInt(256)) >= 0 {
			return zero
		}
		return Wrap(r.Lsh(b, uint(a.Uint64())))
	case 0x1c:
		if a.Cmp(big.NewInt(256)) >= 0 {
			return zero
		}
		return r.Rsh(b, uint(a.Uint64()))
	case 0x1d:
		s := Signed(b)
		if a.Cmp(big.NewInt(256)) >= 0 {
			if s.Sign() < 0 {
				return max256
			}
			return zero
		}
		return Wrap(r.Rsh(s, uint(a.Uint64()))) // arithmetic shift on negatives
	}
	panic("reference: not a binary operation")
}

func (v *VM) sstore() {
	E, H := v.E, v.H
	v.noStatic()
	if v.Gas <= 2300 { // EIP-2200 sentry
		v.fail("out of gas")
	}
	k, x := ToHash(v.pop()), ToHash(v.pop())
	cold := E.Rev >= Berlin && !H.AccessSlot(E.Recipient, k)
	cur, orig := H.GetStorage(E.Recipient, k), H.GetOriginal(E.Recipient, k)
	z := Hash{}
	// EIP-2200 / 2929 / 3529
	sload, set, reset, clears := int64(800), int64(20000), int64(5000), int64(15000)
	if E.Rev >= Berlin {
		sload, reset = 100, 2900
	}
	if E.Rev >= London {
		clears = 4800
	}
	cost := sload
	refund := int64(0)
	if cur != x {
		if cur == orig {
			if orig == z {
				cost = set
			} else {
				cost = reset
				if x == z {
					refund += clears
				}
			}
		} else {
			if orig != z {
				if cur == z {
					refund -= clears
				} else if x == z {
					refund += clears
				}
			}
			if x == orig {
				if orig == z {
					refund += set - sload
				} else {
					refund += reset - sload
				}
			}
		}
	}
	if cold {
		cost += 2100
	}
	v.charge(cost)
	v.Refund += refund
	H.SetStorage(E.Recipient, k, x)
}

func (v *VM) create(two bool) {
	E, H := v.E, v.H
	v.noStatic()
	value, off, size := v.pop(), v.pop(), v.pop()
	salt := zero
	kind := Create
	if two {
		salt = v.pop()
		kind = Create2
	}
	if E.Rev >= Shanghai {
		if size.Cmp(big.NewInt(49152)) > 0 {
			v.fail("init code too large")
		}
		v.copyCost(size, 2)
	}
	if two {
		v.copyCost(size, 6)
	}
	input := append([]byte(nil), v.mem(off, size)...)
	v.RetBuf = nil
	if H.Balance(E.Recipient).Cmp(value) < 0 {
		v.push(zero)
		return
	}
	gas := v.Gas - v.Gas/64
	v.Gas -= gas
	r := H.Call(Msg{Kind: kind, Static: false, Depth: E.Depth + 1, Gas: gas, Sender: E.Recipient, Value: value, Input: input, Salt: ToHash(salt)})
	v.Gas += r.GasLeft
	v.Refund += r.Refund
	if r.Success {
		v.push(r.Created.Big())
	} else {
		v.push(zero)
		v.RetBuf = r.Output
	}
}

func (v *VM) call(op byte) {
	E, H := v.E, v.H
	want, to := v.pop(), ToAddr(v.pop())
	value := zero
	if op == 0xf1 || op == 0xf2 {
		value = v.pop()
	}
	inOff, inSize, outOff, outSize := v.pop(), v.pop(), v.pop(), v.pop()
	if op == 0xf1 && value.Sign() != 0 {
		v.noStatic()
	}
	c1, e1 := v.expansion(inOff, inSize)
	c2, e2 := v.expansion(outOff, outSize)
	if c2.Cmp(c1) > 0 {
		c1 = c2
	}
	v.chargeBig(c1)
	v.accountAccess(to)
	if value.Sign() != 0 {
		v.charge(9000)
		if op == 0xf1 && H.Empty(to) {
			v.charge(25000)
		}
	}
	v.grow(e1)
	v.grow(e2)
	v.RetBuf = nil
	gas := v.Gas - v.Gas/64
	if want.IsInt64() && want.Int64() < gas {
		gas = want.Int64()
	}
	v.Gas -= gas
	if value.Sign() != 0 {
		gas += 2300
	}
	if H.Balance(E.Recipient).Cmp(value) < 0 {
		v.Gas += gas
		v.push(zero)
		return
	}
	m := Msg{Depth: E.Depth + 1, Gas: gas, CodeAddr: to, Input: append([]byte(nil), v.region(inOff, inSize)...), Value: value, Static: E.Static, Sender: E.Recipient}
	switch op {
	case 0xf1:
		m.Kind, m.Recipient = Call, to
	case 0xf2:
		m.Kind, m.Recipient = CallCode, E.Recipient
	case 0xf4:
		m.Kind, m.Recipient, m.Sender, m.Value = DelegateCall, E.Recipient, E.Sender, E.Value
	case 0xfa:
		m.Kind, m.Recipient, m.Static = StaticCall, to, true
	}
	if m.Kind == Call && m.Static {
		m.Kind = StaticCall // both mean the same to a host
	}
	r := H.Call(m)
	v.Gas += r.GasLeft
	v.Refund += r.Refund
	v.RetBuf = r.Output
	copy(v.region(outOff, outSize), r.Output)
	v.pushB(r.Success)
}

// RunCase runs a case to its end and returns the observable result.
func RunCase(c *Case, hist *[256]uint64, maxSteps int) (Result, *VM) {
	return RunTraced(c, hist, maxSteps, nil)
}

// RunTraced is RunCase with a function observing every instruction.
func RunTraced(c *Case, hist *[256]uint64, maxSteps int, trace func(op byte, implicit bool, gas int64, stack []*big.Int)) (Result, *VM) {
	w := NewWorld(c)
	v := NewVM(EnvOf(c), w, c.Gas)
	v.OpHist, v.TraceFn = hist, trace
	v.Run(maxSteps)
	if v.Status == Running {
		v.Inconclusive = true
	}
	r := Result{Gas: v.Gas, Refund: v.Refund, Output: v.Out, Events: w.Events, Detail: v.Why}
	switch v.Status {
	case Failed:
		r.Status, r.Gas, r.Refund, r.Output = "fail", 0, 0, nil
	case Reverted:
		r.Status, r.Refund = "revert", 0
	default:
		r.Status = "success"
	}
	r.WarmAddrs, r.WarmSlots = w.WarmLists()
	return r, v
}
