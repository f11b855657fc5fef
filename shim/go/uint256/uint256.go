// Package uint256 is an offline stand-in for holiman/uint256 v1.3: the same
// interface for everything an EVM needs, implemented with textbook algorithms.
package uint256

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Int is a 256-bit unsigned integer in little-endian limb order.
type Int [4]uint64

func NewInt(v uint64) *Int { return &Int{v} }

func (z *Int) Set(x *Int) *Int                    { *z = *x; return z }
func (z *Int) SetUint64(x uint64) *Int            { *z = Int{x}; return z }
func (z *Int) SetOne() *Int                       { *z = Int{1}; return z }
func (z *Int) SetAllOne() *Int                    { *z = Int{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}; return z }
func (z *Int) Clear() *Int                        { *z = Int{}; return z }
func (z *Int) Clone() *Int                        { c := *z; return &c }
func (z *Int) IsZero() bool                       { return z[0]|z[1]|z[2]|z[3] == 0 }
func (z *Int) IsUint64() bool                     { return z[1]|z[2]|z[3] == 0 }
func (z *Int) Uint64() uint64                     { return z[0] }
func (z *Int) Uint64WithOverflow() (uint64, bool) { return z[0], !z.IsUint64() }

func (z *Int) SetBytes(buf []byte) *Int {
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	var b [32]byte
	copy(b[32-len(buf):], buf)
	return z.SetBytes32(b[:])
}
func (z *Int) setN(in []byte, n int) *Int {
	_ = in[n-1]
	return z.SetBytes(in[:n])
}
func (z *Int) SetBytes1(in []byte) *Int  { return z.setN(in, 1) }
func (z *Int) SetBytes2(in []byte) *Int  { return z.setN(in, 2) }
func (z *Int) SetBytes4(in []byte) *Int  { return z.setN(in, 4) }
func (z *Int) SetBytes8(in []byte) *Int  { return z.setN(in, 8) }
func (z *Int) SetBytes16(in []byte) *Int { return z.setN(in, 16) }
func (z *Int) SetBytes20(in []byte) *Int { return z.setN(in, 20) }
func (z *Int) SetBytes24(in []byte) *Int { return z.setN(in, 24) }
func (z *Int) SetBytes31(in []byte) *Int { return z.setN(in, 31) }
func (z *Int) SetBytes32(in []byte) *Int {
	_ = in[31]
	z[3] = binary.BigEndian.Uint64(in[0:8])
	z[2] = binary.BigEndian.Uint64(in[8:16])
	z[1] = binary.BigEndian.Uint64(in[16:24])
	z[0] = binary.BigEndian.Uint64(in[24:32])
	return z
}

func (z *Int) Bytes32() (b [32]byte) { z.WriteToArray32(&b); return }
func (z *Int) Bytes20() (b [20]byte) { z.WriteToArray20(&b); return }
func (z *Int) Bytes() []byte {
	b := z.Bytes32()
	return append([]byte{}, b[32-z.ByteLen():]...)
}
func (z *Int) WriteToArray32(d *[32]byte) {
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint64(d[8*i:], z[3-i])
	}
}
func (z *Int) WriteToArray20(d *[20]byte) { b := z.Bytes32(); copy(d[:], b[12:]) }
func (z *Int) PutUint256(d []byte) {
	_ = d[31]
	b := z.Bytes32()
	copy(d, b[:])
}
func (z *Int) WriteToSlice(d []byte) {
	b := z.Bytes32()
	if len(d) <= 32 {
		copy(d, b[32-len(d):])
		return
	}
	copy(d[len(d)-32:], b[:])
}
func (z *Int) PaddedBytes(n int) []byte {
	r := make([]byte, n)
	b := z.Bytes32()
	for i := 0; i < 32 && i < n; i++ {
		r[n-1-i] = b[31-i]
	}
	return r
}

func (z *Int) BitLen() int {
	for i := 3; i >= 0; i-- {
		if z[i] != 0 {
			return 64*i + bits.Len64(z[i])
		}
	}
	return 0
}
func (z *Int) ByteLen() int { return (z.BitLen() + 7) / 8 }
func (z *Int) Sign() int {
	if z.IsZero() {
		return 0
	}
	if z[3]>>63 != 0 {
		return -1
	}
	return 1
}

func (z *Int) Cmp(x *Int) int {
	for i := 3; i >= 0; i-- {
		if z[i] < x[i] {
			return -1
		}
		if z[i] > x[i] {
			return 1
		}
	}
	return 0
}
func (z *Int) CmpUint64(x uint64) int { return z.Cmp(&Int{x}) }
func (z *Int) Eq(x *Int) bool         { return *z == *x }
func (z *Int) Lt(x *Int) bool         { return z.Cmp(x) < 0 }
func (z *Int) Gt(x *Int) bool         { return z.Cmp(x) > 0 }
func (z *Int) LtUint64(n uint64) bool { return z.IsUint64() && z[0] < n }
func (z *Int) GtUint64(n uint64) bool { return !z.IsUint64() || z[0] > n }
func (z *Int) Slt(x *Int) bool {
	zn, xn := z[3]>>63 != 0, x[3]>>63 != 0
	if zn != xn {
		return zn
	}
	return z.Lt(x)
}
func (z *Int) Sgt(x *Int) bool { return x.Slt(z) }

func (z *Int) AddOverflow(x, y *Int) (*Int, bool) {
	var r Int
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(x[i], y[i], c)
	}
	*z = r
	return z, c != 0
}
func (z *Int) Add(x, y *Int) *Int              { z.AddOverflow(x, y); return z }
func (z *Int) AddUint64(x *Int, y uint64) *Int { return z.Add(x, &Int{y}) }
func (z *Int) IAdd(x *Int) *Int                { return z.Add(z, x) }
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) {
	var r Int
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Sub64(x[i], y[i], c)
	}
	*z = r
	return z, c != 0
}
func (z *Int) Sub(x, y *Int) *Int              { z.SubOverflow(x, y); return z }
func (z *Int) SubUint64(x *Int, y uint64) *Int { return z.Sub(x, &Int{y}) }
func (z *Int) ISub(x *Int) *Int                { return z.Sub(z, x) }

func mulFull(x, y *Int) (p [8]uint64) {
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(x[i], y[j])
			var c uint64
			lo, c = bits.Add64(lo, p[i+j], 0)
			hi += c
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			p[i+j], carry = lo, hi
		}
		p[i+4] = carry
	}
	return
}
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) {
	p := mulFull(x, y)
	copy(z[:], p[:4])
	return z, p[4]|p[5]|p[6]|p[7] != 0
}
func (z *Int) Mul(x, y *Int) *Int { z.MulOverflow(x, y); return z }
func (z *Int) IMul(x *Int) *Int   { return z.Mul(z, x) }

func toBig(w []uint64) *big.Int {
	b := make([]byte, 8*len(w))
	for i, v := range w {
		binary.BigEndian.PutUint64(b[len(b)-8*(i+1):], v)
	}
	return new(big.Int).SetBytes(b)
}
func (z *Int) setBigMod(b *big.Int) *Int {
	m := new(big.Int).And(b, maxBig)
	return z.SetBytes(m.Bytes())
}

var maxBig = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func divmod(x, y *Int) (q, r Int) {
	if y.IsZero() {
		return
	}
	if x.Lt(y) {
		return Int{}, *x
	}
	if x.IsUint64() {
		return Int{x[0] / y[0]}, Int{x[0] % y[0]}
	}
	if y.IsUint64() {
		var rem uint64
		for i := 3; i >= 0; i-- {
			q[i], rem = bits.Div64(rem, x[i], y[0])
		}
		return q, Int{rem}
	}
	bq, br := new(big.Int).QuoRem(toBig(x[:]), toBig(y[:]), new(big.Int))
	q.setBigMod(bq)
	r.setBigMod(br)
	return
}
func (z *Int) Div(x, y *Int) *Int { q, _ := divmod(x, y); *z = q; return z }
func (z *Int) Mod(x, y *Int) *Int { _, r := divmod(x, y); *z = r; return z }
func (z *Int) DivMod(x, y, m *Int) (*Int, *Int) {
	q, r := divmod(x, y)
	*z, *m = q, r
	return z, m
}
func (z *Int) Neg(x *Int) *Int { return z.Sub(new(Int), x) }
func (z *Int) Abs(x *Int) *Int {
	if x.Sign() < 0 {
		return z.Neg(x)
	}
	return z.Set(x)
}
func (z *Int) SDiv(n, d *Int) *Int {
	neg := n.Sign()*d.Sign() < 0
	var a, b Int
	a.Abs(n)
	b.Abs(d)
	z.Div(&a, &b)
	if neg {
		z.Neg(z)
	}
	return z
}
func (z *Int) SMod(x, y *Int) *Int {
	neg := x.Sign() < 0
	var a, b Int
	a.Abs(x)
	b.Abs(y)
	z.Mod(&a, &b)
	if neg {
		z.Neg(z)
	}
	return z
}
func (z *Int) AddMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	s := new(big.Int).Add(toBig(x[:]), toBig(y[:]))
	return z.setBigMod(s.Mod(s, toBig(m[:])))
}
func (z *Int) MulMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	p := mulFull(x, y)
	s := toBig(p[:])
	return z.setBigMod(s.Mod(s, toBig(m[:])))
}
func (z *Int) MulDivOverflow(x, y, d *Int) (*Int, bool) {
	if d.IsZero() {
		return z.Clear(), false
	}
	p := mulFull(x, y)
	s := toBig(p[:])
	s.Div(s, toBig(d[:]))
	z.setBigMod(s)
	return z, s.BitLen() > 256
}
func (z *Int) Exp(base, exponent *Int) *Int {
	res, b, e := Int{1}, *base, *exponent
	n := e.BitLen()
	for i := 0; i < n; i++ {
		if e[i/64]>>(i%64)&1 == 1 {
			res.Mul(&res, &b)
		}
		b.Mul(&b, &b)
	}
	*z = res
	return z
}
func (z *Int) Sqrt(x *Int) *Int { return z.setBigMod(new(big.Int).Sqrt(toBig(x[:]))) }

func (z *Int) Not(x *Int) *Int { *z = Int{^x[0], ^x[1], ^x[2], ^x[3]}; return z }
func (z *Int) And(x, y *Int) *Int {
	*z = Int{x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]}
	return z
}
func (z *Int) Or(x, y *Int) *Int {
	*z = Int{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
	return z
}
func (z *Int) Xor(x, y *Int) *Int {
	*z = Int{x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]}
	return z
}

func (z *Int) Lsh(x *Int, n uint) *Int {
	var r Int
	w, b := int(n/64), n%64
	if n < 256 {
		for i := 3; i >= w; i-- {
			r[i] = x[i-w] << b
			if b != 0 && i-w >= 1 {
				r[i] |= x[i-w-1] >> (64 - b)
			}
		}
	}
	*z = r
	return z
}
func (z *Int) Rsh(x *Int, n uint) *Int {
	var r Int
	w, b := int(n/64), n%64
	if n < 256 {
		for i := 0; i+w < 4; i++ {
			r[i] = x[i+w] >> b
			if b != 0 && i+w+1 < 4 {
				r[i] |= x[i+w+1] << (64 - b)
			}
		}
	}
	*z = r
	return z
}
func (z *Int) SRsh(x *Int, n uint) *Int {
	neg := x[3]>>63 != 0
	if !neg {
		return z.Rsh(x, n)
	}
	if n >= 256 {
		return z.SetAllOne()
	}
	var m Int
	m.SetAllOne()
	m.Lsh(&m, 256-n)
	z.Rsh(x, n)
	if n > 0 {
		z.Or(z, &m)
	}
	return z
}
func (z *Int) Byte(n *Int) *Int {
	if !n.IsUint64() || n[0] >= 32 {
		return z.Clear()
	}
	b := z.Bytes32()
	return z.SetUint64(uint64(b[n[0]]))
}
func (z *Int) ExtendSign(x, byteNum *Int) *Int {
	if !byteNum.IsUint64() || byteNum[0] > 30 {
		return z.Set(x)
	}
	bit := uint(byteNum[0]*8 + 7)
	var mask Int
	mask.SetOne()
	mask.Lsh(&mask, bit)
	mask.SubUint64(&mask, 1)
	if x[bit/64]>>(bit%64)&1 == 1 {
		mask.Not(&mask)
		return z.Or(x, &mask)
	}
	return z.And(x, &mask)
}

func (z *Int) ToBig() *big.Int {
	if z == nil {
		return nil
	}
	return toBig(z[:])
}
func (z *Int) SetFromBig(b *big.Int) bool {
	m := new(big.Int).And(b, maxBig) // two's complement semantics for negatives
	z.SetBytes(m.Bytes())
	return new(big.Int).Abs(b).BitLen() > 256
}
func FromBig(b *big.Int) (*Int, bool) {
	if b == nil {
		return nil, false
	}
	z := &Int{}
	o := z.SetFromBig(b)
	return z, o
}
func MustFromBig(b *big.Int) *Int {
	z, o := FromBig(b)
	if o {
		panic("overflow")
	}
	return z
}

var ErrBig256Range = errors.New("hex number > 256 bits")

func (z *Int) SetFromHex(s string) error {
	if len(s) < 3 || (s[:2] != "0x" && s[:2] != "0X") {
		return errors.New("hex string without 0x prefix")
	}
	b, ok := new(big.Int).SetString(s[2:], 16)
	if !ok || b.Sign() < 0 {
		return errors.New("invalid hex string")
	}
	if b.BitLen() > 256 {
		return ErrBig256Range
	}
	z.setBigMod(b)
	return nil
}
func FromHex(s string) (*Int, error) {
	z := &Int{}
	if err := z.SetFromHex(s); err != nil {
		return nil, err
	}
	return z, nil
}
func MustFromHex(s string) *Int {
	z, err := FromHex(s)
	if err != nil {
		panic(err)
	}
	return z
}
func (z *Int) SetFromDecimal(s string) error {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || b.Sign() < 0 {
		return errors.New("invalid decimal string")
	}
	if b.BitLen() > 256 {
		return ErrBig256Range
	}
	z.setBigMod(b)
	return nil
}
func FromDecimal(s string) (*Int, error) {
	z := &Int{}
	if err := z.SetFromDecimal(s); err != nil {
		return nil, err
	}
	return z, nil
}
func MustFromDecimal(s string) *Int {
	z, err := FromDecimal(s)
	if err != nil {
		panic(err)
	}
	return z
}
func (z *Int) Hex() string    { return "0x" + z.ToBig().Text(16) }
func (z *Int) Dec() string    { return z.ToBig().Text(10) }
func (z *Int) String() string { return z.Dec() }
func (z *Int) PrettyDec(sep byte) string {
	s := z.Dec()
	var parts []string
	for len(s) > 3 {
		parts = append([]string{s[len(s)-3:]}, parts...)
		s = s[:len(s)-3]
	}
	return strings.Join(append([]string{s}, parts...), string(sep))
}
func (z *Int) Format(s fmt.State, ch rune) { z.ToBig().Format(s, ch) }
func (z Int) MarshalText() ([]byte, error) { return []byte(z.Dec()), nil }
func (z *Int) UnmarshalText(in []byte) error {
	if len(in) > 1 && in[0] == '0' && (in[1] == 'x' || in[1] == 'X') {
		return z.SetFromHex(string(in))
	}
	return z.SetFromDecimal(string(in))
}
