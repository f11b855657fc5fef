// Package rand is an offline stand-in for pgregory.net/rand: same interface,
// seedable, a different (but uniform) generator.
package rand

import (
	"encoding/binary"
	"math"
	"math/bits"
	crand "math/rand/v2"
	"sync"
)

type Rand struct {
	s   *crand.PCG
	r   *crand.Rand
	mu  *sync.Mutex
	val uint64
	n   int
}

// New returns a generator seeded with the given words; without a seed it is
// seeded randomly.
func New(seed ...uint64) *Rand {
	r := &Rand{}
	if len(seed) == 0 {
		r.init(crand.Uint64(), crand.Uint64())
		return r
	}
	a, b := uint64(0x9e3779b97f4a7c15), uint64(0xbf58476d1ce4e5b9)
	for i, s := range seed {
		a = bits.RotateLeft64(a^(s+uint64(i)), 29) * 0x94d049bb133111eb
		b = bits.RotateLeft64(b+s, 31) ^ a
	}
	r.init(a, b)
	return r
}

func (r *Rand) init(a, b uint64) {
	r.s = crand.NewPCG(a, b)
	r.r = crand.New(r.s)
	r.n, r.val = 0, 0
}

func (r *Rand) Seed(seed uint64)     { *r = *New(seed) }
func (r *Rand) Uint64() uint64       { return r.r.Uint64() }
func (r *Rand) Uint32() uint32       { return r.r.Uint32() }
func (r *Rand) Int63() int64         { return r.r.Int64() }
func (r *Rand) Int31() int32         { return r.r.Int32() }
func (r *Rand) Int() int             { return r.r.Int() }
func (r *Rand) Float64() float64     { return r.r.Float64() }
func (r *Rand) Float32() float32     { return r.r.Float32() }
func (r *Rand) NormFloat64() float64 { return r.r.NormFloat64() }
func (r *Rand) ExpFloat64() float64  { return r.r.ExpFloat64() }

func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return r.r.Int64N(n)
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return r.r.Int32N(n)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return r.r.IntN(n)
}

// Uint32n returns a number in [0,n); for n = 0 it returns 0.
func (r *Rand) Uint32n(n uint32) uint32 {
	if n == 0 {
		return 0
	}
	return r.r.Uint32N(n)
}

// Uint64n returns a number in [0,n); for n = 0 it returns 0.
func (r *Rand) Uint64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.r.Uint64N(n)
}

func (r *Rand) Perm(n int) []int                   { return r.r.Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { r.r.Shuffle(n, swap) }
func (r *Rand) Read(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		if r.n == 0 {
			r.val, r.n = r.r.Uint64(), 8
		}
		p[0] = byte(r.val)
		r.val >>= 8
		r.n--
		p = p[1:]
	}
	return n, nil
}

var _ = binary.LittleEndian
var _ = math.Pi

// ---- package level functions (goroutine safe, randomly seeded) ----

func Uint64() uint64                     { return crand.Uint64() }
func Uint32() uint32                     { return crand.Uint32() }
func Int63() int64                       { return crand.Int64() }
func Int31() int32                       { return crand.Int32() }
func Int() int                           { return crand.Int() }
func Intn(n int) int                     { return crand.IntN(n) }
func Int31n(n int32) int32               { return crand.Int32N(n) }
func Int63n(n int64) int64               { return crand.Int64N(n) }
func Float64() float64                   { return crand.Float64() }
func Float32() float32                   { return crand.Float32() }
func NormFloat64() float64               { return crand.NormFloat64() }
func ExpFloat64() float64                { return crand.ExpFloat64() }
func Perm(n int) []int                   { return crand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { crand.Shuffle(n, swap) }
func Uint32n(n uint32) uint32 {
	if n == 0 {
		return 0
	}
	return crand.Uint32N(n)
}
func Uint64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return crand.Uint64N(n)
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(crand.Uint32())
	}
	return len(p), nil
}
