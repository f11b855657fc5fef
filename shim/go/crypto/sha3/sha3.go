// Package sha3 is an offline stand-in for golang.org/x/crypto/sha3, limited to
// the legacy Keccak variants.
package sha3

import (
	"encoding/binary"
	"hash"
	"math/bits"
)

type state struct {
	a         [25]uint64
	buf       []byte
	rate, out int
	squeezing bool
	pos       int
	block     []byte
}

func NewLegacyKeccak256() hash.Hash { return &state{rate: 136, out: 32} }
func NewLegacyKeccak512() hash.Hash { return &state{rate: 72, out: 64} }

func (s *state) BlockSize() int { return s.rate }
func (s *state) Size() int      { return s.out }
func (s *state) Reset() {
	*s = state{rate: s.rate, out: s.out}
}

func (s *state) absorb(p []byte) {
	for i := 0; i < s.rate/8; i++ {
		s.a[i] ^= binary.LittleEndian.Uint64(p[8*i:])
	}
	permute(&s.a)
}

func (s *state) Write(p []byte) (int, error) {
	if s.squeezing {
		panic("sha3: Write after Read")
	}
	n := len(p)
	s.buf = append(s.buf, p...)
	for len(s.buf) >= s.rate {
		s.absorb(s.buf[:s.rate])
		s.buf = s.buf[s.rate:]
	}
	return n, nil
}

func (s *state) fill() {
	s.block = make([]byte, s.rate)
	for i := 0; i < s.rate/8; i++ {
		binary.LittleEndian.PutUint64(s.block[8*i:], s.a[i])
	}
	s.pos = 0
}

func (s *state) Read(out []byte) (int, error) {
	if !s.squeezing {
		last := make([]byte, s.rate)
		copy(last, s.buf)
		last[len(s.buf)] ^= 0x01
		last[s.rate-1] ^= 0x80
		s.absorb(last)
		s.squeezing = true
		s.fill()
	}
	n := len(out)
	for len(out) > 0 {
		if s.pos == s.rate {
			permute(&s.a)
			s.fill()
		}
		k := copy(out, s.block[s.pos:])
		s.pos += k
		out = out[k:]
	}
	return n, nil
}

func (s *state) Sum(b []byte) []byte {
	c := *s
	c.buf = append([]byte(nil), s.buf...)
	h := make([]byte, s.out)
	c.Read(h)
	return append(b, h...)
}

var rc = [24]uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b,
	0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088,
	0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
	0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
	0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008}
var rot = [24]int{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
var pil = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}

func permute(s *[25]uint64) {
	for r := 0; r < 24; r++ {
		var bc [5]uint64
		for i := 0; i < 5; i++ {
			bc[i] = s[i] ^ s[i+5] ^ s[i+10] ^ s[i+15] ^ s[i+20]
		}
		for i := 0; i < 5; i++ {
			t := bc[(i+4)%5] ^ bits.RotateLeft64(bc[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				s[j+i] ^= t
			}
		}
		t := s[1]
		for i := 0; i < 24; i++ {
			b := s[pil[i]]
			s[pil[i]] = bits.RotateLeft64(t, rot[i])
			t = b
		}
		for j := 0; j < 25; j += 5 {
			var c [5]uint64
			copy(c[:], s[j:j+5])
			for i := 0; i < 5; i++ {
				s[j+i] ^= ^c[(i+1)%5] & c[(i+2)%5]
			}
		}
		s[0] ^= rc[r]
	}
}
