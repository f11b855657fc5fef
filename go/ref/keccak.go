package ref

import "math/bits"

// Keccak256 is a from-the-definition implementation of the original Keccak
// with a 1088-bit rate (the padding Ethereum uses).
func Keccak256(data []byte) (out Hash) {
	var a [25]uint64
	const rate = 136
	absorb := func(block []byte) {
		for i := 0; i < rate/8; i++ {
			var w uint64
			for j := 7; j >= 0; j-- {
				w = w<<8 | uint64(block[8*i+j])
			}
			a[i] ^= w
		}
		keccakF(&a)
	}
	for len(data) >= rate {
		absorb(data[:rate])
		data = data[rate:]
	}
	var last [rate]byte
	copy(last[:], data)
	last[len(data)] ^= 0x01
	last[rate-1] ^= 0x80
	absorb(last[:])
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			out[8*i+j] = byte(a[i] >> (8 * j))
		}
	}
	return
}

var keccakRC, keccakRot = keccakTables()

func keccakTables() (rc [24]uint64, rot [25]int) {
	// round constants from the degree-8 LFSR of the specification
	r := byte(1)
	bit := func() bool {
		res := r&1 == 1
		if r&0x80 != 0 {
			r = r<<1 ^ 0x71
		} else {
			r <<= 1
		}
		return res
	}
	for i := range rc {
		for j := 0; j <= 6; j++ {
			if bit() {
				rc[i] |= 1 << ((1 << j) - 1)
			}
		}
	}
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	return
}

func keccakF(a *[25]uint64) {
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], keccakRot[x+5*y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= keccakRC[round]
	}
}
