// Package ref holds reference implementations of everything powkit computes,
// written from the algorithms' definitions and kept plain: no code is shared
// with powkit or with the libraries it uses.
package ref

import (
	"encoding/binary"
	"math/bits"
)

// rho offsets and pi destinations, from the definition of Keccak.
var keccakRho, keccakRC = keccakTables()

func keccakTables() (keccakRho [25]uint, keccakRC [32]uint64) {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		keccakRho[x+5*y] = uint((t + 1) * (t + 2) / 2)
		x, y = y, (2*x+3*y)%5
	}
	// rc(t): LFSR x^8+x^6+x^5+x^4+1
	r := uint(1)
	next := func() uint64 {
		bit := uint64(r & 1)
		r <<= 1
		if r&0x100 != 0 {
			r ^= 0x171
		}
		return bit
	}
	for i := range keccakRC {
		for j := 0; j <= 6; j++ {
			if next() == 1 {
				keccakRC[i] |= 1 << (uint(1)<<uint(j) - 1)
			}
		}
	}
	return
}

// KeccakF1600 is the 24 round permutation on 64-bit lanes.
func KeccakF1600(a *[25]uint64) {
	var b [25]uint64
	var c [5]uint64
	for round := 0; round < 24; round++ {
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], int(keccakRho[x+5*y]%64))
			}
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= keccakRC[round]
	}
}

// KeccakF800 is the 22 round permutation on 32-bit lanes.
func KeccakF800(a *[25]uint32) {
	var b [25]uint32
	var c [5]uint32
	for round := 0; round < 22; round++ {
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft32(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft32(a[x+5*y], int(keccakRho[x+5*y]%32))
			}
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= uint32(keccakRC[round])
	}
}

func sponge(rate int, domain byte, msg []byte, outLen int) []byte {
	var st [25]uint64
	block := make([]byte, rate)
	absorb := func(b []byte) {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(b[8*i:])
		}
		KeccakF1600(&st)
	}
	for len(msg) >= rate {
		absorb(msg[:rate])
		msg = msg[rate:]
	}
	n := copy(block, msg)
	for i := n; i < rate; i++ {
		block[i] = 0
	}
	block[n] ^= domain
	block[rate-1] ^= 0x80
	absorb(block)
	var out []byte
	for {
		for i := 0; i < rate/8; i++ {
			var w [8]byte
			binary.LittleEndian.PutUint64(w[:], st[i])
			out = append(out, w[:]...)
			if len(out) >= outLen {
				return out[:outLen]
			}
		}
		KeccakF1600(&st)
	}
}

// Keccak256 is the original (pre-NIST padding) Keccak with 256 bits of output.
func Keccak256(msg []byte) []byte { return sponge(136, 0x01, msg, 32) }

// Keccak512 is the original Keccak with 512 bits of output.
func Keccak512(msg []byte) []byte { return sponge(72, 0x01, msg, 64) }

func leftEncode(v uint64) []byte {
	var b []byte
	for x := v; x > 0; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
	}
	if len(b) == 0 {
		b = []byte{0}
	}
	return append([]byte{byte(len(b))}, b...)
}

// CShake256 is NIST SP 800-185 cSHAKE256 with an empty function name.
func CShake256(msg, custom []byte, outLen int) []byte {
	if len(custom) == 0 {
		return sponge(136, 0x1f, msg, outLen)
	}
	pre := leftEncode(136)
	pre = append(pre, leftEncode(0)...)
	pre = append(pre, leftEncode(uint64(len(custom))*8)...)
	pre = append(pre, custom...)
	for len(pre)%136 != 0 {
		pre = append(pre, 0)
	}
	return sponge(136, 0x04, append(pre, msg...), outLen)
}
