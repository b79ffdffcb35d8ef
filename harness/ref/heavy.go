package ref

import (
	"encoding/binary"
	"math"
	"math/bits"
)

const mersenne61 = 1<<61 - 1

func mulM(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	r := (lo & mersenne61) + (lo>>61 | hi<<3)
	r = (r & mersenne61) + r>>61
	if r >= mersenne61 {
		r -= mersenne61
	}
	return r
}

func powM(a, e uint64) uint64 {
	r := uint64(1)
	for ; e > 0; e >>= 1 {
		if e&1 != 0 {
			r = mulM(r, a)
		}
		a = mulM(a, a)
	}
	return r
}

// rank64 is the rank of the matrix over the field of 2^61-1 elements, which is
// its rational rank unless that prime divides a minor.
func rank64(m *[64][64]uint16) int {
	var a [64][64]uint64
	for i := range m {
		for j := range m[i] {
			a[i][j] = uint64(m[i][j])
		}
	}
	rank := 0
	for col := 0; col < 64; col++ {
		p := -1
		for r := rank; r < 64; r++ {
			if a[r][col] != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			continue
		}
		a[p], a[rank] = a[rank], a[p]
		inv := powM(a[rank][col], mersenne61-2)
		for r := rank + 1; r < 64; r++ {
			if a[r][col] == 0 {
				continue
			}
			f := mulM(a[r][col], inv)
			for c := col; c < 64; c++ {
				s := a[r][c] + mersenne61 - mulM(f, a[rank][c])
				if s >= mersenne61 {
					s -= mersenne61
				}
				a[r][c] = s
			}
		}
		rank++
	}
	return rank
}

// HeavyMatrix draws 64x64 nibble matrices until one has full rank; draws is how many.
func HeavyMatrix(hash []byte) (m *[64][64]uint16, draws int) {
	var x Xoshiro
	for i := range x {
		x[i] = binary.LittleEndian.Uint64(hash[8*i:])
	}
	for {
		draws++
		m = new([64][64]uint16)
		for i := 0; i < 64; i++ {
			for j := 0; j < 64; j += 16 {
				v := x.Next()
				for s := 0; s < 16; s++ {
					m[i][j+s] = uint16(v >> (4 * s) & 15)
				}
			}
		}
		if rank64(m) == 64 {
			return m, draws
		}
	}
}

// HeavyHash is Kaspa's kHeavyHash for a non-zero header hash.
func HeavyHash(hash []byte, timestamp int64, nonce uint64) (digest []byte, draws int) {
	m, draws := HeavyMatrix(hash)
	buf := append([]byte(nil), hash...)
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(timestamp))
	buf = append(buf, b[:]...)
	buf = append(buf, make([]byte, 32)...)
	binary.LittleEndian.PutUint64(b[:], nonce)
	buf = append(buf, b[:]...)
	pow := CShake256(buf, []byte("ProofOfWorkHash"), 32)
	nib := make([]int, 64)
	for i := range nib {
		nib[i] = int(pow[i/2]>>(4*(1-uint(i)%2))) & 15
	}
	out := make([]byte, 32)
	for i := 0; i < 64; i++ {
		sum := 0
		for j := range nib {
			sum += int(m[i][j]) * nib[j]
		}
		out[i/2] |= byte(sum>>10) << (4 * (1 - uint(i)%2))
	}
	for i := range out {
		out[i] ^= pow[i]
	}
	out = CShake256(out, []byte("HeavyHash"), 32)
	for i := 0; i < 16; i++ {
		out[i], out[31-i] = out[31-i], out[i]
	}
	return out, draws
}

// FullRank tells whether a matrix has full rank, and whether floating point
// elimination settles it: kHeavyHash is published with one that takes anything
// up to 1e-9 for zero, so only matrices on which it agrees with the exact rank,
// with nothing it looks at anywhere near that bound, have an undisputed answer.
func FullRank(m *[64][64]uint16) (full, settled bool) {
	full = rank64(m) == 64
	var a [64][64]float64
	for i := range m {
		for j := range m[i] {
			a[i][j] = float64(m[i][j])
		}
	}
	var used [64]bool
	rank := 0
	for c := range a {
		p := -1
		for i := range a {
			if used[i] {
				continue
			}
			v := math.Abs(a[i][c])
			if v > 1e-12 && v < 1e-6 {
				return full, false
			}
			if p < 0 && v > 1e-9 {
				p = i
			}
		}
		if p < 0 {
			continue
		}
		rank++
		used[p] = true
		for i := range a {
			if used[i] {
				continue
			}
			f := a[i][c] / a[p][c]
			for k := c; k < 64; k++ {
				a[i][k] -= f * a[p][k]
			}
		}
	}
	return full, (rank == 64) == full
}
