//go:build go1.23

// C17: which matrices are drawn again.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// primes are what a rank over a prime field could be computed modulo.
func primes() (out []uint64) {
	small := func(n uint64) bool {
		for d := uint64(2); d*d <= n; d++ {
			if n%d == 0 {
				return false
			}
		}
		return n > 1
	}
	for n := uint64(2); n < 4200; n++ {
		if small(n) {
			out = append(out, n)
		}
	}
	// the primes next to the powers of two and ten
	next := func(x uint64, step int64) {
		for n := 0; n < 3; {
			if x += uint64(step); new(big.Int).SetUint64(x).ProbablyPrime(10) {
				out = append(out, x)
				n++
			}
		}
	}
	for b := uint(13); b < 64; b++ {
		next(1<<b, 1)
		next(1<<b, -1)
	}
	next(0, -1)
	for x := uint64(10000); x < 10000000000000000000; x *= 10 {
		next(x, 1)
		next(x, -1)
	}
	return append(out, 998244353, 469762049, 167772161, 754974721, 1004535809, 985661441, 943718401, 935329793, 4179340454199820289, 18446744069414584321)
}

// withDeterminant is a matrix whose determinant is d or -d: its first row holds the
// digits of d in base -15, below it every row is ... 1 15 ..., and what follows is triangular.
func withDeterminant(d uint64, turn int) *[64][64]uint16 {
	var digits []uint16
	n := new(big.Int).SetUint64(d)
	base := big.NewInt(-15)
	for n.Sign() != 0 {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(n, base, r) // 0 <= r < 15
		digits = append([]uint16{uint16(r.Int64())}, digits...)
		n = q
	}
	k := len(digits)
	var m [64][64]uint16
	row := func(i int) *[64]uint16 { return &m[(i*5+turn)%64] }
	for j, a := range digits {
		row(0)[j] = a
	}
	for i := 1; i < k; i++ {
		row(i)[i-1], row(i)[i] = 1, 15
	}
	for i := k; i < 64; i++ {
		row(i)[i] = 1
		for j := i + 1; j < 64; j++ {
			row(i)[j] = uint16((i*7 + j*3 + turn) % 3)
		}
	}
	return &m
}

type matCase struct {
	Fill uint64
	Kind string
	I, J int
}

var kinds = []string{"as drawn", "equal rows", "equal rows but one nibble", "row is twice another", "row is the sum of two",
	"row is the sum of three", "zero row", "zero column", "equal columns", "column is the sum of two", "two equal pairs of rows",
	"triangular", "triangular with a zero", "permutation", "permutation with a zero", "blocks", "blocks, one singular"}

func (c matCase) matrix() *[64][64]uint16 {
	if c.Kind == "determinant" {
		return withDeterminant(c.Fill, c.I)
	}
	var m [64][64]uint16
	s := c.Fill*0x9e3779b97f4a7c15 + 1
	draw := func() uint16 {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		return uint16(s >> 40 & 15)
	}
	draw()
	for i := range m {
		for j := range m[i] {
			m[i][j] = draw()
		}
	}
	// four different rows (or columns)
	i, j := c.I, c.J
	a, b := (j+13)%64, (j+29)%64
	for a == i || a == j || b == i || a == b {
		a = (a + 1) % 64
		for b == i || b == j || b == a {
			b = (b + 1) % 64
		}
	}
	switch c.Kind {
	case "equal rows":
		m[i] = m[j]
	case "equal rows but one nibble":
		m[i] = m[j]
		m[i][(i+j)%64] ^= 1
	case "row is twice another":
		for k := range m[j] {
			m[j][k] &= 7
			m[i][k] = 2 * m[j][k]
		}
	case "row is the sum of two":
		for k := range m[j] {
			m[j][k] &= 7
			m[a][k] &= 7
			m[i][k] = m[j][k] + m[a][k]
		}
	case "row is the sum of three":
		for k := range m[j] {
			m[j][k] &= 3
			m[a][k] &= 3
			m[b][k] &= 7
			m[i][k] = m[j][k] + m[a][k] + m[b][k]
		}
	case "zero row":
		m[i] = [64]uint16{}
	case "zero column":
		for k := range m {
			m[k][i] = 0
		}
	case "equal columns":
		for k := range m {
			m[k][i] = m[k][j]
		}
	case "column is the sum of two":
		for k := range m {
			m[k][j] &= 7
			m[k][a] &= 7
			m[k][i] = m[k][j] + m[k][a]
		}
	case "two equal pairs of rows":
		m[i], m[a] = m[j], m[b]
	case "triangular", "triangular with a zero":
		for r := range m {
			for k := range m[r] {
				if k < r {
					m[r][k] = 0
				} else if k == r {
					m[r][k] |= 1
				}
			}
		}
		if c.Kind != "triangular" {
			m[i][i] = 0
		}
	case "permutation", "permutation with a zero":
		m = [64][64]uint16{}
		for r := range m {
			m[r][(r*(2*j+1)+i)%64] = uint16(r%15 + 1)
		}
		if c.Kind != "permutation" {
			m[i] = [64]uint16{}
		}
	case "blocks", "blocks, one singular":
		for r := range m {
			for k := range m[r] {
				if r/8 != k/8 {
					m[r][k] = 0
				} else if r == k {
					m[r][k] |= 1
				}
			}
		}
		if c.Kind != "blocks" {
			m[i/8*8] = m[i/8*8+1+j%7]
		}
	}
	return &m
}

func main() {
	hx.Main("C17", "exploration", func(r *hx.Run) {
		hx.Explore(r, hx.Suite[matCase]{
			Name: "determinants", Limit: 5 * time.Minute,
			Rule: "matrices whose determinant is, up to sign, a prime: each one below 4200, the three on either side of each higher power of two and ten, and well-known ones, in several orders of the rows: they have full rank",
			Gen: func(yield func(matCase) bool) {
				for _, p := range primes() {
					for t := 0; t < hx.Pick(r, 3, 64); t++ {
						if !yield(matCase{Fill: p, Kind: "determinant", I: t}) {
							return
						}
					}
				}
			},
			Eval: func(w *hx.W, c matCase) (bool, error) {
				m := c.matrix()
				if _, settled := ref.FullRank(m); !settled {
					w.R.Count("matrices_left_out", 1)
					return false, nil
				}
				if !heavyhash.VHFullRank(*m) {
					return true, fmt.Errorf("a matrix of determinant %d (or minus that) is not taken for one of full rank", c.Fill)
				}
				return true, nil
			},
		})
		hx.Explore(r, hx.Suite[matCase]{
			Name: "ranks", Limit: 5 * time.Minute,
			Rule: fmt.Sprintf("matrices of %d kinds (as drawn, with dependent rows and columns of several sorts, with almost dependent ones, triangular, permutations, blocks), for every row and %d others and %d fills: they are used exactly if they have full rank (matrices on which the published floating point elimination is not clear are left out and counted)", len(kinds), hx.Pick(r, 6, 63), hx.Pick(r, 2, 4)),
			Gen: func(yield func(matCase) bool) {
				for fill := 0; fill < hx.Pick(r, 2, 4); fill++ {
					for _, k := range kinds {
						for i := 0; i < 64; i++ {
							for d := 0; d < hx.Pick(r, 6, 63); d++ {
								step := hx.Pick(r, 11, 1)
								if !yield(matCase{uint64(1 + fill*64*64 + i*64 + d), k, i, (i + 1 + d*step) % 64}) {
									return
								}
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c matCase) (bool, error) {
				m := c.matrix()
				full, settled := ref.FullRank(m)
				if !settled {
					w.R.Count("matrices_left_out", 1)
					return false, nil
				}
				if !full {
					w.R.Count("singular_matrices", 1)
				}
				if got := heavyhash.VHFullRank(*m); got != full {
					return true, fmt.Errorf("matrix of full rank: %v, taken for one: %v", full, got)
				}
				return true, nil
			},
		})
	})
}
