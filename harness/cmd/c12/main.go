//go:build go1.23

// C12: Octopus results equal the specification.
package main

import (
	"encoding/binary"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/octopus"
)

type wordsCase struct {
	V     [4]uint64
	Nonce uint64
}

const (
	p = 1032193
	m = p - 1
)

func strip(e uint64) uint64 {
	for _, q := range []uint64{2, 3, 7} {
		for e%q == 0 {
			e /= q
		}
	}
	return e
}

var log4 = func() uint64 {
	x, e := uint64(1), uint64(0)
	for ; x != 4; x, e = x*11%p, e+1 {
	}
	return e
}()

// degenerate builds header words whose quadratic has a double root at first, so
// that the third coefficient is drawn again.
func degenerate(v1, v2 uint64) (wordsCase, bool) {
	// 11^(2*eb) = 4 * 11^ea * 11^ec
	eb, ec := strip(v1%(p-2)+1), strip(v2%(p-2)+1)
	ea := (2*eb + 3*m - ec - log4) % m
	if ea == 0 || strip(ea) != ea || ea > p-2 {
		return wordsCase{}, false
	}
	return wordsCase{[4]uint64{ea - 1, v1, v2, v1 ^ v2}, v1 + v2}, true
}

func main() {
	hx.Main("C12", "exploration", func(r *hx.Run) {
		eval := func(w *hx.W, c wordsCase) (bool, error) {
			h := make([]byte, 32)
			for i, v := range c.V {
				binary.LittleEndian.PutUint64(h[8*i:], v)
			}
			ch := pk.Tiny("W", 0)
			ch.Mix = 256
			cl, _ := w.Local.(*octopus.Client)
			if cl == nil {
				cl = octopus.New(pk.Config(ch, ""))
				w.Local = cl
			}
			return true, pk.OctopusAlgo.Check(cl, ch, h, 3, c.Nonce)
		}
		hx.Explore(r, hx.Suite[wordsCase]{
			Name: "double-roots",
			Rule: "header words whose quadratic has a double root, so that its constant coefficient is drawn again (once, several times, and across 2^64)",
			Gen: func(yield func(wordsCase) bool) {
				n := 0
				v2s := []uint64{0, 1, 2, 3, ^uint64(0), ^uint64(0) - 1, p - 3, p - 2, p - 4}
				for i := uint64(0); i < 60; i++ {
					rng := hx.Rng(i)
					v2s = append(v2s, rng.Next())
				}
				for _, v2 := range v2s {
					for v1 := uint64(0); v1 < uint64(hx.Pick(r, 300, 5000)); v1++ {
						if c, ok := degenerate(v1*0x9e3779b97f4a7c15, v2); ok {
							n++
							if !yield(c) {
								return
							}
						}
					}
				}
				r.Count("redrawn_coefficients", int64(n))
			},
			Eval: func(w *hx.W, c wordsCase) (bool, error) {
				a, b, k := ref.OctRemap(c.V[0]), ref.OctRemap(c.V[1]), ref.OctRemap(c.V[2])
				if b*b%p != 4*a*k%p {
					panic("harness: not a double root")
				}
				return eval(w, c)
			},
		})
		hx.Explore(r, hx.Suite[wordsCase]{
			Name: "word-classes",
			Rule: "every combination of 9 boundary residues for the four header words",
			Gen: func(yield func(wordsCase) bool) {
				vals := []uint64{0, 1, p - 3, p - 2, p - 1, 1<<13 - 1, 126 - 1, ^uint64(0), 5 * (p - 2)}
				for i := 0; i < 9*9*9*9; i++ {
					c := wordsCase{[4]uint64{vals[i%9], vals[i/9%9], vals[i/81%9], vals[i/729]}, uint64(i)}
					if !yield(c) {
						return
					}
				}
			},
			Eval: eval,
		})
		pk.OctopusAlgo.Explore(r)
	})
}
