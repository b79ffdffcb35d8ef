//go:build go1.23

// C18: Autolykos2 equals the specification at every height.
package main

import (
	"bytes"
	"fmt"
	"strconv"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

type alCase struct {
	K, Exp uint32
	Msg    hx.BitsCase
	Height uint64
	Nonce  uint64
}

func check(k, exp uint32, msg []byte, height, nonce uint64) error {
	c := autolykos2.New(k, exp)
	if k == 32 && exp == 26 {
		c = autolykos2.NewErgo()
	}
	in := append([]byte(nil), msg...)
	got, err := c.Compute(in, height, nonce)
	if err != nil {
		return err
	}
	if !bytes.Equal(in, msg) {
		return fmt.Errorf("the message was modified")
	}
	return hx.EqBytes("digest", got, ref.Autolykos2(int(k), uint(exp), msg, height, nonce))
}

// boundaries are all heights next to a change of the table size, and binary boundaries.
func boundaries(d int) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(h uint64) {
		if h < 1<<32 && !seen[h] {
			seen[h] = true
			out = append(out, h)
		}
	}
	for _, h := range []uint64{0, 1, 2, 100000, 1<<32 - 1, 1<<32 - 2, 5000000, 10000000} {
		add(h)
	}
	for b := uint64(614400 - 51200); b <= 4198400+2*51200; b += 51200 {
		for i := -d; i <= d; i++ {
			add(b + uint64(i))
		}
	}
	for i := -d; i <= d; i++ {
		add(4198400 + uint64(i))
	}
	for i := uint(1); i < 32; i++ {
		add(1<<i - 1)
		add(1 << i)
		add(1<<i + 1)
	}
	return out
}

func main() {
	hx.Main("C18", "exploration", func(r *hx.Run) {
		r.Assume("the reference Autolykos v2 in harness/ref, checked against mined blocks, is right")
		eval := func(w *hx.W, c alCase) (bool, error) {
			return true, check(c.K, c.Exp, c.Msg.Bytes(32), c.Height, c.Nonce)
		}
		hx.Explore(r, hx.Suite[alCase]{
			Name: "ergo-heights", Rule: "Ergo at every height within 2 of a table growth, every binary boundary, and the ends; several messages and nonces each",
			Gen: func(yield func(alCase) bool) {
				for i, h := range boundaries(2) {
					for f := 1; f <= hx.Pick(r, 3, 24); f++ {
						rng := hx.Rng(uint64(i*100 + f))
						if !yield(alCase{32, 26, hx.BitsCase{Fill: rng.Next() | 1}, h, rng.Next()}) {
							return
						}
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[alCase]{
			Name: "ergo-inputs", Rule: "Ergo: every message of weight at most 1 and its complement, single flips of a fill, every boundary nonce",
			Gen: func(yield func(alCase) bool) {
				for i, b := range hx.Weight(256, false, hx.Pick(r, 1, 8)) {
					if !yield(alCase{32, 26, b, []uint64{1, 614399, 614400, 900000, 4198400}[i%5], uint64(i)}) {
						return
					}
				}
				for i, n := range hx.Words64() {
					if !yield(alCase{32, 26, hx.BitsCase{Fill: 5}, []uint64{1, 614399, 614400, 900000, 4198400}[i%5], n}) {
						return
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[alCase]{
			Name: "params", Rule: "every element count 1..32 with every exponent 10..26, at the ends and some growths of the schedule",
			Gen: func(yield func(alCase) bool) {
				hs := []uint64{1, 614399, 614400, 665600, 1<<21 + 7, 4198399, 4198400, 4198401, 1<<32 - 1}
				if r.Thorough() {
					hs = boundaries(0)
				}
				for k := uint32(1); k <= 32; k++ {
					for e := uint32(10); e <= 26; e++ {
						for i, h := range hs {
							rng := hx.Rng(uint64(k)<<20 | uint64(e)<<12 | uint64(i))
							if !yield(alCase{k, e, hx.BitsCase{Fill: rng.Next() | 1}, h, rng.Next()}) {
								return
							}
						}
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[alCase]{
			Name: "small-sums", Rule: "element counts 1..4 (the sum has leading zero bytes), every height boundary of one exponent, nonces 0.." + strconv.Itoa(hx.Pick(r, 200, 5000)),
			Gen: func(yield func(alCase) bool) {
				for k := uint32(1); k <= 4; k++ {
					for n := 0; n <= hx.Pick(r, 200, 5000); n++ {
						if !yield(alCase{k, 16, hx.BitsCase{Fill: 9}, 700000, uint64(n)}) {
							return
						}
					}
					for _, h := range boundaries(1) {
						if !yield(alCase{k, 10 + k, hx.BitsCase{Fill: 9}, h, h}) {
							return
						}
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[int]{
			Name: "known", Rule: "mined blocks",
			Gen: func(yield func(int) bool) {
				for i := range pk.Vectors("autolykos") {
					if !yield(i) {
						return
					}
				}
			},
			Eval: func(w *hx.W, i int) (bool, error) {
				v := pk.Vectors("autolykos")[i]
				u := func(s string) uint64 { x, _ := strconv.ParseUint(s, 10, 64); return x }
				return true, check(uint32(u(v[0])), uint32(u(v[1])), hx.UnHex(v[2]), u(v[3]), u(v[4]))
			},
		})
	})
}
