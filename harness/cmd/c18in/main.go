//go:build go1.23

// C18: the table size at every height.
package main

import (
	"fmt"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

func main() {
	hx.Main("C18", "exploration", func(r *hx.Run) {
		hx.Explore(r, hx.Suite[uint64]{
			Name: "table-sizes", Rule: "the table size of every exponent 10..26 at every height 0..4400000 and 4096 heights before each power of two up to 2^32",
			Gen: func(yield func(uint64) bool) {
				for h := uint64(0); h < 4400000; h += 4096 {
					if !yield(h) {
						return
					}
				}
				for s := uint(23); s <= 32; s++ {
					if !yield(1<<s - 4096) {
						return
					}
				}
			},
			Eval: func(w *hx.W, from uint64) (bool, error) {
				for h := from; h < from+4096; h++ {
					for e := uint(10); e <= 26; e++ {
						w.Add(1, 1)
						if g, x := uint64(autolykos2.VHCalcN(1<<e, h)), ref.AutolykosN(e, h); g != x {
							// it counts if a digest is wrong
							for n := uint64(0); n < 8; n++ {
								msg := hx.BitsCase{Fill: n + 1}.Bytes(32)
								d, err := autolykos2.New(4, uint32(e)).Compute(msg, h, n)
								if err == nil {
									err = hx.EqBytes("digest", d, ref.Autolykos2(4, e, msg, h, n))
								}
								if err != nil {
									return true, fmt.Errorf("table size 2^%d at height %d: got %d, want %d; %w", e, h, g, x, err)
								}
							}
							w.R.Incomplete("internal function differs from the reference without any effect")
							return false, nil
						}
					}
				}
				return true, nil
			},
		})
	})
}
