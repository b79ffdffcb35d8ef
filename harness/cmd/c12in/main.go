//go:build go1.23

// C12: the coefficient of every residue.
package main

import (
	"encoding/binary"
	"fmt"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/octopus"
)

func main() {
	hx.Main("C12", "exploration", func(r *hx.Run) {
		hx.Explore(r, hx.Suite[uint64]{
			Name: "coefficients", Rule: "the coefficient of every residue class of a header word (all 1032191), as its smallest and largest representative",
			Gen: func(yield func(uint64) bool) {
				for i := uint64(0); i < 1032191; i += 4096 {
					if !yield(i) {
						return
					}
				}
			},
			Eval: func(w *hx.W, from uint64) (bool, error) {
				const m = 1032191
				for h := from; h < from+4096 && h < m; h++ {
					for _, v := range []uint64{h, h + (^uint64(0)-h)/m*m} {
						w.Add(1, 1)
						if g, x := octopus.VHRemap(v), ref.OctRemap(v); g != x {
							// it counts if the hash of a header with that word is wrong
							h := make([]byte, 32)
							for i := 0; i < 4; i++ {
								binary.LittleEndian.PutUint64(h[8*i:], v)
							}
							ch := pk.Tiny("W", 0)
							ch.Mix = 256
							if err := pk.OctopusAlgo.Check(octopus.New(pk.Config(ch, "")), ch, h, 3, 5); err != nil {
								return true, fmt.Errorf("coefficient of %d: got %d, want %d; %w", v, g, x, err)
							}
							w.R.Incomplete("internal function differs from the reference without any effect")
							return false, nil
						}
					}
				}
				return true, nil
			},
		})
	})
}
