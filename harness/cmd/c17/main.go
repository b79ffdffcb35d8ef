//go:build go1.23

// C17: HeavyHash equals the specification and always terminates.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

type hdrCase struct {
	hx.BitsCase
	Time  int64
	Nonce uint64
}

var client = heavyhash.NewKaspa()

func check(w *hx.W, hash []byte, ts int64, nonce uint64) error {
	in := append([]byte(nil), hash...)
	got, err := client.Compute(in, ts, nonce)
	if !bytes.Equal(in, hash) {
		return fmt.Errorf("the header was modified")
	}
	if bytes.Equal(hash, make([]byte, 32)) {
		if err == nil || got != nil {
			return fmt.Errorf("all-zero header: got %x, %v, want an error", got, err)
		}
		return nil
	}
	if err != nil {
		return err
	}
	want, draws := ref.HeavyHash(hash, ts, nonce)
	if draws > 1 {
		w.R.Count("headers_needing_several_matrices", 1)
	}
	return hx.EqBytes("digest", got, want)
}

func main() {
	hx.Main("C17", "exploration", func(r *hx.Run) {
		r.Assume("the reference kHeavyHash in harness/ref (exact rank over a 61 bit prime field) is right; it reproduces the published vector")
		eval := func(w *hx.W, c hdrCase) (bool, error) {
			return true, check(w, c.Bytes(32), c.Time, c.Nonce)
		}
		hx.Explore(r, hx.Suite[hdrCase]{
			Name: "headers", Limit: 60 * time.Second,
			Rule: "every header of weight at most 2, complements of weight at most 1, single flips of fills",
			Gen: func(yield func(hdrCase) bool) {
				for i, b := range hx.Weight(256, true, hx.Pick(r, 3, 40)) {
					if !yield(hdrCase{b, int64(i) * 0x9e3779b97f4a7c1, uint64(i) * 0xd1342543de82ef95}) {
						return
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[hdrCase]{
			Name: "words", Limit: 60 * time.Second,
			Rule: "headers whose four words each are one of 7 boundary values, in every combination",
			Gen: func(yield func(hdrCase) bool) {
				vals := []int{0, 1, 2, 3, 4, 5, 6}
				for _, a := range vals {
					for _, b := range vals {
						for _, c := range vals {
							for _, d := range vals {
								if !yield(hdrCase{hx.BitsCase{Set: []int{-1, a, b, c, d}}, 1, 2}) {
									return
								}
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c hdrCase) (bool, error) {
				words := []uint64{0, 1, 1 << 63, ^uint64(0), 0xff, 0x8000000080000000, 0x0101010101010101}
				h := make([]byte, 32)
				for i := 0; i < 4; i++ {
					for k := 0; k < 8; k++ {
						h[8*i+k] = byte(words[c.Set[1+i]] >> uint(8*k))
					}
				}
				return true, check(w, h, c.Time, c.Nonce)
			},
		})
		hx.Explore(r, hx.Suite[hdrCase]{
			Name: "mined", Limit: 60 * time.Second,
			Rule: "headers found by search whose first matrix has full rank but a determinant divisible by a 14 to 18 bit prime",
			Gen: func(yield func(hdrCase) bool) {
				for _, v := range []int{985, 2759, 19134, 27996, 19040, 119044, 141006, 374858} { // 8191 16381 32749 32771 65521 65537 131071 262139
					if !yield(hdrCase{hx.BitsCase{Set: []int{v}}, 1, 2}) {
						return
					}
				}
			},
			Eval: func(w *hx.W, c hdrCase) (bool, error) {
				h := make([]byte, 32)
				binary.LittleEndian.PutUint64(h, uint64(c.Set[0]))
				binary.LittleEndian.PutUint64(h[24:], ^uint64(c.Set[0]))
				return true, check(w, h, c.Time, c.Nonce)
			},
		})
		hx.Explore(r, hx.Suite[hdrCase]{
			Name: "times", Limit: 60 * time.Second,
			Rule: "two headers (one dense, one sparse), every boundary timestamp (negative ones included) with every 16th boundary nonce and the other way round",
			Gen: func(yield func(hdrCase) bool) {
				ws := hx.Words64()
				for _, b := range []hx.BitsCase{{Fill: 1}, {Set: []int{77}}} {
					for i, t := range ws {
						for j, n := range ws {
							if (i%16 == 0 || j%16 == 0 || i == j) && !yield(hdrCase{b, int64(t), n}) {
								return
							}
						}
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[hdrCase]{
			Name: "zero", Limit: 60 * time.Second,
			Rule: "the all-zero header with every boundary timestamp and nonce",
			Gen: func(yield func(hdrCase) bool) {
				for _, v := range hx.Words64() {
					if !yield(hdrCase{hx.BitsCase{}, int64(v), 0}) || !yield(hdrCase{hx.BitsCase{}, 0, v}) {
						return
					}
				}
			},
			Eval: eval,
		})
	})
}
