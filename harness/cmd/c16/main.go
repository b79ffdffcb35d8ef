//go:build go1.23

// C16: Eaglesong equals the specification for every input length.
package main

import (
	"bytes"
	"fmt"

	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

type msgCase struct {
	Len  int
	Fill string // zero, ones, delim, ramp, rng
	Pos  int    // byte replaced, -1: none
	Val  byte
	Cap  string // exact; tail: the slice continues beyond its length
}

func (c msgCase) bytes() []byte {
	b := make([]byte, c.Len)
	switch c.Fill {
	case "ones":
		for i := range b {
			b[i] = 0xff
		}
	case "delim":
		for i := range b {
			b[i] = 0x06
		}
	case "ramp":
		for i := range b {
			b[i] = byte(i)
		}
	case "rng":
		r := hx.Rng(uint64(c.Len) + 1)
		copy(b, r.Bytes(c.Len))
	}
	if c.Pos >= 0 {
		b[c.Pos] = c.Val
	}
	return b
}

var client = eaglesong.NewNervos()

func check(b []byte, tail bool) error {
	in := append([]byte(nil), b...)
	if tail {
		in = append(in, bytes.Repeat([]byte{0xa5}, 300)...)[:len(b)]
	}
	got := client.Compute(in)
	if err := hx.EqBytes("digest", got, ref.Eaglesong(b)); err != nil {
		return err
	}
	if !bytes.Equal(in, b) || tail && !bytes.Equal(in[:len(b)+300][len(b):], bytes.Repeat([]byte{0xa5}, 300)) {
		return fmt.Errorf("the input was modified")
	}
	return nil
}

func main() {
	hx.Main("C16", "exploration", func(r *hx.Run) {
		r.Assume("the reference Eaglesong in harness/ref, written from the specification and checked against its published vector, is right")
		maxLen := hx.Pick(r, 1300, 6000)
		hx.Explore(r, hx.Suite[msgCase]{
			Name: "lengths",
			Rule: fmt.Sprintf("every length 0..%d, with five contents each, in slices that end at their length and slices that go on", maxLen),
			Gen: func(yield func(msgCase) bool) {
				for n := 0; n <= maxLen; n++ {
					for _, f := range []string{"zero", "ones", "delim", "ramp", "rng"} {
						for _, cp := range []string{"exact", "tail"} {
							if !yield(msgCase{n, f, -1, 0, cp}) {
								return
							}
						}
					}
				}
				for sh := 11; sh <= hx.Pick(r, 16, 21); sh++ {
					for _, d := range []int{-33, -32, -31, -2, -1, 0, 1, 2, 31, 32, 33} {
						if !yield(msgCase{1<<uint(sh) + d, "rng", -1, 0, "exact"}) {
							return
						}
					}
				}
			},
			Eval: func(w *hx.W, c msgCase) (bool, error) { return true, check(c.bytes(), c.Cap == "tail") },
		})
		lim := hx.Pick(r, 72, 136)
		hx.Explore(r, hx.Suite[msgCase]{
			Name: "bytes",
			Rule: fmt.Sprintf("every length 1..%d, every position, every byte value there, on zero and pseudorandom content", lim),
			Gen: func(yield func(msgCase) bool) {
				for n := 1; n <= lim; n++ {
					for p := 0; p < n; p++ {
						for _, f := range []string{"zero", "rng"} {
							if !yield(msgCase{n, f, p, 0, "exact"}) {
								return
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c msgCase) (bool, error) {
				for v := 0; v < 256; v++ {
					c.Val = byte(v)
					if err := check(c.bytes(), false); err != nil {
						return true, fmt.Errorf("value %d: %w", v, err)
					}
				}
				w.Add(255, 255)
				return true, nil
			},
		})
		hx.Explore(r, hx.Suite[hx.BitsCase]{
			Name: "bits32",
			Rule: "every 32 byte input of weight at most 2, its complement of weight at most 1, and single flips of fills; the same bits also in 48 byte inputs",
			Gen:  hx.Each(hx.Weight(256, true, hx.Pick(r, 4, 40))),
			Eval: func(w *hx.W, c hx.BitsCase) (bool, error) {
				w.Add(1, 1)
				if err := check(c.Bytes(32), false); err != nil {
					return true, err
				}
				return true, check(c.Bytes(48), false)
			},
		})
		hx.Explore(r, hx.Suite[int]{
			Name: "known", Rule: "the known inputs and every single bit flip of them",
			Gen: hx.Each([]int{0}),
			Eval: func(w *hx.W, _ int) (bool, error) {
				for _, v := range pk.Vectors("eaglesong") {
					b := hx.UnHex(v[0])
					for i := -1; i < 8*len(b); i++ {
						m := append([]byte(nil), b...)
						if i >= 0 {
							m[i/8] ^= 1 << uint(i%8)
						}
						w.Add(1, 1)
						if err := check(m, false); err != nil {
							return true, err
						}
					}
				}
				return true, nil
			},
		})
	})
}
