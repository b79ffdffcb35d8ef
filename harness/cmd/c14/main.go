//go:build go1.23

// C14: BeamHash III accepts exactly the valid solutions.
package main

import (
	"fmt"

	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

var client = beamhashiii.NewBeam()

func check(w *hx.W, what string, header, soln []byte) (bool, error) {
	want := ref.BeamVerify(header, soln)
	ok, err := client.Verify(append([]byte(nil), header...), append([]byte(nil), soln...))
	w.Add(1, 1)
	switch {
	case want && (!ok || err != nil):
		return want, fmt.Errorf("%s: header %x: valid solution %x rejected (%v, %v)", what, header, soln, ok, err)
	case !want && ok && err == nil:
		return want, fmt.Errorf("%s: header %x: invalid solution %x accepted", what, header, soln)
	}
	return want, nil
}

type beamCase struct {
	Header, Soln hx.Hex
	What         string
}

func vecs() (out []beamCase) {
	for _, v := range pk.Vectors("beam") {
		out = append(out, beamCase{Header: hx.UnHex(v[0]), Soln: hx.UnHex(v[1])})
	}
	return
}

func eval(w *hx.W, c beamCase) (bool, error) {
	header, soln := c.Header, c.Soln
	idx, extra := ref.BeamIndices(soln), soln[100:]
	try := func(l []uint32) error {
		_, err := check(w, c.What, header, ref.BeamEncode(l, extra))
		return err
	}
	flip := func(b []byte, i int) []byte {
		b = append([]byte(nil), b...)
		b[i/8] ^= 1 << uint(i%8)
		return b
	}
	switch c.What {
	case "verdict":
		ok, err := check(w, c.What, header, soln)
		w.R.Count(map[bool]string{true: "valid_solutions", false: "near_solutions"}[ok], 1)
		return true, err
	case "bits":
		for i := 0; i < 832; i++ {
			if _, err := check(w, "bit flip", header, flip(soln, i)); err != nil {
				return true, err
			}
		}
		for i := 0; i < 320; i++ {
			if _, err := check(w, "header bit flip", flip(header, i), soln); err != nil {
				return true, err
			}
		}
	case "swaps":
		// every set of at most two subtrees with exchanged halves
		for a := 0; a < 32; a++ {
			for b := 0; b <= a; b++ {
				if err := try(swapped(idx, a, b)); err != nil {
					return true, err
				}
			}
		}
	case "copies":
		for size := 1; size < 32; size *= 2 {
			for a := 0; a < 32; a += size {
				for b := 0; b < 32; b += size {
					if a == b {
						continue
					}
					l := append([]uint32(nil), idx...)
					copy(l[a:a+size], idx[b:b+size])
					if err := try(l); err != nil {
						return true, err
					}
					copy(l[b:b+size], idx[a:a+size])
					if err := try(l); err != nil {
						return true, err
					}
				}
			}
		}
		for g := 1; g <= 32; g *= 2 {
			l, m := make([]uint32, 32), make([]uint32, 32)
			for i := range l {
				l[i] = idx[i/g]
				m[i] = idx[i%g]
			}
			for _, x := range [][]uint32{l, m} {
				if err := try(x); err != nil {
					return true, err
				}
			}
		}
	case "indices":
		// every index replaced by its neighbours and extremes
		for i := range idx {
			for _, v := range []uint32{0, 1, idx[i] - 1, idx[i] + 1, 1<<25 - 1, 1 << 24, idx[i] ^ 1<<24} {
				l := append([]uint32(nil), idx...)
				l[i] = v & (1<<25 - 1)
				if err := try(l); err != nil {
					return true, err
				}
			}
		}
	case "extra":
		for i := 0; i < 1024; i++ {
			s := append([]byte(nil), soln...)
			s[100+i/256] = byte(i)
			if _, err := check(w, "extra nonce", header, s); err != nil {
				return true, err
			}
		}
	}
	return true, nil
}

func swapped(idx []uint32, x, y int) []uint32 {
	var rec func(node int, l []uint32) []uint32
	rec = func(node int, l []uint32) []uint32 {
		if len(l) == 1 {
			return l
		}
		h := len(l) / 2
		a, b := rec(2*node, l[:h]), rec(2*node+1, l[h:])
		if node == x || node == y {
			a, b = b, a
		}
		return append(append([]uint32(nil), a...), b...)
	}
	return rec(1, idx)
}

type lenCase struct{ Header, Soln, Kind int }

func main() {
	hx.Main("C14", "exploration", func(r *hx.Run) {
		r.Assume("the reference verifier in harness/ref, written from the definition and checked against mined blocks, is right")
		hx.Explore(r, hx.Suite[beamCase]{
			Name: "solutions",
			Rule: "mined and searched solutions and lists that fail in one bit of one round only: the verdict, and that after every bit flip of header and solution, every exchange of the halves of one or two subtrees, every copy or exchange of equally large subtrees, every repetition pattern, neighbouring and extreme indices, other extra nonces",
			Gen: func(yield func(beamCase) bool) {
				for _, c := range vecs() {
					for _, what := range []string{"verdict", "bits", "swaps", "copies", "indices", "extra"} {
						c.What = what
						if !yield(c) {
							return
						}
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[lenCase]{
			Name: "shapes",
			Rule: "headers of 0..90 bytes and solutions of 0..220 bytes, zero, all ones, filled, and indices equal, ascending, descending or of pairs",
			Gen: func(yield func(lenCase) bool) {
				for h := 0; h <= 90; h++ {
					for s := 0; s <= 220; s++ {
						if !yield(lenCase{h, s, (h + s) % 3}) {
							return
						}
					}
				}
				for k := 0; k < hx.Pick(r, 300, 5000); k++ {
					if !yield(lenCase{40, 104, k}) {
						return
					}
				}
			},
			Eval: func(w *hx.W, c lenCase) (bool, error) {
				h, s := make([]byte, c.Header), make([]byte, c.Soln)
				g := hx.Rng(uint64(c.Kind))
				switch {
				case c.Kind == 1:
					for i := range s {
						s[i] = 0xff
					}
				case c.Kind >= 2:
					h, s = g.Bytes(c.Header), g.Bytes(c.Soln)
				}
				if c.Kind >= 3 && c.Kind < 13 && c.Soln == 104 {
					l := make([]uint32, 32)
					for i := range l {
						l[i] = []uint32{uint32(i), uint32(31 - i), uint32(i / 2), uint32(i % 2), 7, 1<<25 - 1, 1<<25 - 1 - uint32(i), uint32(i / 16), uint32(i % 16), uint32(i) << 20}[c.Kind-3]
					}
					s = ref.BeamEncode(l, g.Bytes(4))
				}
				_, err := check(w, "shape", h, s)
				return true, err
			},
		})
	})
}
