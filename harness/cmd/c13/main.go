//go:build go1.23

// C13: Equihash accepts exactly the valid solutions.
package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/internal/vh/eqs"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// inst is one header with its rows as they are needed.
type inst struct {
	p      ref.Equi
	header []byte
	cl     *equihash.Client
	rows   map[uint32]ref.Bits
}

func newInst(p ref.Equi, header []byte) *inst {
	return &inst{p, header, equihash.New(uint32(p.N), uint32(p.K), p.Pers, p.Twist), map[uint32]ref.Bits{}}
}

func (t *inst) want(soln []byte) bool {
	if len(soln) != t.p.SolLen() {
		return false
	}
	idx := t.p.Decode(soln)
	rows := make([]ref.Bits, len(idx))
	for i, x := range idx {
		if t.rows[x] == nil {
			t.rows[x] = t.p.Row(t.header, x)
		}
		rows[i] = t.rows[x]
	}
	return ref.VerifyTree(t.p.C(), idx, rows)
}

// check compares the verdicts on one solution.
func (t *inst) check(w *hx.W, what string, soln []byte) (valid bool, err error) {
	want := t.want(soln)
	h, s := append([]byte(nil), t.header...), append([]byte(nil), soln...)
	ok, err := t.cl.Verify(h, s)
	w.Add(1, 1)
	switch {
	case want && (!ok || err != nil):
		return want, fmt.Errorf("%s: n=%d k=%d header %x: valid solution %x rejected (%v, %v)", what, t.p.N, t.p.K, t.header, soln, ok, err)
	case !want && ok && err == nil:
		return want, fmt.Errorf("%s: n=%d k=%d header %x: invalid solution %x accepted", what, t.p.N, t.p.K, t.header, soln)
	}
	return want, nil
}

// swapped exchanges the halves of the subtrees in set (numbered breadth first from 1 at the root).
func swapped(idx []uint32, set func(node int) bool) []uint32 {
	var rec func(node int, l []uint32) []uint32
	rec = func(node int, l []uint32) []uint32 {
		if len(l) == 1 {
			return l
		}
		h := len(l) / 2
		a, b := rec(2*node, l[:h]), rec(2*node+1, l[h:])
		if set(node) {
			a, b = b, a
		}
		return append(append([]uint32(nil), a...), b...)
	}
	return rec(1, idx)
}

// variants checks everything near one list of indices.
func (t *inst) variants(w *hx.W, idx []uint32, flips int) error {
	enc := t.p.Encode(idx)
	for i := 0; i < 8*len(enc); i += flips {
		enc[i/8] ^= 0x80 >> uint(i%8)
		_, err := t.check(w, "bit flip", enc)
		enc[i/8] ^= 0x80 >> uint(i%8)
		if err != nil {
			return err
		}
	}
	n := len(idx)
	if n == 8 {
		for m := 0; m < 128; m++ {
			if _, err := t.check(w, "swaps", t.p.Encode(swapped(idx, func(node int) bool { return m>>uint(node-1)&1 != 0 }))); err != nil {
				return err
			}
		}
	} else {
		for m := 1; m < n; m++ {
			if _, err := t.check(w, "swap", t.p.Encode(swapped(idx, func(node int) bool { return node == m }))); err != nil {
				return err
			}
		}
	}
	// a subtree in place of another one of the same size
	for size := 1; size < n; size *= 2 {
		for a := 0; a < n; a += size {
			for b := 0; b < n; b += size {
				if a == b || n > 32 && b != a^size && b != 0 {
					continue
				}
				l := append([]uint32(nil), idx...)
				copy(l[a:a+size], idx[b:b+size])
				if _, err := t.check(w, "copied subtree", t.p.Encode(l)); err != nil {
					return err
				}
				// and exchanged with it
				copy(l[b:b+size], idx[a:a+size])
				if _, err := t.check(w, "exchanged subtrees", t.p.Encode(l)); err != nil {
					return err
				}
			}
		}
	}
	// whole solution repeated pairwise
	l := append([]uint32(nil), idx...)
	for i := range l {
		l[i] = idx[i/2]
	}
	_, err := t.check(w, "pairs", t.p.Encode(l))
	return err
}

func (t *inst) lengths(w *hx.W, soln []byte) error {
	for n := 0; n <= len(soln)+70; n++ {
		s := make([]byte, n)
		copy(s, soln)
		if _, err := t.check(w, "length", s); err != nil {
			return err
		}
	}
	for _, s := range [][]byte{nil, append(append([]byte(nil), soln...), soln...), make([]byte, 4*len(soln))} {
		if _, err := t.check(w, "length", s); err != nil {
			return err
		}
	}
	return nil
}

func (t *inst) headers(w *hx.W, soln []byte) error {
	for i := 0; i <= 8*len(t.header); i++ {
		h := append([]byte(nil), t.header...)
		if i < 8*len(h) {
			h[i/8] ^= 0x80 >> uint(i%8)
		} else {
			h = append(h, 0)
		}
		if _, err := newInst(t.p, h).check(w, "header", soln); err != nil {
			return err
		}
	}
	return nil
}

type tinyCase struct {
	C, K, Pers, Header int
	Seed               uint64
}

func evalTiny(w *hx.W, c tinyCase) (bool, error) {
	r := hx.Rng(c.Seed)
	t := newInst(ref.Equi{N: c.C * (c.K + 1), K: c.K, Pers: "Personal"[:c.Pers]}, r.Bytes(c.Header))
	rows := make([]eqs.Row, 2<<uint(c.C))
	for i := range rows {
		rows[i] = eqs.RowOf(t.p.Row(t.header, uint32(i)))
	}
	limit := 64 << uint(c.C)
	try := func(name string, l [][]uint32) (valid [][]uint32, err error) {
		for _, idx := range l {
			ok, err := t.check(w, name, t.p.Encode(idx))
			if err != nil {
				return nil, err
			}
			if ok {
				w.R.Count("valid_solutions", 1)
				valid = append(valid, idx)
			} else {
				w.R.Count("near_solutions", 1)
			}
		}
		return valid, nil
	}
	valid, err := try("Wagner", eqs.Solve(&t.p, rows, eqs.Relax{}, true, limit, 300))
	if err != nil {
		return true, err
	}
	for r := 1; r <= c.K+1; r++ {
		for b := 0; b < c.C; b++ {
			rx := eqs.Relax{Round: r, Diff: 1 << uint(b)}
			if _, err := try(fmt.Sprintf("collision bit %d of round %d left out", b, r), eqs.Solve(&t.p, rows, rx, false, limit, 12)); err != nil {
				return true, err
			}
			rx.Must = true
			if _, err := try(fmt.Sprintf("collision bit %d of round %d different", b, r), eqs.Solve(&t.p, rows, rx, false, limit, 12)); err != nil {
				return true, err
			}
		}
	}
	for i, idx := range valid {
		if i < 3 {
			if err := t.variants(w, idx, 1); err != nil {
				return true, err
			}
		}
		if i == 0 {
			if err := t.lengths(w, t.p.Encode(idx)); err != nil {
				return true, err
			}
			if err := t.headers(w, t.p.Encode(idx)); err != nil {
				return true, err
			}
		}
	}
	return true, nil
}

func evalHeader(w *hx.W, c tinyCase) (bool, error) {
	r := hx.Rng(c.Seed)
	t := newInst(ref.Equi{N: c.C * (c.K + 1), K: c.K, Pers: "Personal"[:c.Pers]}, r.Bytes(c.Header))
	rows := make([]eqs.Row, 2<<uint(c.C))
	for i := range rows {
		rows[i] = eqs.RowOf(t.p.Row(t.header, uint32(i)))
	}
	n := 0
	for _, idx := range eqs.Solve(&t.p, rows, eqs.Relax{}, true, 64<<uint(c.C), 20) {
		soln := t.p.Encode(idx)
		ok, err := t.check(w, "Wagner", soln)
		if err != nil {
			return true, err
		} else if !ok {
			continue
		}
		w.R.Count("valid_solutions", 1)
		if n++; n > 2 {
			continue
		}
		for _, at := range []int{0, c.Header / 2, c.Header - 1} {
			if c.Header == 0 {
				break
			}
			h := append([]byte(nil), t.header...)
			h[at] ^= 1
			if _, err := newInst(t.p, h).check(w, "header byte changed", soln); err != nil {
				return true, err
			}
			h = append(h[:at:at], t.header[at+1:]...)
			if _, err := newInst(t.p, h).check(w, "header byte left out", soln); err != nil {
				return true, err
			}
		}
	}
	return n > 0, nil
}

type vecCase struct {
	N, K         int
	Pers         string
	Twist        bool
	Header, Soln hx.Hex
	Part, Parts  int
}

func vecs() (out []vecCase) {
	for _, v := range pk.Vectors("equihash") {
		n, _ := strconv.Atoi(v[0])
		k, _ := strconv.Atoi(v[1])
		out = append(out, vecCase{n, k, v[2], v[3] == "true", hx.UnHex(v[4]), hx.UnHex(v[5]), 0, 1})
	}
	return
}

// client is the shipped one for its parameters.
func client(c vecCase) *equihash.Client {
	switch [2]int{c.N, c.K} {
	case [2]int{125, 4}:
		return equihash.NewFlux()
	case [2]int{144, 5}:
		return equihash.NewBitcoinGold()
	case [2]int{192, 7}:
		return equihash.NewZClassic()
	case [2]int{200, 9}:
		return equihash.NewZCash()
	case [2]int{210, 9}:
		return equihash.NewAion()
	}
	return equihash.New(uint32(c.N), uint32(c.K), c.Pers, c.Twist)
}

func evalVec(w *hx.W, c vecCase) (bool, error) {
	t := newInst(ref.Equi{N: c.N, K: c.K, Pers: c.Pers, Twist: c.Twist}, c.Header)
	t.cl = client(c)
	idx := t.p.Decode(c.Soln)
	ok, err := t.check(w, "vector", c.Soln)
	if err != nil {
		return true, err
	}
	if ok {
		w.R.Count("valid_solutions", 1)
	} else {
		w.R.Count("near_solutions", 1)
		if !w.R.Thorough() {
			return true, nil
		}
	}
	if err := t.variants(w, idx, hx.Pick(w.R, 1+len(c.Soln)/400, 1)); err != nil {
		return true, err
	}
	if err := t.lengths(w, c.Soln); err != nil {
		return true, err
	}
	if err := t.headers(w, c.Soln); err != nil {
		return true, err
	}
	return true, nil
}

type shapeCase struct {
	N, K   int
	Pers   string
	Twist  bool
	Header int
	Kind   int
}

func evalShape(w *hx.W, c shapeCase) (bool, error) {
	r := hx.Rng(uint64(c.Kind) + 1)
	t := newInst(ref.Equi{N: c.N, K: c.K, Pers: c.Pers, Twist: c.Twist}, r.Bytes(c.Header))
	t.cl = client(vecCase{N: c.N, K: c.K, Pers: c.Pers, Twist: c.Twist})
	n := 1 << uint(c.K)
	top := uint64(2) << uint(t.p.C())
	l := make([]uint32, n)
	for i := range l {
		switch c.Kind {
		case 0:
		case 1:
			l[i] = uint32(top - 1)
		case 2:
			l[i] = uint32(uint64(i) % top)
		case 3:
			l[i] = uint32(top-1) - uint32(uint64(i)%top)
		case 4:
			l[i] = uint32(i / 2)
		case 5:
			l[i] = uint32(i % 2)
		case 6:
			l[i] = uint32(i % (n / 2))
		case 7:
			l[i] = uint32(i / (n / 2))
		default:
			l[i] = uint32(r.Next() % top)
		}
	}
	if _, err := t.check(w, "shape", t.p.Encode(l)); err != nil {
		return true, err
	}
	return true, t.lengths(w, t.p.Encode(l))
}

// fits tells whether the hashes one BLAKE2b output is cut into fit it.
func fits(n int) bool { return n <= 512 && 512/n*((n+7)/8) <= 64 }

func main() {
	hx.Main("C13", "exploration", func(r *hx.Run) {
		r.Assume("the reference verifier in harness/ref, written from the definition and checked against mined blocks, is right")
		hx.Explore(r, hx.Suite[tinyCase]{
			Name: "tiny",
			Rule: "collision lengths 8..14 and 3..6 rounds, headers of many lengths: the whole Wagner search of a header, with every solution (repeated indices included) and, for every round and every collision bit, the lists that fail only there; around each valid one every bit flip, subtree swap and copy, every length, every header bit",
			Gen: func(yield func(tinyCase) bool) {
				for s := uint64(1); s <= uint64(hx.Pick(r, 14, 400)); s++ {
					for c := 8; c <= 14; c++ {
						for k := 3; k <= 6; k++ {
							if !fits(c*(k+1)) || k > 4 && c > 10 || c > 11 && s > uint64(hx.Pick(r, 4, 100)) {
								continue
							}
							if !yield(tinyCase{c, k, int((s + uint64(c)) % 9), []int{0, 1, 80, 108, 124, 128, 132, 140, 144, 252, 300}[(s*3+uint64(c+k))%11], s*1000 + uint64(c*10+k)}) {
								return
							}
						}
					}
				}
			},
			Eval: evalTiny,
		})
		hx.Explore(r, hx.Suite[tinyCase]{
			Name: "headers",
			Rule: "collision length 8, three rounds, headers of every length 0..1300 and around the powers of two up to 65536: every solution of the header, and the same with the first, the middle or the last byte of the header changed or left out",
			Gen: func(yield func(tinyCase) bool) {
				for n := 0; n <= hx.Pick(r, 1300, 5000); n++ {
					if !yield(tinyCase{8, 3, n % 9, n, uint64(n) + 5}) {
						return
					}
				}
				for sh := 11; sh <= hx.Pick(r, 16, 20); sh++ {
					for d := -6; d <= 6; d++ {
						if n := 1<<uint(sh) + d; !yield(tinyCase{8, 3, 8, n, uint64(n) + 5}) {
							return
						}
					}
				}
			},
			Eval: evalHeader,
		})
		hx.Explore(r, hx.Suite[vecCase]{
			Name: "vectors", Limit: 10 * time.Minute,
			Rule: "mined and searched solutions of every shipped parameter set and of collision lengths 15 to 25, and lists that fail in one bit of one round only: the verdict; around the valid ones bit flips, swaps, copies, lengths, header bits",
			Gen:  hx.Each(vecs()),
			Eval: evalVec,
		})
		hx.Explore(r, hx.Suite[shapeCase]{
			Name: "shapes",
			Rule: "every parameter set with c 8..25 and k 3..9 and the shipped ones: lists all equal, ascending, descending, of pairs, of repeated halves and filled ones, cut and extended to every length",
			Gen: func(yield func(shapeCase) bool) {
				var l []shapeCase
				for _, v := range []shapeCase{{N: 125, K: 4, Pers: "ZelProof", Twist: true}, {N: 144, K: 5, Pers: "BgoldPoW"}, {N: 192, K: 7, Pers: "ZcashPoW"}, {N: 200, K: 9, Pers: "ZcashPoW"}, {N: 210, K: 9, Pers: "AION0PoW"}} {
					l = append(l, v)
				}
				for c := 8; c <= 25; c++ {
					for k := 3; k <= 9; k++ {
						if fits(c * (k + 1)) {
							l = append(l, shapeCase{N: c * (k + 1), K: k, Pers: "Pers"})
						}
					}
				}
				for _, s := range l {
					for kind := 0; kind < 10; kind++ {
						s.Kind, s.Header = kind, 140
						if !yield(s) {
							return
						}
					}
				}
			},
			Eval: evalShape,
		})
	})
}
