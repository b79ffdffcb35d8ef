//go:build go1.23

// Package eqs enumerates the solutions and near-solutions of Equihash and
// BeamHash instances by Wagner's algorithm.
package eqs

import (
	"math/bits"
	"runtime"
	"sync"

	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// Row is an n bit hash, most significant bit first.
type Row [4]uint64

func (r *Row) set(i int) { r[i/64] |= 1 << uint(63-i%64) }

// get returns n (at most 32) bits from position at.
func (r *Row) get(at, n int) uint32 {
	w, o := at/64, at%64
	v := r[w] << uint(o)
	if o+n > 64 {
		v |= r[w+1] >> uint(64-o)
	}
	return uint32(v >> uint(64-n))
}

// Relax weakens the collision demanded in one round: the two keys may, or must
// (Must), differ by Diff. Round K+1 stands for the final chunk. Round 0 weakens nothing.
type Relax struct {
	Round int
	Diff  uint32
	Must  bool
}

// Rows hashes all 2^(c+1) indices.
func Rows(p *ref.Equi, header []byte) []Row {
	n := 1 << uint(p.C()+1)
	out := make([]Row, n)
	par(n/4096+1, func(i int) {
		lo, hi := i*4096, min(n, i*4096+4096)
		fill(p, header, out, lo, hi)
	})
	return out
}

func toRow(b []byte, n int) (r Row) {
	for i := 0; i < n; i++ {
		if b[i/8]>>uint(7-i%8)&1 != 0 {
			r.set(i)
		}
	}
	return
}

// fill computes rows lo..hi. It hashes each block once.
func fill(p *ref.Equi, header []byte, out []Row, lo, hi int) {
	per := 512 / p.N
	last := -1
	var rows [][]byte
	for i := lo; i < hi; i++ {
		if i/per != last {
			last = i / per
			rows = p.Block(header, uint32(last))
		}
		out[i] = toRow(rows[i%per], p.N)
	}
}

func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

type pair struct{ a, b uint32 }

// buckets sorts 0..n-1 by key.
func buckets(n, nkeys int, key func(i int) uint32) (start, perm []uint32) {
	start = make([]uint32, nkeys+1)
	for i := 0; i < n; i++ {
		start[key(i)+1]++
	}
	for i := 0; i < nkeys; i++ {
		start[i+1] += start[i]
	}
	perm = make([]uint32, n)
	pos := append([]uint32(nil), start...)
	for i := 0; i < n; i++ {
		k := key(i)
		perm[pos[k]] = uint32(i)
		pos[k]++
	}
	return
}

// collide lists, in parallel, the pairs i before j whose keys differ by an allowed value and that keep says.
func collide(n, nkeys int, key func(i int) uint32, diffs []uint32, keep func(i, j uint32) bool, limit int) []pair {
	start, perm := buckets(n, nkeys, key)
	parts := 64
	outs := make([][]pair, parts)
	par(parts, func(w int) {
		lo, hi := nkeys/parts*w, nkeys/parts*(w+1)
		if w == parts-1 {
			hi = nkeys
		}
		for k := lo; k < hi; k++ {
			for _, d := range diffs {
				k2 := int(uint32(k) ^ d)
				if k2 < k {
					continue
				}
				for x := start[k]; x < start[k+1]; x++ {
					y := start[k2]
					if k2 == k {
						y = x + 1
					}
					for ; y < start[k2+1]; y++ {
						if i, j := perm[x], perm[y]; keep(i, j) {
							outs[w] = append(outs[w], pair{i, j})
							if len(outs[w]) > limit/parts {
								return
							}
						}
					}
				}
			}
		}
	})
	var out []pair
	for _, o := range outs {
		out = append(out, o...)
	}
	return out
}

// Solve lists the ordered index lists that collide as demanded in every round and
// whose final XOR is zero, but for what rx weakens. Lists with repeated indices are
// included when dups is set (then nothing is dropped on the way).
func Solve(p *ref.Equi, rows []Row, rx Relax, dups bool, limit, max int) [][]uint32 {
	c := p.C()
	cur := rows
	first := make([]uint32, len(rows))
	for i := range first {
		first[i] = uint32(i)
	}
	var refs [][]pair
	mask := func(r int) []uint32 {
		if rx.Round != r {
			return []uint32{0}
		}
		if rx.Must {
			return []uint32{rx.Diff}
		}
		return []uint32{0, rx.Diff}
	}
	for r := 1; r <= p.K; r++ {
		at := (r - 1) * c
		fin := mask(p.K + 1)
		keep := func(i, j uint32) bool {
			if first[i] == first[j] {
				return false // cannot be ordered
			}
			if r == p.K {
				x := cur[i].get(at+c, c) ^ cur[j].get(at+c, c)
				for _, d := range fin {
					if x == d {
						return true
					}
				}
				return false
			}
			if !dups {
				z := true
				for b := at + c; b < p.N && z; b += 16 {
					m := min(16, p.N-b)
					z = cur[i].get(b, m) == cur[j].get(b, m)
				}
				return !z
			}
			return true
		}
		ps := collide(len(cur), 1<<uint(c), func(i int) uint32 { return cur[i].get(at, c) }, mask(r), keep, limit)
		next := make([]Row, len(ps))
		nf := make([]uint32, len(ps))
		for x := range ps {
			a, b := ps[x].a, ps[x].b
			if first[a] > first[b] {
				a, b = b, a
				ps[x] = pair{a, b}
			}
			for w := range next[x] {
				next[x][w] = cur[a][w] ^ cur[b][w]
			}
			nf[x] = first[a]
		}
		refs = append(refs, ps)
		cur, first = next, nf
	}
	var out [][]uint32
	for i := range cur {
		l := leaves(refs, len(refs), uint32(i), nil)
		if !dups && !distinct(l) {
			continue
		}
		out = append(out, l)
		if len(out) >= max {
			break
		}
	}
	return out
}

func leaves(refs [][]pair, lvl int, i uint32, out []uint32) []uint32 {
	if lvl == 0 {
		return append(out, i)
	}
	p := refs[lvl-1][i]
	return leaves(refs, lvl-1, p.b, leaves(refs, lvl-1, p.a, out))
}

func distinct(l []uint32) bool {
	seen := map[uint32]bool{}
	for _, x := range l {
		if seen[x] {
			return false
		}
		seen[x] = true
	}
	return true
}

// Beam enumerates ordered solutions of a BeamHash instance; rx as in Solve (round 6: the remaining bits).
func Beam(header, extra []byte, rx Relax, limit, max int) [][]uint32 {
	const n = 1 << 25
	keys := ref.BeamKeys(header, extra)
	type brow [7]uint64
	cur := make([]brow, n)
	par(n/4096, func(p int) {
		for i := p * 4096; i < p*4096+4096; i++ {
			for w := range cur[i] {
				cur[i][w] = sip(keys, uint64(i)<<3+uint64(w))
			}
		}
	})
	first := make([]uint32, n)
	for i := range first {
		first[i] = uint32(i)
	}
	var refs [][]pair
	for r := 1; r <= 5; r++ {
		mix, next := ref.BeamRem(r)
		lvl := r - 1
		par(len(cur)/4096+1, func(p int) {
			var l []uint32
			for i := p * 4096; i < min(len(cur), p*4096+4096); i++ {
				l = leaves(refs, lvl, uint32(i), l[:0])
				var w [8]uint64
				copy(w[:], cur[i][:])
				w = ref.BeamMix(w, l, mix)
				copy(cur[i][:], w[:])
			}
		})
		diffs := []uint32{0}
		if rx.Round == r {
			diffs = append(diffs, rx.Diff)
			if rx.Must {
				diffs = diffs[1:]
			}
		}
		comb := func(a, b uint32) (out brow) {
			var x brow
			for w := range x {
				x[w] = cur[a][w] ^ cur[b][w]
			}
			for w := range x {
				out[w] = x[w] >> 24
				if w < 6 {
					out[w] |= x[w+1] << 40
				}
				switch left := next - 64*w; {
				case left <= 0:
					out[w] = 0
				case left < 64:
					out[w] &= 1<<uint(left) - 1
				}
			}
			return
		}
		ps := collide(len(cur), 1<<24, func(i int) uint32 { return uint32(cur[i][0] & 0xffffff) }, diffs, func(i, j uint32) bool {
			if first[i] == first[j] {
				return false
			}
			x := comb(i, j)
			z := x == brow{}
			if r == 5 {
				if rx.Round == 6 {
					return x == brow{uint64(rx.Diff)}
				}
				return z
			}
			return !z
		}, limit)
		up := make([]brow, len(ps))
		nf := make([]uint32, len(ps))
		par(len(ps)/4096+1, func(p int) {
			for x := p * 4096; x < min(len(ps), p*4096+4096); x++ {
				a, b := ps[x].a, ps[x].b
				if first[a] > first[b] {
					a, b = b, a
					ps[x] = pair{a, b}
				}
				up[x] = comb(a, b)
				nf[x] = first[a]
			}
		})
		refs = append(refs, ps)
		cur, first = up, nf
	}
	var out [][]uint32
	for i := range cur {
		l := leaves(refs, 5, uint32(i), nil)
		out = append(out, l)
		if len(out) >= max {
			break
		}
	}
	return out
}

// sip is BeamHash's SipHash-2-4 variant, unrolled for speed (its results are checked again by ref.BeamVerify).
func sip(k [4]uint64, n uint64) uint64 {
	v0, v1, v2, v3 := k[0], k[1], k[2], k[3]
	round := func() {
		v0 += v1
		v2 += v3
		v1 = bits.RotateLeft64(v1, 13)
		v3 = bits.RotateLeft64(v3, 16)
		v1 ^= v0
		v3 ^= v2
		v0 = bits.RotateLeft64(v0, 32)
		v2 += v1
		v0 += v3
		v1 = bits.RotateLeft64(v1, 17)
		v3 = bits.RotateLeft64(v3, 21)
		v1 ^= v2
		v3 ^= v0
		v2 = bits.RotateLeft64(v2, 32)
	}
	v3 ^= n
	round()
	round()
	v0 ^= n
	v2 ^= 0xff
	round()
	round()
	round()
	round()
	return v0 ^ v1 ^ v2 ^ v3
}

// RowOf packs a bit string.
func RowOf(b ref.Bits) (r Row) {
	for i, x := range b {
		if x != 0 {
			r.set(i)
		}
	}
	return
}
