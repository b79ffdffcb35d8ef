//go:build go1.23

package pk

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"time"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// Shipped is a chain with its ready-made client.
type Shipped struct {
	Chain ref.Chain
	New   func() any
}

// Algo is a DAG-based algorithm.
type Algo struct {
	Name   string
	Prefix string // of suite names
	Ships  []Shipped
	New    func(cfg dag.Config) any
	Call   func(client any, hash []byte, height, nonce uint64) ([][]byte, error)
	Ref    func(c ref.Chain, hash []byte, height, nonce uint64) [][]byte
	L1     int // words of the second-level cache
	Mix    uint64
	Item   uint64 // size of the granule a dataset holds a whole number of
}

// hashCase is one call.
type hashCase struct {
	Chain  ref.Chain
	Ship   int // 1 + index of the shipped client, 0: built from Chain
	Hash   hx.BitsCase
	Height uint64
	Nonce  uint64
}

// Shrink turns a fresh shipped client into one with a tiny light cache, kept in
// memory; everything else stays as it is shipped.
func Shrink(client any, c ref.Chain) ref.Chain {
	d := hx.DagOf(client)
	d.StorageDir = ""
	d.CacheSizes = nil
	d.CacheInitBytes, d.CacheGrowthBytes = 4096, 0
	c.CacheInit, c.CacheG = 4096, 0
	return c
}

func (a *Algo) client(w *hx.W, c hashCase) (any, ref.Chain) {
	type ck struct {
		c    ref.Chain
		ship int
	}
	m, _ := w.Local.(map[ck]any)
	if m == nil || len(m) > 50 {
		m = map[ck]any{}
		w.Local = m
	}
	ch := c.Chain
	cl := m[ck{c.Chain, c.Ship}]
	if c.Ship > 0 {
		s := a.Ships[c.Ship-1]
		if cl == nil {
			cl = s.New()
		}
		ch = Shrink(cl, s.Chain)
	} else if cl == nil {
		cl = a.New(Config(ch, ""))
	}
	m[ck{c.Chain, c.Ship}] = cl
	return cl, ch
}

// Check compares one call with the reference.
func (a *Algo) Check(cl any, ch ref.Chain, hash []byte, height, nonce uint64) error {
	in := append([]byte(nil), hash...)
	got, err := a.Call(cl, in, height, nonce)
	if err != nil {
		return err
	}
	if err := hx.EqBytes("header after the call", in, hash); err != nil {
		return err
	}
	want := a.Ref(ch, hash, height, nonce)
	for i, n := range []string{"mix digest", "result"}[2-len(want):] {
		if err := hx.EqBytes(n, got[i], want[i]); err != nil {
			return fmt.Errorf("%s: hash %x height %d nonce %d: %w", ch.Name, hash, height, nonce, err)
		}
	}
	return nil
}

func (a *Algo) eval(w *hx.W, c hashCase) (bool, error) {
	cl, ch := a.client(w, c)
	return true, a.Check(cl, ch, c.Hash.Bytes(32), c.Height, c.Nonce)
}

// epochs of the shipped chains that are looked at, up to node numbers of 32 bits.
func shippedEpochs(c ref.Chain, thorough bool) (out []uint64) {
	last := (uint64(1)<<38 - c.DatasetInit) / c.DatasetG
	l := []uint64{0, 1, 2, 3, 7, 100, 171, 333, 1000, 2000, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 3000, 4095, 4096, 5000, last - 1}
	if thorough {
		for e := uint64(10); e < 4200; e += 37 {
			l = append(l, e)
		}
		for e := uint64(6000); e < last; e += 1999 {
			l = append(l, e)
		}
	}
	for _, e := range l {
		if e < last {
			out = append(out, e)
		}
	}
	return
}

// Explore runs the suites.
func (a *Algo) Explore(r *hx.Run) {
	r.Assume("the reference in harness/ref, written from the published specifications and checked against mined blocks, is right")
	r.Assume("datasets up to 2^38 bytes (64 byte nodes numbered with 32 bits), as in every implementation of these algorithms")
	base := Tiny("T", a.L1)
	base.Mix = a.Mix
	hx.Explore(r, hx.Suite[hashCase]{
		Name: a.Prefix + "inputs",
		Rule: "one tiny chain: every header hash of weight at most 1, its complement and single flips of fills; every boundary nonce with several hashes",
		Gen: func(yield func(hashCase) bool) {
			for i, b := range hx.Weight(256, false, hx.Pick(r, 6, 40)) {
				if !yield(hashCase{base, 0, b, uint64(i) % 40, uint64(i) * 0x9e3779b97f4a7c15}) {
					return
				}
			}
			for i, n := range hx.Words64() {
				for f := uint64(0); f < 6; f++ {
					if !yield(hashCase{base, 0, hx.BitsCase{Fill: f}, uint64(i) % 40, n}) {
						return
					}
				}
			}
			for n := uint64(0); n < uint64(hx.Pick(r, 3000, 30000)); n++ {
				if !yield(hashCase{base, 0, hx.BitsCase{Fill: 7}, n % 3, n}) {
					return
				}
			}
		},
		Eval: a.eval,
	})
	hx.Explore(r, hx.Suite[hashCase]{
		Name: a.Prefix + "heights",
		Rule: "every height of the first epochs of a tiny chain, and every 64 bit boundary height on chains with very long epochs",
		Gen: func(yield func(hashCase) bool) {
			for h := uint64(0); h < uint64(hx.Pick(r, 130, 1000)); h++ {
				for f := uint64(1); f <= 2; f++ {
					if !yield(hashCase{base, 0, hx.BitsCase{Fill: f}, h, h * 77}) {
						return
					}
				}
			}
			for _, el := range []uint64{1 << 63, 1 << 62, 1<<63 - 25} {
				c := base
				c.EpochLen, c.SeedLen = el, el
				for i, h := range hx.Words64() {
					if !yield(hashCase{c, 0, hx.BitsCase{Fill: 3}, h, uint64(i)}) {
						return
					}
				}
			}
			c := base // seeds that advance faster than epochs
			c.EpochLen, c.SeedLen = 20, 10
			for h := uint64(0); h < 90; h++ {
				if !yield(hashCase{c, 0, hx.BitsCase{Fill: 4}, h, h}) {
					return
				}
			}
		},
		Eval: a.eval,
	})
	hx.Explore(r, hx.Suite[hashCase]{
		Name: a.Prefix + "shapes",
		Rule: "cache sizes 3..64 rows, dataset sizes from 5 granules to 2^38 bytes, 1..512 parents, 0..4 cache rounds",
		Gen: func(yield func(hashCase) bool) {
			var l []ref.Chain
			for rows := uint64(4); rows <= 64; rows += 2 {
				c := base
				c.CacheInit = rows * 64
				c.CacheG = 0
				l = append(l, c)
			}
			for n := uint64(6); n < 60; n += 2 {
				c := base
				c.DatasetInit = n * a.Item
				c.DatasetG = 2 * a.Item
				l = append(l, c)
			}
			for s := uint(14); s <= 38; s++ {
				for _, d := range []uint64{0, 12346 * 256} {
					c := base
					c.DatasetInit = 1<<s + d
					if c.DatasetInit <= 1<<38 {
						l = append(l, c)
					}
				}
			}
			for _, p := range []uint32{1, 2, 3, 5, 15, 16, 17, 31, 63, 255, 256, 257, 511, 512} {
				c := base
				c.Parents = p
				l = append(l, c)
			}
			for n := 0; n < 5; n++ {
				c := base
				c.Rounds = n
				l = append(l, c)
			}
			for i, c := range l {
				for f := uint64(1); f <= uint64(hx.Pick(r, 2, 12)); f++ {
					if !yield(hashCase{c, 0, hx.BitsCase{Fill: f}, uint64(i%3) * 10, f * 0x1234567}) {
						return
					}
				}
			}
		},
		Eval: a.eval,
	})
	hx.Explore(r, hx.Suite[hashCase]{
		Name: a.Prefix + "shipped",
		Rule: "the shipped clients with only the light cache shrunk to 4 KB: several heights (first, second, last of the epoch, and the following ones) of epochs up to dataset sizes of 2^38 bytes, the ends of the lookup tables among them; the inputs of known blocks",
		Gen: func(yield func(hashCase) bool) {
			for s, sh := range a.Ships {
				for _, e := range shippedEpochs(sh.Chain, r.Thorough()) {
					el := sh.Chain.EpochLen
					for i, h := range []uint64{0, 1, 2, 3, 9, 10, 11, 12, el / 2, el - 2, el - 1} {
						if !yield(hashCase{ref.Chain{}, 1 + s, hx.BitsCase{Fill: e + 1}, e*el + h, uint64(i)*0x9e3779b97f4a7c15 ^ e}) {
							return
						}
					}
				}
			}
		},
		Eval: a.eval,
	})
	type known struct {
		Chain string
		Args  []string
	}
	find := func(name string) (Shipped, bool) {
		for _, s := range a.Ships {
			if s.Chain.Name == name {
				return s, true
			}
		}
		return Shipped{}, false
	}
	real := map[string]any{}
	u := func(s string) uint64 { x, _ := strconv.ParseUint(s, 10, 64); return x }
	hx.Explore(r, hx.Suite[known]{
		Name: a.Prefix + "known-inputs", Rule: "inputs of mined blocks on the shrunk shipped clients",
		Gen: func(yield func(known) bool) {
			for _, v := range Vectors(a.Name) {
				if !yield(known{v[0], v[1:]}) {
					return
				}
			}
		},
		Eval: func(w *hx.W, k known) (bool, error) {
			s, ok := find(k.Chain)
			if !ok {
				return false, nil
			}
			cl := s.New()
			ch := Shrink(cl, s.Chain)
			return true, a.Check(cl, ch, hx.UnHex(k.Args[0]), u(k.Args[1]), u(k.Args[2]))
		},
	})
	hx.Explore(r, hx.Suite[known]{
		Name: a.Prefix + "real", Rule: hx.Pick(r, "the unchanged shipped clients (storage redirected) at heights of their first epoch", "inputs of mined blocks on the unchanged shipped clients (storage redirected)"),
		Limit: 10 * time.Minute, Workers: hx.Pick(r, 2, 4),
		Gen: func(yield func(known) bool) {
			if !r.Thorough() {
				for _, s := range a.Ships {
					for h := uint64(0); h < 4; h++ {
						if !yield(known{s.Chain.Name, []string{hex.EncodeToString(hx.BitsCase{Fill: h}.Bytes(32)), fmt.Sprint(h * 431), fmt.Sprint(h * 0x123456789abcdef)}}) {
							return
						}
					}
				}
				return
			}
			for _, v := range Vectors(a.Name) {
				if _, ok := find(v[0]); ok && !yield(known{v[0], v[1:]}) {
					return
				}
			}
		},
		Eval: func(w *hx.W, k known) (bool, error) {
			s, _ := find(k.Chain)
			mu.Lock()
			cl := real[k.Chain]
			if cl == nil {
				cl = s.New()
				hx.DagOf(cl).StorageDir = ""
				real[k.Chain] = cl
			}
			mu.Unlock()
			return true, a.Check(cl, s.Chain, hx.UnHex(k.Args[0]), u(k.Args[1]), u(k.Args[2]))
		},
	})
}
