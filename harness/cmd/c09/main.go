//go:build go1.23

// C09: epoch, seed and sizes follow the chain's schedule at every height.
package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

type epCase struct {
	Ship  int
	Epoch uint64
	Full  bool // the seed at every boundary height too
}

var (
	seedMu sync.Mutex
	seeds  = [][]byte{make([]byte, 32)}
)

// seed is Keccak-256 iterated n times.
func seed(n uint64) []byte {
	seedMu.Lock()
	defer seedMu.Unlock()
	for uint64(len(seeds)) <= n {
		seeds = append(seeds, ref.Keccak256(seeds[len(seeds)-1]))
	}
	return seeds[n]
}

func ships() (out []pk.Shipped) {
	for _, a := range []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo} {
		out = append(out, a.Ships...)
	}
	return
}

func main() {
	hx.Main("C09", "exploration", func(r *hx.Run) {
		r.Assume("dataset sizes up to 2^38 bytes (64 byte nodes numbered with 32 bits)")
		all := ships()
		hx.Explore(r, hx.Suite[epCase]{
			Name: "epochs",
			Rule: "each shipped client: cache size and dataset size against their definition (trial division) and seed at every epoch 0.." + hx.Pick(r, "2400, every 16th", "last, all") + " up to a dataset of 2^38 bytes; epoch and seed at the first, second and last height of the epoch",
			Gen: func(yield func(epCase) bool) {
				for s, sh := range all {
					last := (uint64(1)<<38 - sh.Chain.DatasetInit) / sh.Chain.DatasetG
					for e := uint64(0); e < last; e++ {
						if r.Thorough() || e <= 2400 || e%16 == 0 || e >= last-3 {
							if !yield(epCase{s, e, e < 12 || e%97 == 0 || e >= 2040 && e < 2060}) {
								return
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c epCase) (bool, error) {
				sh := all[c.Ship]
				m, _ := w.Local.(map[int]any)
				if m == nil {
					m = map[int]any{}
					w.Local = m
				}
				if m[c.Ship] == nil {
					m[c.Ship] = sh.New()
				}
				d := hx.DagOf(m[c.Ship])
				ch := sh.Chain
				if g, x := d.CacheSize(c.Epoch), ch.CacheSize(c.Epoch); g != x {
					return true, fmt.Errorf("%s epoch %d: cache size %d, want %d", ch.Name, c.Epoch, g, x)
				}
				if g, x := d.DatasetSize(c.Epoch), ch.DatasetSize(c.Epoch); g != x {
					return true, fmt.Errorf("%s epoch %d: dataset size %d, want %d", ch.Name, c.Epoch, g, x)
				}
				w.Add(2, 2)
				first := c.Epoch * ch.EpochLen
				hs := []uint64{first, first + 1, first + ch.EpochLen/2, first + ch.EpochLen/2 + 1, first + ch.EpochLen - 2, first + ch.EpochLen - 1}
				for i, h := range hs {
					if g := d.CalcEpoch(h); g != c.Epoch {
						return true, fmt.Errorf("%s height %d: epoch %d, want %d", ch.Name, h, g, c.Epoch)
					}
					w.Add(1, 1)
					if i == 1 && (c.Epoch < 5000 || c.Epoch%100 == 0) || c.Full {
						if g, x := d.SeedHash(h), seed(h/ch.SeedLen); !bytes.Equal(g, x) {
							return true, fmt.Errorf("%s height %d: seed %x, want %x", ch.Name, h, g, x)
						}
						w.Add(1, 1)
					}
				}
				return true, nil
			},
		})
		hx.Explore(r, hx.Suite[epCase]{
			Name: "heights",
			Rule: "each shipped client: the epoch of every 64 bit boundary height, and of the heights around its first 4 epoch changes, one by one",
			Gen: func(yield func(epCase) bool) {
				for s := range all {
					if !yield(epCase{Ship: s}) {
						return
					}
				}
			},
			Eval: func(w *hx.W, c epCase) (bool, error) {
				sh := all[c.Ship]
				d := hx.DagOf(sh.New())
				hs := hx.Words64()
				for e := uint64(1); e <= 4; e++ {
					for i := uint64(0); i < 200; i++ {
						hs = append(hs, e*sh.Chain.EpochLen-100+i)
					}
				}
				for _, h := range hs {
					if g, x := d.CalcEpoch(h), sh.Chain.Epoch(h); g != x {
						return true, fmt.Errorf("%s height %d: epoch %d, want %d", sh.Chain.Name, h, g, x)
					}
					if n := h / sh.Chain.SeedLen; n < 5000 {
						if g, x := d.SeedHash(h), seed(n); !bytes.Equal(g, x) {
							return true, fmt.Errorf("%s height %d: seed %x, want %x", sh.Chain.Name, h, g, x)
						}
						w.Add(1, 1)
					}
					w.Add(1, 1)
				}
				return true, nil
			},
		})
		type grid struct{ Init, Growth, Item uint64 }
		hx.Explore(r, hx.Suite[grid]{
			Name: "parameters",
			Rule: "other chains: initial sizes and growths of several magnitudes, items of 64 to 256 bytes, epochs 0..40 (beyond any table)",
			Gen: func(yield func(grid) bool) {
				for _, item := range []uint64{64, 128, 256} {
					for init := uint64(10); init <= 34; init++ {
						for g := uint64(9); g <= 24; g++ {
							if !yield(grid{1 << init, 1 << g, item}) {
								return
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, g grid) (bool, error) {
				c := pk.Tiny("P", 0)
				c.CacheInit, c.CacheG, c.DatasetInit, c.DatasetG, c.Mix = g.Init, g.Growth, g.Init, g.Growth, g.Item
				d := hx.DagOf(pk.EthashAlgo.New(pk.Config(c, "")))
				for e := uint64(0); e < 41; e++ {
					if x := c.CacheSize(e); d.CacheSize(e) != x {
						return true, fmt.Errorf("epoch %d: cache size %d, want %d", e, d.CacheSize(e), x)
					}
					if x := c.DatasetSize(e); d.DatasetSize(e) != x {
						return true, fmt.Errorf("epoch %d: dataset size %d, want %d", e, d.DatasetSize(e), x)
					}
					w.Add(2, 2)
				}
				return true, nil
			},
		})
	})
}
