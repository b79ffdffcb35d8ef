//go:build go1.23

// C08: epoch data depends only on the chain parameters and the epoch.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// how the epoch is obtained
var ways = []string{"memory", "disk", "reload", "next", "next-disk", "after-others", "only-cache", "only-l1", "evicted", "evicted-disk", "locked", "locked-reload"}

type dataCase struct {
	Chain ref.Chain
	Epoch uint64
	Way   string
}

type epochData interface {
	Cache() []uint32
	L1() []uint32
}

// obtain gets the data of an epoch in the given way.
func obtain(d func(dir string, lock bool) *dag.DAG, c dataCase, dir string) (*dag.DAG, func(ep uint64) epochData) {
	get := func(x *dag.DAG) func(uint64) epochData {
		return func(ep uint64) epochData { return x.GetCache(ep) }
	}
	files := func(prefix string) (out []string) {
		out, _ = filepath.Glob(filepath.Join(dir, prefix+"*"))
		return
	}
	switch c.Way {
	case "memory":
		dir = ""
	case "reload":
		keep(d(dir, false).GetCache(c.Epoch))
		settle(dir)
	case "next", "next-disk":
		if c.Way == "next" {
			dir = ""
		}
		x := d(dir, false)
		if c.Epoch > 0 {
			keep(x.GetCache(c.Epoch - 1))
		}
		return x, get(x)
	case "after-others":
		x := d("", false)
		for e := c.Epoch + 2; e > c.Epoch; e-- {
			keep(x.GetCache(e))
		}
		return x, get(x)
	case "only-cache", "only-l1":
		keep(d(dir, false).GetCache(c.Epoch))
		settle(dir)
		p := "l1-"
		if c.Way == "only-l1" {
			p = "cache-"
		}
		for _, f := range files(p) {
			os.Remove(f)
		}
	case "evicted", "evicted-disk":
		if c.Way == "evicted" {
			dir = ""
		}
		x := d(dir, false)
		keep(x.GetCache(c.Epoch))
		for e := c.Epoch + 1; e < c.Epoch+6; e++ {
			keep(x.GetCache(e))
		}
		runtime.GC()
		return x, get(x)
	case "locked":
		x := d(dir, true)
		return x, get(x)
	case "locked-reload":
		keep(d(dir, true).GetCache(c.Epoch))
		settle(dir)
		x := d(dir, true)
		return x, get(x)
	}
	x := d(dir, false)
	return x, get(x)
}

func keep(epochData) {}

// settle waits for background work on the directory to end.
func settle(dir string) {
	if dir == "" {
		return
	}
	for i := 0; i < 2000; i++ {
		l, _ := os.ReadDir(dir)
		busy := false
		for _, e := range l {
			if filepath.Ext(e.Name()) != "" {
				busy = true
			}
		}
		if !busy {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func evalData(w *hx.W, c dataCase) (bool, error) {
	dir, err := os.MkdirTemp(w.R.Scratch, "data")
	if err != nil {
		return false, err
	}
	defer os.RemoveAll(dir)
	mk := func(dir string, lock bool) *dag.DAG {
		cfg := pk.Config(c.Chain, dir)
		cfg.CachesLockMmap = lock
		return dag.New(cfg)
	}
	x, get := obtain(mk, c, dir)
	e := get(c.Epoch)
	want := pk.Ref(c.Chain, c.Epoch)
	if err := hx.EqWords("light cache", e.Cache(), want.Cache); err != nil {
		return true, err
	}
	if c.Chain.L1Words > 0 {
		if err := hx.EqWords("second-level cache", e.L1(), want.L1); err != nil {
			return true, err
		}
	}
	w.Add(1, 1)
	cache := x.GetCache(c.Epoch)
	looks := []struct {
		n uint32
		f dag.LookupFunc
	}{{1, x.NewLookupFunc512(cache, c.Epoch)}, {2, x.NewLookupFunc1024(cache, c.Epoch)}, {4, x.NewLookupFunc2048(cache, c.Epoch)}}
	var idx []uint32
	if c.Way == "memory" || c.Way == "disk" {
		for i := uint32(0); uint64(i) < want.Size/64 && i < 1100; i++ {
			idx = append(idx, i)
		}
	}
	for s := uint(0); s < 30; s++ {
		idx = append(idx, 1<<s-1, 1<<s, 1<<s+3)
	}
	for _, l := range looks {
		for _, i := range idx {
			var ex []uint32
			for k := uint32(0); k < l.n; k++ {
				ex = append(ex, want.Item(i*l.n+k)...)
			}
			if err := hx.EqWords(fmt.Sprintf("item %d of %d nodes", i, l.n), l.f(i), ex); err != nil {
				return true, err
			}
			w.Add(1, 1)
		}
	}
	runtime.KeepAlive(cache)
	runtime.KeepAlive(e)
	if err := hx.EqWords("light cache afterwards", get(c.Epoch).Cache(), want.Cache); err != nil {
		return true, err
	}
	settle(dir)
	return true, nil
}

func main() {
	hx.Main("C08", "exploration", func(r *hx.Run) {
		r.Assume("the reference construction in harness/ref, checked against published light caches, is right")
		tiny := func(name string, l1 int) ref.Chain { return pk.Tiny(name, l1) }
		hx.Explore(r, hx.Suite[dataCase]{
			Name: "ways",
			Rule: fmt.Sprintf("two tiny chains (with and without second-level cache), epochs 0..%d, obtained in each of %d ways: both caches, and every dataset item of the epoch as well as items near every power of two, in all three lookup widths", hx.Pick(r, 5, 12), len(ways)),
			Gen: func(yield func(dataCase) bool) {
				for _, c := range []ref.Chain{tiny("A", 0), tiny("B", 32)} {
					for ep := uint64(0); ep <= uint64(hx.Pick(r, 5, 12)); ep++ {
						for _, way := range ways {
							if c.L1Words == 0 && (way == "only-cache" || way == "only-l1") {
								continue
							}
							if !yield(dataCase{c, ep, way}) {
								return
							}
						}
					}
				}
			},
			Eval: evalData,
		})
		hx.Explore(r, hx.Suite[dataCase]{
			Name: "shapes",
			Rule: "chains with 3..128 cache rows, 0..5 rounds, 1..600 parents, second-level caches of 16..16400 words, and seed epochs shorter than epochs; epochs 0, 1 and 40; from memory and from disk",
			Gen: func(yield func(dataCase) bool) {
				var l []ref.Chain
				for rows := uint64(4); rows <= 128; rows += 2 {
					c := tiny("S", 16)
					c.CacheInit = 64 * rows
					l = append(l, c)
				}
				for n := 0; n <= 5; n++ {
					c := tiny("S", 16)
					c.Rounds = n
					l = append(l, c)
				}
				for _, p := range []uint32{1, 2, 3, 8, 15, 16, 17, 64, 255, 256, 257, 511, 512, 600} {
					c := tiny("S", 16)
					c.Parents = p
					l = append(l, c)
				}
				for _, n := range []int{16, 32, 48, 128, 1024, 4096, 4112, 8192, 16400} {
					l = append(l, tiny("S", n))
				}
				for _, n := range []uint64{2, 5} {
					c := tiny("S", 16)
					c.SeedLen = n
					l = append(l, c)
				}
				for _, c := range l {
					for _, ep := range []uint64{0, 1, 40} {
						for _, way := range []string{"memory", "disk", "reload"} {
							if !yield(dataCase{c, ep, way}) {
								return
							}
						}
					}
				}
			},
			Eval: evalData,
		})
		hx.Explore(r, hx.Suite[dataCase]{
			Name: "shipped", Limit: 10 * time.Minute, Workers: 3,
			Rule: "the shipped clients, epochs 0" + hx.Pick(r, "", ", 1, 2 and 100") + ": the whole light cache, the second-level cache and 3000 items, on disk and loaded again",
			Gen: func(yield func(dataCase) bool) {
				for _, a := range []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo} {
					for _, s := range a.Ships {
						for _, ep := range hx.Pick(r, []uint64{0}, []uint64{0, 1, 2, 100}) {
							if s.Chain.Name == "ETC" && ep == 0 && !r.Thorough() {
								continue
							}
							if !yield(dataCase{s.Chain, ep, "shipped"}) {
								return
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c dataCase) (bool, error) {
				for _, a := range []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo} {
					for _, s := range a.Ships {
						if s.Chain.Name != c.Chain.Name {
							continue
						}
						dir, err := os.MkdirTemp(w.R.Scratch, "data")
						if err != nil {
							return false, err
						}
						defer os.RemoveAll(dir)
						want := pk.Ref(s.Chain, c.Epoch)
						for run := 0; run < 2; run++ {
							d := hx.DagOf(s.New())
							d.StorageDir = dir
							e := d.GetCache(c.Epoch)
							if err := hx.EqWords("light cache", e.Cache(), want.Cache); err != nil {
								return true, fmt.Errorf("run %d: %w", run, err)
							}
							if s.Chain.L1Words > 0 {
								if err := hx.EqWords("second-level cache", e.L1(), want.L1); err != nil {
									return true, fmt.Errorf("run %d: %w", run, err)
								}
							}
							f := d.NewLookupFunc512(e, c.Epoch)
							for i := uint32(0); i < 3000; i++ {
								k := i * 7919 % uint32(want.Size/64)
								if err := hx.EqWords(fmt.Sprintf("item %d", k), f(k), want.Item(k)); err != nil {
									return true, err
								}
								w.Add(1, 1)
							}
							runtime.KeepAlive(e)
							settle(dir)
						}
					}
				}
				return true, nil
			},
		})
	})
}
