//go:build go1.23

// C11: KawPow and FiroPow results equal the ProgPow specification.
package main

import (
	"fmt"

	"github.com/sencha-dev/powkit/internal/progpow"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

type gridCase struct {
	Period                                                 uint64
	Lanes, Loads, Regs, Rounds, CntCache, CntMath, L1Words int
	Data                                                   string
	DatasetSize, Height, Seed                              uint64
}

func (c gridCase) item(i uint32) []uint32 {
	out := make([]uint32, c.Lanes*c.Loads)
	switch c.Data {
	case "rng":
		r := hx.Rng(i)
		for k := range out {
			out[k] = uint32(r.Next())
		}
	case "index":
		for k := range out {
			out[k] = i + uint32(k)<<24
		}
	case "ones":
		for k := range out {
			out[k] = ^uint32(0)
		}
	}
	return out
}

func (c gridCase) l1() []uint32 {
	out := make([]uint32, c.L1Words)
	r := hx.Rng(99)
	for k := range out {
		switch c.Data {
		case "rng":
			out[k] = uint32(r.Next())
		case "index":
			out[k] = uint32(k)
		case "ones":
			out[k] = ^uint32(0)
		}
	}
	return out
}

func evalGrid(w *hx.W, c gridCase) (bool, error) {
	l1 := c.l1()
	want := (&ref.ProgPow{Period: c.Period, Loads: c.Loads, CacheBytes: uint32(4 * c.L1Words), Lanes: c.Lanes, Regs: c.Regs,
		Rounds: c.Rounds, CntCache: c.CntCache, CntMath: c.CntMath}).Mix(c.Height, c.Seed, c.DatasetSize, c.item, l1)
	cfg := &progpow.Config{PeriodLength: c.Period, DagLoads: c.Loads, CacheBytes: uint32(4 * c.L1Words), LaneCount: c.Lanes,
		RegisterCount: c.Regs, RoundCount: c.Rounds, RoundCacheAccesses: c.CntCache, RoundMathOperations: c.CntMath}
	var bad error
	n := uint32(c.DatasetSize / 256)
	got := progpow.Hash(cfg, c.Height, c.Seed, c.DatasetSize, func(i uint32) []uint32 {
		if i >= n {
			bad = fmt.Errorf("item %d of %d looked up", i, n)
		}
		return c.item(i)
	}, l1)
	if bad != nil {
		return true, bad
	}
	if err := hx.EqWords("second-level cache after the call", l1, c.l1()); err != nil {
		return true, err
	}
	return true, hx.EqBytes("mix", got, want)
}

// grid varies every pair of parameters of a base over all their values.
func grid(thorough bool, yield func(gridCase) bool) {
	type dim struct {
		n   int
		set func(c *gridCase, i int)
	}
	ints := func(vals []int, f func(c *gridCase) *int) dim {
		return dim{len(vals), func(c *gridCase, i int) { *f(c) = vals[i] }}
	}
	u64 := func(vals []uint64, f func(c *gridCase) *uint64) dim {
		return dim{len(vals), func(c *gridCase, i int) { *f(c) = vals[i] }}
	}
	data := []string{"rng", "index", "zero", "ones"}
	dims := []dim{
		u64([]uint64{1, 2, 3, 5, 10, 50, 1 << 32, 1 << 63}, func(c *gridCase) *uint64 { return &c.Period }),
		ints([]int{1, 2, 3, 4, 7, 8, 9, 16, 32, 64}, func(c *gridCase) *int { return &c.Lanes }),
		ints([]int{1, 2, 3, 4, 8, 16, 64}, func(c *gridCase) *int { return &c.Loads }),
		ints([]int{2, 3, 4, 8, 16, 31, 32, 33, 64}, func(c *gridCase) *int { return &c.Regs }),
		ints([]int{0, 1, 2, 15, 16, 17, 64, 65, 128}, func(c *gridCase) *int { return &c.Rounds }),
		ints([]int{0, 1, 2, 11, 12, 18, 19, 40}, func(c *gridCase) *int { return &c.CntCache }),
		ints([]int{0, 1, 2, 10, 11, 18, 20, 40, 70}, func(c *gridCase) *int { return &c.CntMath }),
		ints([]int{1, 2, 3, 1000, 4095, 4096, 8192}, func(c *gridCase) *int { return &c.L1Words }),
		{len(data), func(c *gridCase, i int) { c.Data = data[i] }},
		u64([]uint64{256, 257, 511, 512, 1 << 16, 1<<30 - 128, 1 << 38, 1<<40 - 1}, func(c *gridCase) *uint64 { return &c.DatasetSize }),
		u64([]uint64{0, 1, 2, 3, 9, 10, 11, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 7, 1 << 63, ^uint64(0)}, func(c *gridCase) *uint64 { return &c.Height }),
		u64([]uint64{0, 1, 1<<32 - 1, 1 << 32, 0xffffffff00000000, ^uint64(0), 0x123456789abcdef0}, func(c *gridCase) *uint64 { return &c.Seed }),
	}
	bases := []gridCase{
		{3, 16, 4, 32, 64, 11, 18, 4096, "rng", 1<<30 - 128, 12345, 0xfeedface12345678},
		{10, 8, 8, 32, 32, 12, 20, 4096, "rng", 1 << 20, 999, 0x0123456789abcdef},
	}
	for _, b := range bases {
		for i := range dims {
			for j := 0; j < i; j++ {
				for x := 0; x < dims[i].n; x++ {
					for y := 0; y < dims[j].n; y++ {
						c := b
						dims[i].set(&c, x)
						dims[j].set(&c, y)
						if !thorough {
							if !yield(c) {
								return
							}
							continue
						}
						for k := range dims {
							for z := 0; z < dims[k].n; z++ {
								d := c
								if k != i && k != j {
									dims[k].set(&d, z)
								} else if z > 0 {
									continue
								}
								if !yield(d) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// opCase aims chosen operands at chosen operations of the core.
type opCase struct {
	Kind  string // math, merge
	Class uint32
	From  int // first pair of operands
}

func operands() (out []uint32) {
	seen := map[uint32]bool{}
	add := func(v uint32) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for i := uint32(0); i < 34; i++ {
		add(i)
	}
	for i := uint(0); i < 32; i++ {
		add(1 << i)
		add(1<<i - 1)
		add(^uint32(0) << i)
	}
	add(0x12345678)
	add(0x9abcdef1)
	return
}

const opLanes = 16

func evalOp(w *hx.W, c opCase) (bool, error) {
	vals := operands()
	core := ref.ProgPow{Period: 1, Loads: 5, CacheBytes: 4 * 64, Lanes: opLanes, Regs: 4, Rounds: 2, CntCache: 0, CntMath: 1}
	if c.Kind == "merge" {
		core.CntCache, core.CntMath = 1, 0
	}
	height := uint64(0)
	for ; ; height++ { // a program with the wanted operation
		p := core.ProgramOf(height)
		if c.Kind == "math" && p.MathSel%11 == c.Class {
			break
		}
		if c.Kind == "merge" && p.CacheSrc != p.CacheDst && p.CacheSel%4 == c.Class%4 && p.CacheSel>>16%31 == c.Class/4 {
			break
		}
	}
	p := core.ProgramOf(height)
	n := len(vals) * len(vals)
	for from := c.From; from < n && from < c.From+opLanes*32; from += opLanes {
		l1 := make([]uint32, 64)
		for l := 0; l < opLanes; l++ {
			l1[l] = vals[(from+l)/len(vals)%len(vals)]
		}
		want := func(l, reg int) uint32 {
			a, b := vals[(from+l)%len(vals)], vals[(from+l)/len(vals)%len(vals)]
			switch {
			case c.Kind == "math" && reg == p.Src1:
				return a
			case c.Kind == "math" && reg == p.Src2:
				return b
			case c.Kind == "merge" && reg == p.CacheSrc:
				return uint32(l) // where the operand lies
			case c.Kind == "merge" && reg == p.CacheDst:
				return a
			}
			return uint32(reg+1) * 0x01010101
		}
		const size = 1 << 30
		index, item := core.Aim(height, 77, size, l1, want)
		lookup := func(i uint32) []uint32 {
			if i == index {
				return append([]uint32(nil), item...)
			}
			return make([]uint32, len(item))
		}
		exp := core.Mix(height, 77, size, lookup, l1)
		got := progpow.Hash(&progpow.Config{PeriodLength: 1, DagLoads: 5, CacheBytes: core.CacheBytes, LaneCount: opLanes,
			RegisterCount: 4, RoundCount: 2, RoundCacheAccesses: core.CntCache, RoundMathOperations: core.CntMath}, height, 77, size, lookup, l1)
		if err := hx.EqBytes("mix", got, exp); err != nil {
			return true, fmt.Errorf("%s %d on operand pairs %d to %d: %w", c.Kind, c.Class, from, from+opLanes-1, err)
		}
		w.Add(opLanes, opLanes)
	}
	return true, nil
}

func main() {
	hx.Main("C11", "exploration", func(r *hx.Run) {
		hx.Explore(r, hx.Suite[gridCase]{
			Name: "core",
			Rule: "the ProgPow core over injected datasets: every " + hx.Pick(r, "pair", "triple") + " of values of period, lanes, loads, registers, rounds, cache accesses, math operations, second-level cache size, data pattern, dataset size, height and seed around two base parameterisations",
			Gen:  func(yield func(gridCase) bool) { grid(r.Thorough(), yield) },
			Eval: evalGrid,
		})
		hx.Explore(r, hx.Suite[gridCase]{
			Name: "seeds",
			Rule: "both base parameterisations with every seed and every height 0..n (so many random programs)",
			Gen: func(yield func(gridCase) bool) {
				for i := uint64(0); i < uint64(hx.Pick(r, 4000, 60000)); i++ {
					c := gridCase{1, 16, 4, 32, 64, 11, 18, 4096, "rng", 1 << 30, i, i * 0x9e3779b97f4a7c15}
					if i%2 == 1 {
						c.Period, c.Lanes, c.Loads = 3, 8, 8
					}
					if !yield(c) {
						return
					}
				}
			},
			Eval: evalGrid,
		})
		hx.Explore(r, hx.Suite[opCase]{
			Name: "operations",
			Rule: fmt.Sprintf("every pair of %d boundary operands aimed (by choosing the first dataset item) at each of the 11 math operations and 124 merges", len(operands())),
			Gen: func(yield func(opCase) bool) {
				n := len(operands()) * len(operands())
				for from := 0; from < n; from += opLanes * 32 {
					for k := uint32(0); k < 124; k++ {
						if k < 11 && !yield(opCase{"math", k, from}) || !yield(opCase{"merge", k, from}) {
							return
						}
					}
				}
			},
			Eval: evalOp,
		})
		for _, a := range []*pk.Algo{pk.KawpowAlgo, pk.FiropowAlgo} {
			a.Explore(r)
		}
	})
}
