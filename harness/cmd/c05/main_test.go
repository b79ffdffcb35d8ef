//go:build go1.25

// C05: failing storage never changes a result.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/mc"
	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

type faultCase struct {
	Pre     []uint64 // stored before
	Stale   []uint64 // stored before, but incomplete
	How     string   // spoilt in this way
	Hist    []uint64
	Then    []uint64
	Count   int
	L1      bool
	Lock    bool
	Sub     bool // the storage directory does not exist yet
	Preempt int
	Faults  int
	Mode    string
	Kinds   []string // that fail throughout
	Dir     string   // what stands in the directory's place
}

const maxEpoch = 6

func serve(cl *mcx.Client, eps []uint64) error {
	for _, ep := range eps {
		d := cl.Get(ep)
		if err := cl.Check(d); err != nil {
			return err
		}
		if err := cl.CheckItems(d, 3); err != nil {
			return err
		}
	}
	return nil
}

func run(e *mc.Env, x *vrt.Exec, c faultCase) error {
	ch := mcx.Chain("T", c.L1)
	mcx.Warm(ch, maxEpoch)
	dir := filepath.Join(e.Dir, "d")
	if c.Sub {
		dir = filepath.Join(dir, "a", "b")
	} else if c.Dir == "" {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
	}
	switch c.Dir {
	case "file":
		os.WriteFile(dir, []byte("x"), 0o644)
	case "below-file":
		os.WriteFile(dir, []byte("x"), 0o644)
		dir = filepath.Join(dir, "sub")
	case "dangling":
		os.Symlink(filepath.Join(e.Dir, "nowhere", "deep"), dir)
	case "long":
		ch.Name = strings.Repeat("n", 300)
		mcx.Warm(ch, maxEpoch)
	case "slash":
		ch.Name = "x/y"
		mcx.Warm(ch, maxEpoch)
	}
	before := map[string]string{}
	for _, ep := range c.Pre {
		if err := mcx.Store(dir, ch, ep); err != nil {
			return err
		}
	}
	for _, ep := range c.Stale {
		if c.How != "" {
			if err := mcx.Spoil(dir, ch, ep, c.How); err != nil {
				return err
			}
			continue
		}
		a, b := mcx.Names(ch, ep)
		x, y := mcx.Images(ch, ep)
		if err := os.WriteFile(filepath.Join(dir, a), x[:len(x)-8], 0o644); err != nil {
			return err
		}
		if c.L1 {
			y[2] ^= 1
			if err := os.WriteFile(filepath.Join(dir, b), y, 0o644); err != nil {
				return err
			}
		}
	}
	for n, b := range mcx.List(dir) {
		before[n] = string(b)
	}
	if len(c.Kinds) > 0 {
		x.FailOp = func(op *vrt.Op) error {
			for _, k := range c.Kinds {
				if op.Kind == k {
					return vrt.ErrInjected
				}
			}
			return nil
		}
	}
	var err error
	var cl *mcx.Client
	x.Spawn(0, "run", func() {
		cl = mcx.New(0, ch, dir, c.Count, c.Lock)
		err = serve(cl, c.Hist)
	})
	if e := x.Wait(); e != nil {
		return e
	}
	if err != nil {
		return err
	}
	if c.Dir != "slash" {
		if err := settled(e, x, c, ch, dir, before, 0); err != nil {
			return err
		}
	}
	x.NoFaults(0)
	x.Fixed = true
	// the same client, the storage works again
	x.Spawn(0, "again", func() { err = serve(cl, c.Then) })
	if e := x.Wait(); e != nil {
		return fmt.Errorf("once the storage works again: %w", e)
	}
	if err != nil {
		return fmt.Errorf("once the storage works again: %w", err)
	}
	x.Finalize(0)
	if err := left(x, 0); err != nil {
		return err
	}
	// and a later run
	x.Spawn(1, "later", func() { err = serve(mcx.New(1, ch, dir, c.Count, c.Lock), c.Then) })
	if e := x.Wait(); e != nil {
		return fmt.Errorf("a later run: %w", e)
	}
	if err != nil {
		return fmt.Errorf("a later run: %w", err)
	}
	x.Finalize(1)
	if c.Dir == "" {
		if err := settled(e, x, c, ch, dir, before, 1); err != nil {
			return fmt.Errorf("a later run: %w", err)
		}
	}
	e.Count("injected_faults", int64(len(x.Faulty)))
	return left(x, 1)
}

// settled judges the directory.
func settled(e *mc.Env, x *vrt.Exec, c faultCase, ch ref.Chain, dir string, before map[string]string, proc int) error {
	for n, b := range mcx.List(dir) {
		if old, ok := before[n]; ok && old == string(b) {
			continue
		}
		if ep, l1, ok := mcx.EpochFile(ch, n, maxEpoch+2); ok {
			x, y := mcx.Images(ch, ep)
			if l1 {
				x = y
			}
			if string(b) != string(x) {
				return fmt.Errorf("an incomplete or wrong file is left under the name of epoch %d: %s, %d bytes of %d", ep, n, len(b), len(x))
			}
			continue
		}
		removal := false
		for _, op := range x.Faulty {
			if op.Kind == "remove" && filepath.Base(op.Path) == n {
				removal = true
			}
		}
		if !removal {
			return fmt.Errorf("file %s is left although no removal of it failed", n)
		}
		e.Count("leftovers_whose_removal_failed", 1)
	}
	return nil
}

// left judges open files and mappings.
func left(x *vrt.Exec, proc int) error {
	unmaps := 0
	for _, op := range x.Faulty {
		if op.Kind == "unmap" && op.Proc == proc {
			unmaps++
		}
	}
	files, maps := vrt.Live(proc)
	if len(files) > 0 {
		return fmt.Errorf("files are left open: %v", files)
	}
	if len(maps) > unmaps {
		return fmt.Errorf("mappings are left: %v (%d failed to be unmapped)", maps, unmaps)
	}
	return nil
}

// scenarios are the histories to disturb.
func scenarios(yield func(faultCase) bool) {
	for _, c := range []faultCase{
		{Hist: []uint64{0}, Then: []uint64{0, 1}, Count: 1},
		{Hist: []uint64{0, 1}, Then: []uint64{1, 2, 0}, Count: 1},
		{Pre: []uint64{0, 1}, Hist: []uint64{1}, Then: []uint64{1, 2}, Count: 2},
		{Pre: []uint64{0, 1}, Hist: []uint64{2}, Then: []uint64{2, 3, 0}, Count: 1},
		{Stale: []uint64{1, 2}, Hist: []uint64{1}, Then: []uint64{1, 2, 3}, Count: 1},
		{Stale: []uint64{1, 2}, How: "half", Hist: []uint64{1}, Then: []uint64{1, 2, 3}, Count: 1},
		{Pre: []uint64{0}, Stale: []uint64{1}, Hist: []uint64{0, 1}, Then: []uint64{1, 0}, Count: 2},
		{Hist: []uint64{3, 0}, Then: []uint64{0, 3}, Count: 1, Sub: true},
	} {
		for _, l1 := range []bool{false, true} {
			for _, lock := range []bool{false, true} {
				c.L1, c.Lock = l1, lock
				if !yield(c) {
					return
				}
			}
		}
	}
}

var kinds = []string{"stat", "open", "create", "truncate", "map", "unmap", "sync", "close", "rename", "remove", "mkdir", "mlock"}

func TestMain_(t *testing.T) {
	mc.Main(t, "C05", func(r *hx.Run) []any {
		cfg := func(c faultCase) vrt.Cfg { return vrt.Cfg{Preempt: c.Preempt, Faults: c.Faults, FaultMode: c.Mode} }
		with := func(f func(faultCase, func(faultCase) bool) bool) func(func(faultCase) bool) {
			return func(yield func(faultCase) bool) {
				scenarios(func(c faultCase) bool { return f(c, yield) })
			}
		}
		const desc = "32 scenarios (8 histories with nothing, complete, and incomplete files stored before, or no directory yet; with and without a second-level cache, locked in memory or not)"
		return []any{
			mc.M(mc.Model[faultCase]{
				Name: "single", Run: run, Cfg: cfg,
				Rule: desc + ": every single storage operation of each interleaving of the requests with background generation (at most one preemption; thorough: two) fails",
				Gen: with(func(c faultCase, yield func(faultCase) bool) bool {
					c.Faults, c.Preempt = 1, hx.Pick(r, 1, 2)
					if c.Preempt == 2 && len(c.Hist) > 1 {
						c.Preempt = 1
					}
					if len(c.Hist) > 1 && !r.Thorough() {
						c.Preempt = 0
					}
					return yield(c)
				}),
			}),
			mc.M(mc.Model[faultCase]{
				Name: "errnos", Run: run, Cfg: cfg,
				Rule: desc + ": every single storage operation fails with each of the errors the system has for it (thorough: every pair of them)",
				Gen: with(func(c faultCase, yield func(faultCase) bool) bool {
					c.Faults, c.Mode = hx.Pick(r, 1, 2), "errnos"
					return yield(c)
				}),
			}),
			mc.M(mc.Model[faultCase]{
				Name: "pairs", Run: run, Cfg: cfg,
				Rule: desc + ": every pair of storage operations fails (thorough: every triple without second-level cache)",
				Gen: with(func(c faultCase, yield func(faultCase) bool) bool {
					c.Faults = 2
					if r.Thorough() && !c.L1 {
						c.Faults = 3
					}
					return yield(c)
				}),
			}),
			mc.M(mc.Model[faultCase]{
				Name: "suffixes", Run: run, Cfg: cfg,
				Rule: desc + ": from every storage operation on, all of them fail, in every interleaving with at most one preemption",
				Gen: with(func(c faultCase, yield func(faultCase) bool) bool {
					c.Faults, c.Mode, c.Preempt = 1, "suffix", 1
					if len(c.Hist) > 1 && !r.Thorough() {
						c.Preempt = 0
					}
					return yield(c)
				}),
			}),
			mc.M(mc.Model[faultCase]{
				Name: "kinds", Run: run, Cfg: cfg,
				Rule: desc + ": every set of at most three kinds of operation (thorough: every set) fails throughout; kinds: " + strings.Join(kinds, " "),
				Gen: with(func(c faultCase, yield func(faultCase) bool) bool {
					for set := 1; set < 1<<uint(len(kinds)); set++ {
						var k []string
						for i, s := range kinds {
							if set>>uint(i)&1 == 1 {
								k = append(k, s)
							}
						}
						if len(k) > 3 && !r.Thorough() {
							continue
						}
						c.Kinds = k
						if !yield(c) {
							return false
						}
					}
					return true
				}),
			}),
			mc.M(mc.Model[faultCase]{
				Name: "directories", Run: run, Cfg: cfg,
				Rule: "the storage directory is a file, lies below a file, is a dangling link, or the chain's name is too long for a file name or holds a slash; with every single fault on top",
				Gen: func(yield func(faultCase) bool) {
					for _, d := range []string{"file", "below-file", "dangling", "long", "slash"} {
						for _, l1 := range []bool{false, true} {
							if !yield(faultCase{Dir: d, Hist: []uint64{0, 1}, Then: []uint64{1, 0, 2}, Count: 1, L1: l1, Faults: 1}) {
								return
							}
						}
					}
				},
			}),
		}
	})
}
