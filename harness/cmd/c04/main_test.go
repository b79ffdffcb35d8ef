//go:build go1.25

// C04: a crash at any point never corrupts later results.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/mc"
	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

type crashCase struct {
	Pre     []uint64 // epochs stored before
	Bad     []uint64 // epochs with spoilt files
	How     string   // spoilt in this way
	Hist    []uint64 // requests of each run
	Then    []uint64 // requests of the last run
	Count   int
	L1      bool
	Preempt int
	Crashes int
	Stmt    bool
	Mid     []uint64 // requests of the run between, if any
}

func chain(l1 bool) ref.Chain {
	c := mcx.Chain("T", l1)
	c.CacheInit = 1 << 10
	return c
}

const maxEpoch = 6

// serve requests epochs and checks them.
func serve(cl *mcx.Client, eps []uint64) error {
	for _, ep := range eps {
		d := cl.Get(ep)
		if err := cl.Check(d); err != nil {
			return err
		}
		if err := cl.CheckItems(d, 0, 9); err != nil {
			return err
		}
	}
	return nil
}

func run(e *mc.Env, x *vrt.Exec, c crashCase) error {
	ch := chain(c.L1)
	mcx.Warm(ch, maxEpoch)
	for _, ep := range c.Pre {
		if err := mcx.Store(e.Dir, ch, ep); err != nil {
			return err
		}
	}
	for _, ep := range c.Bad {
		if err := mcx.Spoil(e.Dir, ch, ep, c.How); err != nil {
			return err
		}
	}
	runs := [][]uint64{c.Hist}
	if c.Mid != nil {
		runs = append(runs, c.Mid)
	}
	runs = append(runs, c.Then)
	crashed := 0
	for i, h := range runs {
		lastRun := i == len(runs)-1
		if lastRun {
			x.Fixed = true
		}
		var err error
		done := false
		x.Spawn(i, fmt.Sprint("run", i), func() {
			err = serve(mcx.New(i, ch, e.Dir, c.Count, false), h)
			done = true
		})
		if e := x.Wait(); e != nil {
			return fmt.Errorf("run %d: %w", i, e)
		}
		if err != nil {
			return fmt.Errorf("run %d: %w", i, err)
		}
		if !done && !x.Crashed(i) {
			return fmt.Errorf("run %d did not come to its end", i)
		}
		if x.Crashed(i) {
			crashed++
		}
	}
	e.Count("crashes", int64(crashed))
	return nil
}

type powerCase struct {
	Pre     []uint64
	Hist    []uint64
	Then    []uint64
	Count   int
	L1      bool
	Preempt int
	Twice   bool // the run after the power loss suffers another
	Bad     []uint64
	How     string
}

func power(e *mc.Env, x *vrt.Exec, c powerCase) error {
	ch := chain(c.L1)
	mcx.Warm(ch, maxEpoch)
	dir := filepath.Join(e.Dir, "d")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for _, ep := range c.Pre {
		if err := mcx.Store(dir, ch, ep); err != nil {
			return err
		}
	}
	for _, ep := range c.Bad {
		if err := mcx.Spoil(dir, ch, ep, c.How); err != nil {
			return err
		}
	}
	var states []map[string]string
	d := newDisk(dir)
	record := func(d *disk) {
		d.states = func(f map[string][]byte) { states = append(states, relState(d.root, f)) }
		x.OnOp = func(op *vrt.Op) { vrt.Quiet(d.point) }
		x.OnEffect = func(op *vrt.Op) { d.effect(op) }
	}
	record(d)
	var err error
	x.Spawn(0, "run", func() { err = serve(mcx.New(0, ch, dir, c.Count, false), c.Hist) })
	if e := x.Wait(); e != nil {
		return e
	}
	if err != nil {
		return err
	}
	d.point()
	e.Count("power_loss_points", int64(d.points))
	x.Fixed = true
	trail := make([]string, len(states))
	first := len(states)
	for i := 0; i < len(states); i++ {
		st := states[i]
		// has an earlier execution of this worker tried it?
		key := hx.Hash(c.Then, c.Count, c.L1, i < first && c.Twice, st)
		if _, ok := e.Seen[key]; ok {
			e.Count("power_loss_states_seen_before", 1)
			continue
		}
		e.Seen[key] = struct{}{}
		e.Count("power_loss_states", 1)
		to := filepath.Join(e.Dir, fmt.Sprint("s", i))
		if err := os.MkdirAll(to, 0o755); err != nil {
			return err
		}
		for p, b := range st {
			q := filepath.Join(to, p)
			os.MkdirAll(filepath.Dir(q), 0o755)
			if err := os.WriteFile(q, []byte(b), 0o644); err != nil {
				return err
			}
		}
		x.OnOp, x.OnEffect = nil, nil
		proc := 2
		var d2 *disk
		if i < first && c.Twice {
			proc = 1
			d2 = newDisk(to)
			record(d2)
		}
		what := fmt.Sprintf("after a power loss that left %s", trail[i]+show(st))
		var err error
		x.Spawn(proc, "later", func() { err = serve(mcx.New(proc, ch, to, c.Count, false), c.Then) })
		if e := x.Wait(); e != nil {
			return fmt.Errorf("%s: %w", what, e)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if d2 != nil {
			d2.point()
			for len(trail) < len(states) {
				trail = append(trail, show(st)+"and after the next one ")
			}
			e.Count("second_power_loss_points", int64(d2.points))
		}
		x.Finalize(proc)
		vrt.Cleanup()
		os.RemoveAll(to)
	}
	if d.capped {
		e.Count("points_with_files_varied_one_at_a_time", 1)
	}
	return nil
}

func show(st map[string]string) string {
	s := ""
	for rel, b := range st {
		nz := 0
		for o := 0; o < len(b); o += sector {
			for i := o; i < o+sector && i < len(b); i++ {
				if b[i] != 0 {
					nz++
					break
				}
			}
		}
		s += fmt.Sprintf("%s (%d bytes, %d sectors not empty) ", rel, len(b), nz)
	}
	return s
}

func relState(dir string, st map[string][]byte) map[string]string {
	m := map[string]string{}
	for p, b := range st {
		rel, _ := filepath.Rel(dir, p)
		m[rel] = string(b)
	}
	return m
}

func genKill(r *hx.Run, mode string) func(func(crashCase) bool) {
	return func(yield func(crashCase) bool) {
		all := []crashCase{
			{Hist: []uint64{0}, Then: []uint64{0, 1}},
			{Hist: []uint64{0, 1}, Then: []uint64{1, 0}},
			{Pre: []uint64{0}, Hist: []uint64{1}, Then: []uint64{0, 1}},
			{Pre: []uint64{0, 1}, Hist: []uint64{2}, Then: []uint64{2, 1, 0}},
			{Pre: []uint64{0, 1, 2, 3}, Hist: []uint64{4}, Then: []uint64{3, 4, 0, 5}},
			{Pre: []uint64{1}, Hist: []uint64{1, 2}, Then: []uint64{2, 3, 1}},
			{Hist: []uint64{3, 1}, Then: []uint64{1, 3, 4}},
		}
		for _, how := range mcx.Damages {
			all = append(all, crashCase{Bad: []uint64{1, 2}, How: how, Hist: []uint64{1}, Then: []uint64{1, 2}})
		}
		for _, s := range all {
			for _, count := range []int{1, 2} {
				for _, l1 := range []bool{true, false} {
					c := s
					c.Count, c.L1, c.Crashes = count, l1, 1
					if s.How != "" && count == 2 && !r.Thorough() {
						continue
					}
					switch mode {
					case "statements":
						c.Stmt = true
					case "threads":
						c.Preempt = hx.Pick(r, 1, 2)
					case "twice":
						c.Crashes = 2
						c.Mid = s.Hist
						c.Stmt = r.Thorough() && len(s.Hist) == 1 && !l1
					}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func genPower(r *hx.Run) func(func(powerCase) bool) {
	return func(yield func(powerCase) bool) {
		for _, l1 := range []bool{false, true} {
			for _, count := range []int{1, 2} {
				for _, s := range []powerCase{
					{Hist: []uint64{0}, Then: []uint64{0, 1}},
					{Hist: []uint64{0, 1}, Then: []uint64{1, 2, 0}},
					{Hist: []uint64{3, 1}, Then: []uint64{1, 3, 4}},
					{Pre: []uint64{0, 1}, Hist: []uint64{2}, Then: []uint64{2, 3, 1, 0}},
					{Pre: []uint64{0, 1, 2}, Hist: []uint64{3, 0}, Then: []uint64{0, 3}},
					{Hist: []uint64{1}, Then: []uint64{1, 2}, Bad: []uint64{1}, How: "short"},
					{Hist: []uint64{1}, Then: []uint64{1, 2}, Bad: []uint64{1}, How: "half"},
					{Pre: []uint64{2}, Hist: []uint64{2}, Then: []uint64{2, 3}},
				} {
					s.L1, s.Count = l1, count
					s.Preempt = hx.Pick(r, 1, 2)
					if !yield(s) {
						return
					}
					s.Preempt = 0
					s.Twice = true
					if (count == 1 || r.Thorough()) && !yield(s) {
						return
					}
				}
			}
		}
	}
}

func TestMain_(t *testing.T) {
	mc.Main(t, "C04", func(r *hx.Run) []any {
		cfg := func(c crashCase) vrt.Cfg {
			return vrt.Cfg{Preempt: c.Preempt, Crashes: c.Crashes, CrashStmt: c.Stmt, Hits: 2}
		}
		return []any{
			mc.M(mc.Model[crashCase]{
				Name: "kill", Run: run, Cfg: cfg, Gen: genKill(r, "statements"),
				Rule: "12 short histories (nothing, current, older or younger epochs, or files spoilt in five ways stored before), 1 and 2 epochs kept, with and without a second-level cache: the process is killed before every storage operation and every statement (the first two times it runs between two operations); a new process on the directory must return right results",
			}),
			mc.M(mc.Model[crashCase]{
				Name: "kill-threads", Run: run, Cfg: cfg, Gen: genKill(r, "threads"),
				Rule: "the same, killed before every storage operation of every interleaving of the request with background generation with at most one preemption (thorough: two)",
			}),
			mc.M(mc.Model[crashCase]{
				Name: "kill-twice", Run: run, Cfg: cfg, Gen: genKill(r, "twice"),
				Rule: "the same, the following run being killed as well: every pair of storage operations",
			}),
			mc.M(mc.Model[powerCase]{
				Name: "power-loss", Run: power, Limit: 300 * time.Second, Gen: genPower(r),
				Cfg:  func(c powerCase) vrt.Cfg { return vrt.Cfg{Preempt: c.Preempt} },
				Rule: "before every storage operation of short histories: every prefix of the changes of names not yet synced, combined with every subset of unsynced 512 byte sectors and every unsynced size of each file; a new process on each distinct state must return right results. Also with a second power loss in that process",
			}),
		}
	})
}
