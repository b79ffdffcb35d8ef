//go:build go1.25

// C01: concurrent hashing on one DAG client equals sequential hashing.
package main

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/mc"
	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// dagCase: threads that request epochs from one holder.
type dagCase struct {
	Reqs    [][]uint64 // per thread
	Pre     []uint64   // requested before, by one thread
	Count   int
	Disk    bool
	L1      bool
	Preempt int
	Stmt    bool
}

func runDag(e *mc.Env, x *vrt.Exec, c dagCase) error {
	ch := mcx.Chain("T", c.L1)
	mcx.Warm(ch, 4)
	dir := ""
	if c.Disk {
		dir = e.Dir
	}
	var cl *mcx.Client
	type kept struct {
		d        *mcx.Data
		thread   int
		original []uint32
		l1       []uint32
	}
	var all []kept
	var fail error
	keep := func(th int, d *mcx.Data) {
		err := cl.Check(d)
		if err == nil {
			err = cl.CheckItems(d, 0, uint32(7+th))
		}
		if err != nil && fail == nil {
			fail = fmt.Errorf("thread %d: %w", th, err)
		}
		all = append(all, kept{d, th, append([]uint32(nil), d.Cache...), append([]uint32(nil), d.L1...)})
	}
	pre := x.Preempt
	x.Preempt = 0
	x.Spawn(0, "before", func() {
		cl = mcx.New(0, ch, dir, c.Count, false)
		for _, ep := range c.Pre {
			keep(-1, cl.Get(ep))
		}
	})
	if err := x.Wait(); err != nil {
		return err
	}
	x.Preempt = pre
	for i, r := range c.Reqs {
		x.Spawn(0, fmt.Sprint("caller", i), func() {
			for _, ep := range r {
				keep(i, cl.Get(ep))
			}
		})
	}
	if err := x.Wait(); err != nil {
		return err
	}
	if fail != nil {
		return fail
	}
	for _, k := range all {
		if err := hx.EqWords(fmt.Sprintf("data of epoch %d changed after it was handed out to thread %d", k.d.Epoch, k.thread), k.d.Cache, k.original); err != nil {
			return err
		}
		if err := hx.EqWords(fmt.Sprintf("second-level data of epoch %d changed after it was handed out", k.d.Epoch), k.d.L1, k.l1); err != nil {
			return err
		}
	}
	if c.Disk {
		if _, err := mcx.Complete(dir, []ref.Chain{ch}, 8, nil); err != nil {
			return err
		}
	}
	return nil
}

type call struct {
	Height, Nonce uint64
}

// hashCase: threads that hash with one client.
type hashCase struct {
	Algo    string
	Calls   [][]call
	Pre     []uint64
	Count   int
	Disk    bool
	Preempt int
	Stmt    bool
}

var algos = []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo}

func chainOf(a *pk.Algo) ref.Chain {
	c := mcx.Chain("H", false)
	c.L1Words = a.L1
	c.Mix = a.Mix
	return c
}

func runHash(e *mc.Env, x *vrt.Exec, c hashCase) error {
	var a *pk.Algo
	for _, b := range algos {
		if b.Name == c.Algo {
			a = b
		}
	}
	ch := chainOf(a)
	dir := ""
	if c.Disk {
		dir = e.Dir
	}
	var cl any
	var fail error
	hash := bytes.Repeat([]byte{0x5a}, 32)
	for _, h := range c.Pre {
		expect(a, ch, hash, call{h, 1})
	}
	for _, l := range c.Calls {
		for _, k := range l {
			expect(a, ch, hash, k)
		}
	}
	one := func(th int, k call) {
		got, err := a.Call(cl, hash, k.Height, k.Nonce)
		want := expect(a, ch, hash, k)
		if err == nil {
			for i := range want {
				if !bytes.Equal(got[i], want[i]) {
					err = fmt.Errorf("output %d is %x, alone it is %x", i, got[i], want[i])
					break
				}
			}
		}
		if err != nil && fail == nil {
			fail = fmt.Errorf("thread %d: height %d nonce %d: %w", th, k.Height, k.Nonce, err)
		}
	}
	pre := x.Preempt
	x.Preempt = 0
	x.Spawn(0, "before", func() {
		cl = a.New(mcx.Config(ch, dir, c.Count, false))
		for _, h := range c.Pre {
			one(-1, call{h, 1})
		}
	})
	if err := x.Wait(); err != nil {
		return err
	}
	x.Preempt = pre
	for i, r := range c.Calls {
		x.Spawn(0, fmt.Sprint("caller", i), func() {
			for _, k := range r {
				one(i, k)
			}
		})
	}
	if err := x.Wait(); err != nil {
		return err
	}
	return fail
}

type wantKey struct {
	algo string
	c    call
}

var wants = map[wantKey][][]byte{}

func expect(a *pk.Algo, ch ref.Chain, hash []byte, k call) [][]byte {
	w, ok := wants[wantKey{a.Name, k}]
	if !ok {
		w = a.Ref(ch, hash, k.Height, k.Nonce)
		wants[wantKey{a.Name, k}] = w
	}
	return w
}

func genDag(r *hx.Run) func(func(dagCase) bool) {
	return func(yield func(dagCase) bool) {
		lists := [][]uint64{{0}, {1}, {2}}
		long := append([][]uint64{}, lists...)
		for a := uint64(0); a < 3; a++ {
			for b := uint64(0); b < 3; b++ {
				if a != b {
					long = append(long, []uint64{a, b})
				}
			}
		}
		for _, count := range []int{1, 2} {
			for _, pre := range [][]uint64{nil, {0}} {
				for i, a := range long {
					for _, b := range long[:i+1] {
						if !yield(dagCase{Reqs: [][]uint64{a, b}, Pre: pre, Count: count, Preempt: hx.Pick(r, 2, 3)}) {
							return
						}
					}
				}
				for i, a := range lists {
					for j, b := range lists[:i+1] {
						for _, c := range lists[:j+1] {
							if !yield(dagCase{Reqs: [][]uint64{a, b, c}, Pre: pre, Count: count, Preempt: hx.Pick(r, 2, 3)}) {
								return
							}
						}
					}
				}
			}
		}
		// on disk
		for _, count := range []int{1, 2} {
			for _, pre := range [][]uint64{nil, {0}} {
				for i, a := range lists {
					for _, b := range lists[:i+1] {
						if !yield(dagCase{Reqs: [][]uint64{a, b}, Pre: pre, Count: count, Disk: true, L1: count == 2, Preempt: hx.Pick(r, 1, 2)}) {
							return
						}
					}
				}
			}
		}
	}
}

func genStmt(r *hx.Run) func(func(dagCase) bool) {
	return func(yield func(dagCase) bool) {
		for _, disk := range []bool{false, true} {
			for _, pre := range [][]uint64{nil, {0}, {0, 1}} {
				for _, q := range [][][]uint64{{{0}, {0}}, {{0}, {1}}, {{1}, {0}}, {{1}, {1}}, {{0}, {2}}, {{2}, {1}}, {{0, 1}, {1, 0}}, {{1, 2}, {0}}} {
					if !yield(dagCase{Reqs: q, Pre: pre, Count: 1 + len(pre)%2, Disk: disk, L1: true, Preempt: 1, Stmt: true}) {
						return
					}
				}
			}
		}
		if r.Thorough() {
			for _, pre := range [][]uint64{nil, {0}} {
				for _, q := range [][][]uint64{{{0}, {0}}, {{0}, {1}}, {{1}, {1}}} {
					if !yield(dagCase{Reqs: q, Pre: pre, Count: 1, Preempt: 2, Stmt: true}) {
						return
					}
				}
			}
		}
	}
}

func genRace(r *hx.Run) func(func(dagCase) bool) {
	return func(yield func(dagCase) bool) {
		for _, disk := range []bool{false, true} {
			for _, pre := range [][]uint64{nil, {0}} {
				for _, q := range [][][]uint64{{{0}, {0}}, {{0}, {1}}, {{1}, {1}}, {{0, 1}, {1}}, {{0, 2}, {1, 0}}, {{1, 2}, {0, 2}}} {
					if !yield(dagCase{Reqs: q, Pre: pre, Count: 1 + len(q[0])%2, Disk: disk, L1: disk, Preempt: hx.Pick(r, 1, 2)}) {
						return
					}
				}
			}
		}
	}
}

func genRaceHash(yield func(hashCase) bool) {
	for _, a := range algos {
		for _, disk := range []bool{false, true} {
			for _, q := range [][][]call{{{{5, 1}}, {{6, 2}}}, {{{5, 1}}, {{15, 1}}}} {
				if !yield(hashCase{Algo: a.Name, Calls: q, Count: 1, Disk: disk, Preempt: 1}) {
					return
				}
			}
		}
	}
}

func genHash(r *hx.Run) func(func(hashCase) bool) {
	return func(yield func(hashCase) bool) {
		for _, a := range algos {
			for _, disk := range []bool{false, true} {
				for _, pre := range [][]uint64{{5}, nil} {
					for i, q := range [][][]call{{{{5, 1}}, {{15, 2}}}, {{{15, 3}}, {{5, 1}}}, {{{5, 1}}, {{6, 2}}}} {
						if !r.Thorough() && (pre == nil || i == 1 || disk != (a.Name == "ethash")) {
							continue
						}
						if !yield(hashCase{Algo: a.Name, Calls: q, Pre: pre, Count: 1, Disk: disk, Preempt: 1, Stmt: true}) {
							return
						}
					}
				}
			}
		}
	}
}

func TestMain_(t *testing.T) {
	mc.Main(t, "C01", func(r *hx.Run) []any {
		cfg := func(c dagCase) vrt.Cfg { return vrt.Cfg{Preempt: c.Preempt, Stmt: c.Stmt, Hits: 2} }
		if vrt.Race {
			return []any{
				mc.M(mc.Model[dagCase]{
					Name: "race-requests", Gen: genRace(r), Cfg: cfg, Run: runDag,
					Rule: "two callers over epochs 0 to 2, all interleavings of lock and storage operations with at most one preemption (thorough: 2), each watched by the race detector, to which the scheduler's own hand-overs are invisible: no two accesses of one execution are unordered by powkit's own synchronisation",
				}),
				mc.M(mc.Model[hashCase]{
					Name: "race-hashing", Gen: genRaceHash, Run: runHash,
					Cfg:  func(c hashCase) vrt.Cfg { return vrt.Cfg{Preempt: c.Preempt} },
					Rule: "two hashing callers of every DAG algorithm, same or different epoch, in memory and on disk, all interleavings of lock and storage operations with at most one preemption, under the race detector",
				}),
			}
		}
		return []any{
			mc.M(mc.Model[dagCase]{
				Name: "requests", Gen: genDag(r), Cfg: cfg, Run: runDag,
				Rule: "two callers with one or two requests each and three callers with one, over epochs 0 to 2, with and without an epoch requested before, 1 and 2 epochs kept, in memory and on disk: all interleavings of their and the background generators' lock and storage operations with at most 2 preemptions (memory) or 1 (disk; thorough 3 and 2)",
			}),
			mc.M(mc.Model[dagCase]{
				Name: "statements", Gen: genStmt(r), Cfg: cfg, Run: runDag,
				Rule: "two callers of the same or different epochs: every statement of powkit (the first two times it runs between two operations) is a point where another thread may run to its next block; one preemption (thorough: also two, in memory)",
			}),
			mc.M(mc.Model[hashCase]{
				Name: "hashing", Gen: genHash(r), Run: runHash,
				Cfg:  func(c hashCase) vrt.Cfg { return vrt.Cfg{Preempt: c.Preempt, Stmt: c.Stmt, Hits: hx.Pick(r, 1, 2)} },
				Rule: "two hashing callers of every DAG algorithm, same or different epoch, in memory and on disk, preempted once at any statement as above",
			}),
		}
	})
}
