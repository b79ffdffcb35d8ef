//go:build go1.25

// C02: epochs kept in memory.
package main

import (
	"bytes"
	"fmt"
	"runtime"
	"testing"
	"weak"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/mc"
	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// spec is what the property says about a history.
type spec struct {
	count    int
	recent   []uint64 // last requested first
	high     uint64   // highest requested
	any      bool
	prepared bool // high+1 has been prepared and not been asked for
}

type verdict int

const (
	mayGenerate  verdict = iota
	mustKeep             // served with what the last request of it returned
	mustPrepared         // served with what was prepared
)

func (s *spec) request(ep uint64) verdict {
	for i, e := range s.recent {
		if e == ep {
			s.recent = append([]uint64{ep}, append(append([]uint64(nil), s.recent[:i]...), s.recent[i+1:]...)...)
			if i < s.count {
				return mustKeep
			}
			return mayGenerate
		}
	}
	v := mayGenerate
	if s.any && s.prepared && ep == s.high+1 {
		v = mustPrepared
	}
	s.recent = append([]uint64{ep}, s.recent...)
	if !s.any || ep > s.high {
		s.high, s.any, s.prepared = ep, true, true
	}
	return v
}

// view is what can be reached from a client.
type view map[uint64]uintptr

func look(root any, ch ref.Chain, max uint64) (v view, n int) {
	v = view{}
	for _, b := range mcx.Reachable(root) {
		known := false
		for ep := uint64(0); ep <= max; ep++ {
			want := pk.Ref(ch, ep).Cache
			if b.Len == len(want) {
				known = true
				if eq(b.Words(), want) {
					v[ep] = b.Ptr
				}
			}
		}
		if known {
			n++
		}
	}
	return
}

func eq(a, b []uint32) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ptr(d []uint32) uintptr {
	if len(d) == 0 {
		return 0
	}
	return uintptr(ptrOf(d))
}

type histCase struct {
	Hist    []uint64
	Count   int
	Disk    bool
	L1      bool
	Preempt int
	GC      bool
	Algo    string
}

const maxEpoch = 8

func run(e *mc.Env, x *vrt.Exec, c histCase) error {
	ch := mcx.Chain("T", c.L1)
	var a *pk.Algo
	if c.Algo != "" {
		for _, b := range []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo} {
			if b.Name == c.Algo {
				a = b
				ch.L1Words, ch.Mix = b.L1, b.Mix
			}
		}
	}
	dir := ""
	if c.Disk {
		dir = e.Dir
	}
	mcx.Warm(ch, maxEpoch)
	s := &spec{count: c.Count}
	ops := 0
	x.OnOp = func(op *vrt.Op) {
		if op.Thread == 0 {
			ops++
		}
	}
	var root any
	var get func(ep uint64) ([]uint32, error)
	last := map[uint64]uintptr{}
	var weaks []weak.Pointer[uint32]
	var weakEp []uint64
	judge := func(i int, ep uint64) error {
		v := s.request(ep)
		before, _ := look(root, ch, maxEpoch)
		ops = 0
		data, err := get(ep)
		if err != nil {
			return err
		}
		p := last[ep]
		if a == nil {
			if err := hx.EqWords(fmt.Sprintf("epoch %d", ep), data, pk.Ref(ch, ep).Cache); err != nil {
				return err
			}
			p = ptr(data)
		} else {
			after, _ := look(root, ch, maxEpoch)
			p = after[ep]
			if p == 0 {
				return fmt.Errorf("request %d: epoch %d is not kept right after its request", i, ep)
			}
		}
		switch v {
		case mustKeep:
			if p != last[ep] {
				return fmt.Errorf("request %d: epoch %d was among the %d last used, but was generated or loaded again", i, ep, c.Count)
			}
			if ops > 0 {
				return fmt.Errorf("request %d: epoch %d was among the %d last used, but %d storage operations were made for it", i, ep, c.Count, ops)
			}
		case mustPrepared:
			if q := before[ep]; q != 0 {
				if p != q {
					return fmt.Errorf("request %d: epoch %d was prepared, but was generated or loaded again", i, ep)
				}
				if ops > 0 {
					return fmt.Errorf("request %d: epoch %d was prepared, but %d storage operations were made for it", i, ep, ops)
				}
				e.Count("prepared_epochs_taken", 1)
			}
		}
		if last[ep] != 0 && v == mayGenerate {
			e.Count("requests_of_dropped_epochs", 1)
		}
		last[ep] = p
		if c.GC && a == nil && !c.Disk {
			weaks = append(weaks, weak.Make(&data[0]))
			weakEp = append(weakEp, ep)
		}
		// what is kept
		now, n := look(root, ch, maxEpoch)
		if n > c.Count+1 {
			return fmt.Errorf("after request %d: %d epochs are kept, %d plus one prepared are allowed", i, n, c.Count)
		}
		for k := 0; k < c.Count && k < len(s.recent); k++ {
			if now[s.recent[k]] == 0 {
				return fmt.Errorf("after request %d: epoch %d is not kept, although it is number %d of those used last", i, s.recent[k], k+1)
			}
		}
		return nil
	}
	var fail error
	x.Spawn(0, "caller", func() {
		if a == nil {
			cl := mcx.New(0, ch, dir, c.Count, false)
			root = cl.V.Interface()
			get = func(ep uint64) ([]uint32, error) { return cl.Get(ep).Cache, nil }
		} else {
			cl := a.New(mcx.Config(ch, dir, c.Count, false))
			root = cl
			hash := bytes.Repeat([]byte{7}, 32)
			get = func(ep uint64) ([]uint32, error) {
				_, err := a.Call(cl, hash, ep*ch.EpochLen+3, 5)
				return nil, err
			}
		}
		for i, ep := range c.Hist {
			if fail = judge(i, ep); fail != nil {
				return
			}
			vrt.Point()
		}
	})
	if err := x.Wait(); err != nil {
		return err
	}
	if fail != nil {
		return fail
	}
	// everything has come to rest
	now, n := look(root, ch, maxEpoch)
	if n > c.Count+1 {
		return fmt.Errorf("at rest: %d epochs are kept, %d plus one prepared are allowed", n, c.Count)
	}
	ok := map[uint64]bool{}
	for k := 0; k < c.Count && k < len(s.recent); k++ {
		ok[s.recent[k]] = true
		if now[s.recent[k]] == 0 {
			return fmt.Errorf("at rest: epoch %d is not kept, although it is number %d of those used last", s.recent[k], k+1)
		}
	}
	if s.prepared {
		ok[s.high+1] = true
		if now[s.high+1] == 0 {
			return fmt.Errorf("at rest: epoch %d has not been prepared (highest request %d)", s.high+1, s.high)
		}
	}
	if c.GC && a == nil && !c.Disk {
		runtime.GC()
		for i, w := range weaks {
			if w.Value() != nil && now[weakEp[i]] != uintptr(ptrOf1(w.Value())) {
				return fmt.Errorf("epoch %d was dropped, but its memory is still held", weakEp[i])
			}
			if w.Value() == nil {
				e.Count("dropped_epochs_collected", 1)
			}
		}
	}
	runtime.KeepAlive(root)
	return nil
}

func all(n int, epochs uint64, f func([]uint64) bool) bool {
	h := make([]uint64, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(append([]uint64(nil), h...))
		}
		for e := uint64(0); e < epochs; e++ {
			h[i] = e
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

type sharedCase struct {
	Reqs  [][]uint64
	Pre   []uint64
	Count int
	Disk  bool
	Pre2  int
}

// shared: callers at once.
func shared(e *mc.Env, x *vrt.Exec, c sharedCase) error {
	ch := mcx.Chain("T", false)
	mcx.Warm(ch, maxEpoch)
	dir := ""
	if c.Disk {
		dir = e.Dir
	}
	var cl *mcx.Client
	got := map[uint64]map[uintptr]bool{}
	seen := map[uint64]bool{}
	get := func(ep uint64) {
		d := cl.Get(ep)
		seen[ep] = true
		if got[ep] == nil {
			got[ep] = map[uintptr]bool{}
		}
		got[ep][ptr(d.Cache)] = true
	}
	pre := x.Preempt
	x.Preempt = 0
	x.Spawn(0, "before", func() {
		cl = mcx.New(0, ch, dir, c.Count, false)
		for _, ep := range c.Pre {
			get(ep)
		}
	})
	if err := x.Wait(); err != nil {
		return err
	}
	x.Preempt = pre
	for i, r := range c.Reqs {
		x.Spawn(0, fmt.Sprint("caller", i), func() {
			for _, ep := range r {
				get(ep)
			}
		})
	}
	if err := x.Wait(); err != nil {
		return err
	}
	now, n := look(cl.V.Interface(), ch, maxEpoch)
	if n > c.Count+1 {
		return fmt.Errorf("at rest: %d epochs are kept, %d plus one prepared are allowed", n, c.Count)
	}
	if len(seen) <= c.Count {
		for ep, ps := range got {
			if len(ps) > 1 {
				return fmt.Errorf("epoch %d was generated or loaded %d times, although only %d epochs were asked for and %d may be kept", ep, len(ps), len(seen), c.Count)
			}
			if now[ep] == 0 {
				return fmt.Errorf("epoch %d is not kept", ep)
			}
		}
	}
	high := uint64(0)
	for ep := range seen {
		high = max(high, ep)
	}
	if now[high+1] == 0 {
		return fmt.Errorf("epoch %d has not been prepared (highest request %d)", high+1, high)
	}
	return nil
}

func TestMain_(t *testing.T) {
	mc.Main(t, "C02", func(r *hx.Run) []any {
		return []any{
			mc.M(mc.Model[histCase]{
				Name: "histories", Run: run,
				Cfg:  func(c histCase) vrt.Cfg { return vrt.Cfg{Coarse: true, Preempt: c.Preempt} },
				Rule: "every history of 5 requests (thorough: 6) over epochs 0 to 4, 1 to 3 epochs kept, in memory and on disk; what is prepared in the background becomes ready as late as possible",
				Gen: func(yield func(histCase) bool) {
					for _, count := range []int{1, 2, 3} {
						for _, disk := range []bool{false, true} {
							n := hx.Pick(r, 5, 6)
							if !all(n, 5, func(h []uint64) bool {
								return yield(histCase{Hist: h, Count: count, Disk: disk, L1: disk && count == 2, GC: true})
							}) {
								return
							}
						}
					}
				},
			}),
			mc.M(mc.Model[histCase]{
				Name: "background", Run: run,
				Cfg:  func(c histCase) vrt.Cfg { return vrt.Cfg{Coarse: true, Preempt: c.Preempt} },
				Rule: "every history of 5 requests (thorough: 6) over epochs 0 to 3, 1 to 3 epochs kept, in memory and on disk: each background generation completes between any two requests or at the end, in all combinations",
				Gen: func(yield func(histCase) bool) {
					for _, count := range []int{1, 2, 3} {
						for _, disk := range []bool{false, true} {
							if !all(hx.Pick(r, 5, 6), 4, func(h []uint64) bool {
								return yield(histCase{Hist: h, Count: count, Disk: disk, Preempt: 6})
							}) {
								return
							}
						}
					}
				},
			}),
			mc.M(mc.Model[histCase]{
				Name: "long", Run: run,
				Cfg:  func(c histCase) vrt.Cfg { return vrt.Cfg{Coarse: true} },
				Rule: "every history of 8 requests (thorough: 9) over 3 epochs (0, 1, 2 and 0, 1, 5), one and two kept, in memory",
				Gen: func(yield func(histCase) bool) {
					for _, count := range []int{1, 2} {
						for _, top := range []uint64{2, 5} {
							if !all(hx.Pick(r, 8, 9), 3, func(h []uint64) bool {
								for i := range h {
									if h[i] == 2 {
										h[i] = top
									}
								}
								return yield(histCase{Hist: h, Count: count})
							}) {
								return
							}
						}
					}
				},
			}),
			mc.M(mc.Model[histCase]{
				Name: "clients", Run: run,
				Cfg:  func(c histCase) vrt.Cfg { return vrt.Cfg{Coarse: true, Preempt: c.Preempt} },
				Rule: "the same through Compute of the four DAG algorithms: every history of 4 requests over 3 epochs, one and two kept, in memory and on disk",
				Gen: func(yield func(histCase) bool) {
					for _, a := range []string{"ethash", "kawpow", "firopow", "octopus"} {
						for _, count := range []int{1, 2} {
							for _, disk := range []bool{false, true} {
								if !all(hx.Pick(r, 3, 4), 3, func(h []uint64) bool {
									return yield(histCase{Hist: h, Count: count, Disk: disk, Algo: a, Preempt: 2})
								}) {
									return
								}
							}
						}
					}
				},
			}),
			mc.M(mc.Model[sharedCase]{
				Name: "concurrent", Run: shared,
				Cfg:  func(c sharedCase) vrt.Cfg { return vrt.Cfg{Preempt: 2} },
				Rule: "two and three concurrent callers over epochs 0 to 2, 1 to 3 kept, with and without an epoch requested before, all interleavings of lock and storage operations with at most two preemptions: at rest no more than allowed is kept, nothing is generated twice that need not be dropped, the next epoch is prepared",
				Gen: func(yield func(sharedCase) bool) {
					for _, count := range []int{1, 2, 3} {
						for _, disk := range []bool{false, true} {
							for _, pre := range [][]uint64{nil, {0}, {1}} {
								if disk && pre != nil {
									continue
								}
								for _, q := range [][][]uint64{{{0}, {0}}, {{0}, {1}}, {{1}, {1}}, {{0}, {2}}, {{0, 1}, {1, 0}}, {{0, 1}, {2}}, {{0}, {0}, {1}}, {{0}, {1}, {2}}} {
									if disk && (len(q) > 2 || len(q[0]) > 1) {
										continue
									}
									if !yield(sharedCase{Reqs: q, Pre: pre, Count: count, Disk: disk}) {
										return
									}
								}
							}
						}
					}
				},
			}),
		}
	})
}
