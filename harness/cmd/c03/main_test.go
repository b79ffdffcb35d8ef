//go:build go1.25

// C03: disk-backed epoch data outlives its users and is then released.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/mc"
	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

var algos = []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo}

func algoOf(name string) *pk.Algo {
	for _, a := range algos {
		if a.Name == name {
			return a
		}
	}
	panic(name)
}

func chainOf(a *pk.Algo) ref.Chain {
	c := mcx.Chain("H", false)
	c.L1Words, c.Mix = a.L1, a.Mix
	return c
}

var (
	hash    = bytes.Repeat([]byte{0x5a}, 32)
	answers = map[string][][]byte{}
)

func expect(a *pk.Algo, ch ref.Chain, height, nonce uint64) [][]byte {
	k := fmt.Sprint(a.Name, height, nonce)
	if w, ok := answers[k]; ok {
		return w
	}
	answers[k] = a.Ref(ch, hash, height, nonce)
	return answers[k]
}

func call(a *pk.Algo, ch ref.Chain, cl any, height, nonce uint64) (err error) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 1<<13)
			err = fmt.Errorf("height %d nonce %d: panic: %v\n%s", height, nonce, p, buf[:runtime.Stack(buf, false)])
		}
	}()
	got, err := a.Call(cl, hash, height, nonce)
	if err != nil {
		return err
	}
	for i, w := range expect(a, ch, height, nonce) {
		if !bytes.Equal(got[i], w) {
			return fmt.Errorf("height %d nonce %d: output %d is %x, want %x", height, nonce, i, got[i], w)
		}
	}
	return nil
}

// collect runs the collector and waits until the finalizers and cleanups have run.
func collect() {
	for i := 0; i < 2; i++ {
		done, clean := make(chan bool), make(chan bool)
		s := &struct{ next *int }{new(int)}
		runtime.SetFinalizer(s, func(any) { close(done) })
		u := &struct{ next *int }{new(int)}
		runtime.AddCleanup(u, func(int) { close(clean) }, 0)
		s, u = nil, nil
		for _, c := range []chan bool{done, clean} {
			for ok := false; !ok; {
				runtime.GC()
				select {
				case <-c:
					ok = true
				case <-time.After(20 * time.Millisecond):
				}
			}
		}
	}
}

// fds counts the descriptors of files below a directory.
func fds(dir string) (out []string) {
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if n, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(n, dir+"/") {
			out = append(out, n)
		}
	}
	return
}

// held waits until no more than max mappings and descriptors are left.
func held(dir string, max int) error {
	vrt.Idle()
	var maps, open []string
	for try := 0; try < 20; try++ {
		collect()
		_, maps = vrt.Live(-2)
		open = fds(dir)
		if len(maps) <= max && len(open) <= max {
			return nil
		}
		if try > 3 {
			time.Sleep(time.Duration(try) * 5 * time.Millisecond)
		}
	}
	return fmt.Errorf("%d mappings %v and %d open files %v are left, %d allowed", len(maps), maps, len(open), open, max)
}

type strikeCase struct {
	Algo   string
	Stored bool // the epoch is on disk already
	Count  int
	Early  bool // the eviction comes before the computation goes on from its first point, the collection at the point
	Chunk  int
	Chunks int
}

// strikesAt: the hits of a point at which to strike.
func strikesAt(n int, thorough bool) (out []int) {
	first, last := 2, 2
	if thorough {
		first, last = 6, 6
	}
	for h := 1; h <= n; h++ {
		if h <= first || h > n-last {
			out = append(out, h)
		}
	}
	return
}

var counts = map[string][]int32{}

type lab struct {
	a    *pk.Algo
	ch   ref.Chain
	dir  string
	c    strikeCase
	cl   any
	maps int
}

// newLab makes a client whose epoch 0 is on disk or not.
func newLab(e *mc.Env, c strikeCase, no int) (*lab, error) {
	a := algoOf(c.Algo)
	l := &lab{a: a, ch: chainOf(a), dir: filepath.Join(e.Dir, fmt.Sprint(no)), c: c, maps: 1}
	if a.L1 > 0 {
		l.maps = 2
	}
	if err := os.MkdirAll(l.dir, 0o755); err != nil {
		return nil, err
	}
	if c.Stored {
		if err := mcx.Store(l.dir, l.ch, 0); err != nil {
			return nil, err
		}
	}
	l.cl = a.New(mcx.Config(l.ch, l.dir, c.Count, false))
	return l, nil
}

// evict has the client drop epoch 0.
func (l *lab) evict() {
	d := mcx.Of(l.cl, l.ch)
	for i := 0; i <= l.c.Count; i++ {
		d.V.MethodByName("GetCache").Call(args(uint64(20 + 10*i)))
	}
}

func runStrikes(e *mc.Env, _ *vrt.Exec, c strikeCase) error {
	thorough := e.Thorough
	ck := fmt.Sprint(c.Algo, c.Stored, c.Count)
	if counts[ck] == nil {
		l, err := newLab(e, c, 0)
		if err != nil {
			return err
		}
		n := make([]int32, len(vrt.Points))
		vrt.Watch()
		vrt.Hook = func(id int) { n[id]++ }
		err = call(l.a, l.ch, l.cl, 5, 1)
		vrt.Hook = nil
		if err != nil {
			return fmt.Errorf("undisturbed: %w", err)
		}
		counts[ck] = n
		l.cl = nil
		if err := held(l.dir, 0); err != nil {
			return fmt.Errorf("the client is gone, but %w", err)
		}
		vrt.Cleanup()
	}
	no := 0
	k := 0
	for id, n := range counts[ck] {
		if n == 0 {
			continue
		}
		if k++; k%c.Chunks != c.Chunk {
			continue
		}
		for _, h := range strikesAt(int(n), thorough) {
			no++
			l, err := newLab(e, c, no)
			if err != nil {
				return err
			}
			at := 0
			struck, locked, evicted := false, false, false
			vrt.Watch()
			total := 0
			var hook func(i int)
			hook = func(i int) {
				total++
				if c.Early && !evicted && i == id && at == h-2 && vrt.LocksOutside() == 0 {
					vrt.Hook = nil
					evicted = true
					l.evict()
					vrt.Hook = hook
				}
				if i != id {
					return
				}
				if at++; at != h {
					return
				}
				if locked = vrt.LocksOutside() > 0; locked {
					return
				}
				vrt.Hook = nil
				struck = true
				l.evict()
				collect()
			}
			vrt.Hook = hook
			err = call(l.a, l.ch, l.cl, 5, 1)
			vrt.Hook = nil
			if err != nil {
				return fmt.Errorf("evicted and collected at %s, time %d of %d: %w", vrt.Points[id], h, n, err)
			}
			e.Count("transitions", int64(total)) // statements executed
			switch {
			case struck:
				e.Count("states", 1) // a state in which the garbage collector struck
			case locked:
				e.Count("strikes_not_made_because_a_lock_is_held", 1)
			default:
				e.Count("strikes_not_reached", 1)
			}
			if err := call(l.a, l.ch, l.cl, 6, 2); err != nil {
				return fmt.Errorf("after eviction and collection at %s, time %d of %d: %w", vrt.Points[id], h, n, err)
			}
			if no%8 == 1 {
				if err := held(l.dir, (c.Count+1)*l.maps); err != nil {
					return fmt.Errorf("after eviction and collection at %s, time %d of %d: %w", vrt.Points[id], h, n, err)
				}
			}
			l.cl = nil
			if err := held(l.dir, 0); err != nil {
				return fmt.Errorf("after eviction and collection at %s, time %d of %d: the client is gone, but %w", vrt.Points[id], h, n, err)
			}
			vrt.Cleanup()
			os.RemoveAll(l.dir)
		}
	}
	return nil
}

type relCase struct {
	Algo  string
	Hist  []uint64
	Count int
	Lock  bool
	State string // of the files stored before: none, good, short, long, magic
}

// release: a history, then everything evicted is given back; then the client goes.
func release(e *mc.Env, _ *vrt.Exec, c relCase) error {
	a := algoOf(c.Algo)
	ch := chainOf(a)
	maps := 1
	if a.L1 > 0 {
		maps = 2
	}
	dir := e.Dir
	if c.State != "none" {
		for ep := uint64(0); ep < 4; ep++ {
			if err := mcx.Store(dir, ch, ep); err != nil {
				return err
			}
			x, y := mcx.Names(ch, ep)
			for _, n := range []string{x, y} {
				p := filepath.Join(dir, n)
				b, err := os.ReadFile(p)
				if err != nil {
					continue
				}
				switch c.State {
				case "short":
					b = b[:len(b)-4]
				case "long":
					b = append(b, 0, 0, 0, 0)
				case "odd":
					b = b[:len(b)-1]
				case "magic":
					b[5] ^= 4
				case "head":
					b = b[:4]
				}
				if err := os.WriteFile(p, b, 0o644); err != nil {
					return err
				}
			}
		}
	}
	cl := a.New(mcx.Config(ch, dir, c.Count, c.Lock))
	for i, ep := range c.Hist {
		if err := call(a, ch, cl, ep*ch.EpochLen+4, 3); err != nil {
			return fmt.Errorf("request %d: %w", i, err)
		}
		if err := held(dir, (c.Count+1)*maps); err != nil {
			return fmt.Errorf("after request %d: %w", i, err)
		}
	}
	runtime.KeepAlive(cl)
	cl = nil
	if err := held(dir, 0); err != nil {
		return fmt.Errorf("the client is gone, but %w", err)
	}
	e.Count("release_checks", int64(len(c.Hist)+1))
	vrt.Cleanup()
	return nil
}

func hists(n int, epochs uint64, f func([]uint64) bool) bool {
	h := make([]uint64, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(append([]uint64(nil), h...))
		}
		for e := uint64(0); e < epochs; e++ {
			h[i] = e
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func TestMain_(t *testing.T) {
	mc.Main(t, "C03", func(r *hx.Run) []any {
		return []any{
			mc.M(mc.Model[strikeCase]{
				Name: "strikes", Run: runStrikes, Free: true, Limit: 300 * time.Second,
				Rule: "for every DAG algorithm, the epoch read from disk or generated, 1 or 2 epochs kept: at every statement a computation executes (the first two and the last two times; thorough: six), in powkit's leaf functions too, the epoch is evicted by requests for others and the garbage collector and its finalizers run; unmapped memory is made inaccessible",
				Gen: func(yield func(strikeCase) bool) {
					const chunks = 16
					for _, a := range algos {
						for _, stored := range []bool{true, false} {
							for _, count := range []int{1, 2} {
								if count == 2 && !r.Thorough() && (a.Name == "firopow" || a.Name == "octopus") {
									continue
								}
								for i := 0; i < chunks; i++ {
									if !yield(strikeCase{Algo: a.Name, Stored: stored, Count: count, Early: count == 2, Chunk: i, Chunks: chunks}) {
										return
									}
								}
							}
						}
					}
				},
			}),
			mc.M(mc.Model[relCase]{
				Name: "release", Run: release, Free: true, Limit: 120 * time.Second,
				Rule: "every history of up to three requests (thorough: four) over epochs 0 to 3 with 1 and 2 epochs kept and every state of the files stored before (none, good, cut short by a word and by a byte, too long, wrong header, header only): after each request, once background work has ended and the collector has run, no more mappings and descriptors are left than the kept epochs need, and none once the client is gone",
				Gen: func(yield func(relCase) bool) {
					for _, a := range []string{"ethash", "kawpow"} {
						for _, count := range []int{1, 2} {
							for _, state := range []string{"none", "good", "short", "odd", "long", "magic", "head"} {
								n := hx.Pick(r, 2, 3)
								if state == "none" || state == "good" {
									n++
								}
								if !hists(n, 3, func(h []uint64) bool {
									return yield(relCase{a, h, count, state == "good" && count == 2, state})
								}) {
									return
								}
							}
						}
					}
				},
			}),
		}
	})
}
