//go:build go1.25

// C07: clients sharing one storage directory never disturb each other.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/mc"
	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

const maxEpoch = 7

type client struct {
	Proc, Chain, Count int
	Reqs               []uint64
	Own                bool // a client of its own for each request
}

type stored struct {
	Chain int
	Ep    uint64
}

type shareCase struct {
	Pre     []stored
	Bad     []stored // spoilt
	How     string   // in this way
	Clients []client
	Preempt int
	Crashes int
	Stmt    bool
	NoDir   bool
}

// chains with easily confused names and the same seeds.
func chains() []ref.Chain {
	var out []ref.Chain
	add := func(name string, rev int, l1 bool, init uint64) {
		c := mcx.Chain(name, l1)
		c.Revision = rev
		c.CacheInit = init
		out = append(out, c)
	}
	add("T", 7, true, 512)
	add("T", 70, true, 1<<10)
	add("T2", 7, false, 512+128)
	add("T-R7", 7, true, 1<<10+128)
	add("t", 7, false, 512+256)
	add("T", 23, false, 512+384)
	return out
}

// decoys are other files in and around the directory.
func decoys(dir, root string, chs []ref.Chain) map[string]string {
	m := map[string]string{}
	a, b := mcx.Names(chs[0], 0)
	c, _ := mcx.Names(chs[0], 1)
	for _, n := range []string{a + ".5577006791947779410", a + ".tmp", a + "0", "x" + a, c + ".8674665223082153551", b + ".bak", strings.ToUpper(a),
		"cache", "cache-T-R7-", "cache-T-R7", "l1-T-R7-", "full-T-R7-0000000000000000", "wallet.dat", ".hidden", "lock", "cache-T-R7-zzzzzzzzzzzzzzzz", "cache-T-R8-0000000000000000", "cache--R7-0000000000000000", "cache-T-R-0000000000000000",
		"sub/" + a, "sub/" + c} {
		m[filepath.Join(dir, n)] = "decoy " + n
	}
	m[filepath.Join(root, a)] = "outside"
	m[filepath.Join(root, "d2", a)] = "another directory"
	m[filepath.Join(root, "other")] = "outside"
	return m
}

func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		switch {
		case err != nil:
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			m[p] = string(b)
		case fi.IsDir():
			m[p+"/"] = ""
		default:
			m[p] = fi.Mode().String()
		}
		return nil
	})
	return m
}

func share(e *mc.Env, x *vrt.Exec, c shareCase) error {
	chs := chains()
	for _, cl := range c.Clients {
		mcx.Warm(chs[cl.Chain], maxEpoch)
	}
	root, dir := e.Dir, filepath.Join(e.Dir, "d")
	dec := map[string]string{}
	if !c.NoDir {
		for _, d := range []string{dir, filepath.Join(dir, "sub"), filepath.Join(root, "d2")} {
			if err := os.Mkdir(d, 0o755); err != nil {
				return err
			}
		}
		for p, b := range decoys(dir, root, chs) {
			if len(b)%4 == 1 { // a few
				dec[p] = b
			}
		}
		for p, b := range dec {
			if err := os.WriteFile(p, []byte(b), 0o644); err != nil {
				return err
			}
		}
		for _, s := range c.Pre {
			if err := mcx.Store(dir, chs[s.Chain], s.Ep); err != nil {
				return err
			}
		}
	}
	for _, s := range c.Bad {
		if err := mcx.Spoil(dir, chs[s.Chain], s.Ep, c.How); err != nil {
			return err
		}
	}
	w := newWatch(x, root, dir, chs, c.Clients)
	if len(c.Bad) > 0 {
		w.old = map[string][]byte{}
		for n, b := range mcx.List(dir) {
			w.old[n] = b
		}
	}
	for i, cl := range c.Clients {
		x.Spawn(cl.Proc, fmt.Sprint("client", i), func() {
			k := mcx.New(cl.Proc, chs[cl.Chain], dir, cl.Count, false)
			for j, ep := range cl.Reqs {
				if cl.Own && j > 0 {
					k = mcx.New(cl.Proc, chs[cl.Chain], dir, cl.Count, false)
				}
				d := k.Get(ep)
				err := k.Check(d)
				if err == nil {
					err = k.CheckItems(d, 0, 5)
				}
				if err != nil {
					x.Failf("client %d: %v", i, err)
					return
				}
			}
		})
	}
	if err := x.Wait(); err != nil {
		return err
	}
	if x.Fail != "" {
		return nil
	}
	x.OnOp, x.OnEffect = nil, nil
	e.Count("directory_states_checked", w.points)
	if w.old != nil && !w.anyCrashed() {
		w.old = nil // all of them were asked for
	}
	if err := w.intact(); err != nil {
		return err
	}
	return w.final(c, dec)
}

func (w *watch) anyCrashed() bool {
	for _, cl := range w.clients {
		if w.x.Crashed(cl.Proc) {
			return true
		}
	}
	return false
}

// final compares what is stored in the end with what has to be.
func (w *watch) final(c shareCase, dec map[string]string) error {
	now := tree(w.root)
	for p, b := range dec {
		if now[p] != b {
			return fmt.Errorf("%s is gone or changed", p)
		}
		delete(now, p)
	}
	for _, s := range []string{w.root, w.dir, filepath.Join(w.dir, "sub"), filepath.Join(w.root, "d2")} {
		delete(now, s+"/")
	}
	type file struct {
		chain int
		ep    uint64
		l1    bool
	}
	have := map[file]bool{}
	for p := range now {
		if ch, ep, l1, ok := w.epochOf(p); ok {
			have[file{ch, ep, l1}] = true
			continue
		}
		if o := w.own[p]; o != 0 && w.x.Crashed(o-1) {
			continue // left by a killed process
		}
		return fmt.Errorf("%s is left over", p)
	}
	for ch := range w.chains {
		for ep := uint64(0); ep <= maxEpoch; ep++ {
			for _, l1 := range []bool{false, true} {
				f := file{ch, ep, l1}
				if l1 && w.chains[ch].L1Words == 0 {
					if have[f] {
						return fmt.Errorf("a second-level file of a chain that has none (%s, epoch %d)", w.chains[ch].Name, ep)
					}
					continue
				}
				pre := false
				for _, s := range append(append([]stored(nil), c.Pre...), c.Bad...) {
					pre = pre || s == stored{ch, ep}
				}
				made := false // by anyone
				for _, g := range w.gen {
					made = made || g.chain == ch && g.ep == ep && g.l1 == l1
				}
				must, may := false, false // be removed
				for _, g := range w.gen {
					if g.chain != ch {
						continue
					}
					for _, cl := range w.clients {
						if cl.Proc == g.proc && cl.Chain == ch && g.ep >= ep+uint64(cl.Count) {
							may = true
							must = must || !g.l1 && !w.x.Crashed(g.proc) && same(w.clients, cl)
						}
					}
				}
				switch {
				case have[f] && !pre && !made:
					return fmt.Errorf("epoch %d of chain %d appeared from nowhere", ep, ch)
				case have[f] && must && !made:
					return fmt.Errorf("epoch %d of %s (revision %d) is still stored though a later epoch was generated (%s)", ep, w.chains[ch].Name, w.chains[ch].Revision, w.history())
				case !have[f] && (pre || made) && !may:
					return fmt.Errorf("epoch %d of %s (revision %d) is no longer stored (%s)", ep, w.chains[ch].Name, w.chains[ch].Revision, w.history())
				}
			}
		}
	}
	return nil
}

// same tells whether all clients of that process and chain keep as many epochs.
func same(l []client, c client) bool {
	for _, d := range l {
		if d.Proc == c.Proc && d.Chain == c.Chain && d.Count != c.Count {
			return false
		}
	}
	return true
}

func (w *watch) history() string {
	s := "generated:"
	for _, g := range w.gen {
		s += fmt.Sprintf(" %d/%d/%d", g.proc, g.chain, g.ep)
		if g.l1 {
			s += "(l1)"
		}
	}
	return s
}

type retainCase struct {
	Pre   []uint64
	Hist  []uint64
	Count int
	Chain int
	Fresh bool // a client, and process, of its own for each request
}

// retain: exactly the files of the own chain and revision that are older by the retention count or more go.
func retain(e *mc.Env, x *vrt.Exec, c retainCase) error {
	chs := chains()
	ch := chs[c.Chain]
	last := uint64(maxEpoch)
	for _, ep := range append(append([]uint64(nil), c.Hist...), c.Pre...) {
		last = max(last, ep+1)
	}
	for _, ep := range append(append([]uint64(nil), c.Hist...), c.Pre...) {
		pk.Ref(ch, ep)
		pk.Ref(ch, ep+1)
	}
	root, dir := e.Dir, filepath.Join(e.Dir, "d")
	for _, d := range []string{dir, filepath.Join(dir, "sub"), filepath.Join(root, "d2")} {
		if err := os.Mkdir(d, 0o755); err != nil {
			return err
		}
	}
	dec := decoys(dir, root, chs)
	want := map[uint64]bool{}
	for i, o := range chs {
		for ep := uint64(0); ep <= 5; ep++ {
			if i != c.Chain {
				a, b := mcx.Names(o, ep)
				dec[filepath.Join(dir, a)] = "not complete"
				dec[filepath.Join(dir, b)] = "not complete"
			}
		}
	}
	for _, d := range []uint64{1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 64, 100, 1000} { // later epochs of the chain itself
		a, b := mcx.Names(ch, last+d)
		dec[filepath.Join(dir, a)] = "not complete"
		dec[filepath.Join(dir, b)] = "not complete"
	}
	for p, b := range dec {
		if err := os.WriteFile(p, []byte(b), 0o644); err != nil {
			return err
		}
	}
	for _, ep := range c.Pre {
		want[ep] = true
		if err := mcx.Store(dir, ch, ep); err != nil {
			return err
		}
	}
	// the files of the other chains are decoys here
	w := newWatch(x, root, dir, []ref.Chain{ch}, []client{{Proc: 0, Chain: 0, Count: c.Count, Reqs: c.Hist}})
	w.max = last
	var k *mcx.Client
	for i, ep := range c.Hist {
		w.gen = nil
		x.Spawn(0, fmt.Sprint("request", i), func() {
			if k == nil || c.Fresh {
				k = mcx.New(0, ch, dir, c.Count, false)
			}
			if err := k.Check(k.Get(ep)); err != nil {
				x.Failf("request %d: %v", i, err)
			}
		})
		if err := x.Wait(); err != nil {
			return err
		}
		if x.Fail != "" {
			return nil
		}
		for _, g := range w.gen {
			want[g.ep] = true
			if !g.l1 {
				for old := range want {
					if old+uint64(c.Count) <= g.ep {
						delete(want, old)
					}
				}
			}
		}
		got := map[uint64]bool{}
		for n := range mcx.List(dir) {
			if ep, l1, ok := mcx.EpochFile(ch, n, last); ok && !l1 {
				got[ep] = true
				if _, b := mcx.Names(ch, ep); ch.L1Words > 0 && !exists(filepath.Join(dir, b)) {
					return fmt.Errorf("after request %d: the second-level file of epoch %d is missing", i, ep)
				}
			} else if ok && ch.L1Words > 0 {
				if a, _ := mcx.Names(ch, ep); !exists(filepath.Join(dir, a)) {
					return fmt.Errorf("after request %d: the second-level file of epoch %d stands alone", i, ep)
				}
			}
		}
		if fmt.Sprint(keys(got)) != fmt.Sprint(keys(want)) {
			return fmt.Errorf("after request %d: epochs stored are %v, should be %v", i, keys(got), keys(want))
		}
	}
	now := tree(root)
	for p, b := range dec {
		if now[p] != b {
			return fmt.Errorf("%s is gone or changed", p)
		}
		delete(now, p)
	}
	for p := range now {
		if _, _, ok := mcx.EpochFile(ch, filepath.Base(p), last); !ok && !strings.HasSuffix(p, "/") {
			return fmt.Errorf("%s is left over", p)
		}
	}
	return nil
}

func keys(m map[uint64]bool) (l []int) {
	for k := range m {
		l = append(l, int(k))
	}
	sort.Ints(l)
	return
}

func subsets(n int, yield func([]uint64) bool) bool {
	for m := 0; m < 1<<n; m++ {
		var l []uint64
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				l = append(l, uint64(i))
			}
		}
		if !yield(l) {
			return false
		}
	}
	return true
}

func histories(n, depth int, yield func([]uint64) bool) bool {
	h := make([]uint64, depth)
	for {
		if !yield(append([]uint64(nil), h...)) {
			return false
		}
		i := 0
		for ; i < depth; i++ {
			if h[i]++; h[i] < uint64(n) {
				break
			}
			h[i] = 0
		}
		if i == depth {
			return true
		}
	}
}

type shipCase struct {
	A, B int
	Eps  []uint64
}

// ships: shipped clients, which all use one directory.
func ships(e *mc.Env, _ *vrt.Exec, c shipCase) error {
	var all []pk.Shipped
	for _, a := range []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo} {
		all = append(all, a.Ships...)
	}
	type pair struct {
		cl     *mcx.Client
		ch     ref.Chain
		client any
	}
	mk := func(i int) pair {
		cl := all[i].New()
		d := hx.DagOf(cl)
		d.StorageDir = filepath.Join(e.Dir, filepath.Base(d.StorageDir)) // never the real one
		ch := all[i].Chain
		d.CacheSizes = nil
		d.CacheInitBytes, d.CacheGrowthBytes = 4096+1024*uint64(i), 0
		ch.CacheInit, ch.CacheG = d.CacheInitBytes, 0
		return pair{mcx.Of(cl, ch), ch, cl}
	}
	use := func(p pair, eps []uint64) error {
		defer vrt.Idle()
		for _, ep := range eps {
			if err := p.cl.Check(p.cl.Get(ep)); err != nil {
				return fmt.Errorf("%s: %w", p.ch.Name, err)
			}
		}
		return nil
	}
	dir := ""
	stamp := func() map[string]os.FileInfo {
		m := map[string]os.FileInfo{}
		l, _ := os.ReadDir(dir)
		for _, d := range l {
			m[d.Name()], _ = d.Info()
		}
		return m
	}
	a := mk(c.A)
	dir = hx.DagOf(a.client).StorageDir
	if err := use(a, c.Eps[:1]); err != nil {
		return err
	}
	before := stamp()
	if len(before) == 0 {
		return fmt.Errorf("%s stores nothing", a.ch.Name)
	}
	if err := use(mk(c.B), c.Eps); err != nil {
		return err
	}
	after := stamp()
	for n, fi := range before {
		if g := after[n]; g == nil || !os.SameFile(fi, g) || !g.ModTime().Equal(fi.ModTime()) {
			return fmt.Errorf("%s of %s was removed or replaced by a client of %s", n, a.ch.Name, all[c.B].Chain.Name)
		}
	}
	return use(mk(c.A), c.Eps[:1])
}

func TestMain_(t *testing.T) {
	mc.Main(t, "C07", func(r *hx.Run) []any {
		cfg := func(c shareCase) vrt.Cfg {
			return vrt.Cfg{Preempt: c.Preempt, Crashes: c.Crashes, Stmt: c.Stmt}
		}
		two := func(a, b []uint64, ca, cb int) []client {
			return []client{{Proc: 0, Count: ca, Reqs: a}, {Proc: 1, Count: cb, Reqs: b}}
		}
		pre := func(ch int, eps ...uint64) (l []stored) {
			for _, ep := range eps {
				l = append(l, stored{ch, ep})
			}
			return
		}
		pairs := func() (l []shareCase) {
			l = []shareCase{
				{Clients: two([]uint64{0}, []uint64{0}, 1, 1)},
				{Clients: two([]uint64{0}, []uint64{0}, 1, 1), NoDir: true},
				{Clients: two([]uint64{0}, []uint64{1}, 1, 2)},
				{Clients: two([]uint64{1, 0}, []uint64{2}, 1, 1), Pre: pre(0, 0)},
				{Clients: two([]uint64{4}, []uint64{3, 2}, 1, 1), Pre: pre(0, 0, 1, 2, 3)},
				{Clients: two([]uint64{4}, []uint64{1}, 3, 1), Pre: append(pre(0, 0, 1, 2), pre(1, 0, 1, 2)...)},
				{Clients: two([]uint64{2}, []uint64{2}, 2, 1), Pre: append(pre(0, 0, 1), pre(2, 0)...)},
			}
			for k := 1; k < len(chains()); k++ { // another chain
				l = append(l, shareCase{Clients: []client{{Proc: 0, Chain: 0, Count: 1, Reqs: []uint64{1}}, {Proc: 1, Chain: k, Count: 1, Reqs: []uint64{1}}}, Pre: append(pre(0, 0), pre(k, 0)...)})
			}
			for _, how := range mcx.Damages[:4] { // spoilt files under the names asked for
				l = append(l, shareCase{Clients: two([]uint64{1}, []uint64{1}, 1, 2), Bad: pre(0, 1), How: how})
			}
			l = append(l, shareCase{Clients: two([]uint64{2, 1}, []uint64{2}, 2, 2), Pre: pre(0, 1), Bad: pre(0, 2), How: "long"})
			l = append(l, // one process
				shareCase{Clients: []client{{Proc: 0, Count: 1, Reqs: []uint64{0}}, {Proc: 0, Count: 1, Reqs: []uint64{0}}}},
				shareCase{Clients: []client{{Proc: 0, Count: 1, Reqs: []uint64{2}}, {Proc: 0, Chain: 1, Count: 2, Reqs: []uint64{2}}}, Pre: append(pre(0, 0, 1), pre(1, 0, 1)...)})
			return
		}
		return []any{
			mc.M(mc.Model[retainCase]{
				Name: "retention", Run: retain, Cfg: func(retainCase) vrt.Cfg { return vrt.Cfg{} },
				Rule: "every history of up to 2 (thorough: 3) requests over epochs 0 to 5, for every set of stored epochs out of 0 to 3, retention counts 1 to 3, one client for all or one for each request, three chains, and requests far ahead of what is stored, among later epochs' and other chains' files of the same epochs and 24 other files",
				Gen: func(yield func(retainCase) bool) {
					for _, h := range [][]uint64{{40}, {20, 40}, {40, 20}, {25, 26, 27}, {33}, {12, 6}} { // far apart
						for count := 1; count <= 5; count++ {
							for _, p := range [][]uint64{{0}, {0, 1, 2, 3, 19, 20, 21, 22, 30, 35, 36, 37, 38, 39}, {5, 41, 42}} {
								if !yield(retainCase{Pre: p, Hist: h, Count: count}) {
									return
								}
							}
						}
					}
					for depth := 1; depth <= hx.Pick(r, 2, 3); depth++ {
						for count := 1; count <= 3; count++ {
							for _, ch := range []int{0, 2, 3} {
								if depth > 1 && ch == 3 && !r.Thorough() {
									continue
								}
								for _, fresh := range []bool{false, true} {
									if depth == 1 && fresh {
										continue
									}
									if !histories(6, depth, func(h []uint64) bool {
										return subsets(4, func(p []uint64) bool {
											return yield(retainCase{Pre: p, Hist: h, Count: count, Chain: ch, Fresh: fresh})
										})
									}) {
										return
									}
								}
							}
						}
					}
				},
			}),
			mc.M(mc.Model[shareCase]{
				Name: "pairs", Run: share, Cfg: cfg,
				Rule: "two clients, in two processes or in one, of the same chain or of chains with similar names, with nothing, complete or spoilt files there before, and their background threads: every interleaving of their storage operations with 1 preemption (thorough: 2), for a chain without second-level cache 2 (thorough: 3); before and after every operation each visible epoch file is compared with the reference, and the operation is judged by what it is about to touch",
				Gen: func(yield func(shareCase) bool) {
					for i, c := range pairs() {
						c.Preempt = hx.Pick(r, 1, 2)
						if !yield(c) {
							return
						}
						if c.Clients[0].Chain != c.Clients[1].Chain || !r.Thorough() && (i == 1 || i == 2 || i == 5) {
							continue
						}
						c.Preempt++
						c.Clients = append([]client(nil), c.Clients...)
						for i := range c.Clients {
							c.Clients[i].Chain = 5
						}
						c.Pre = append([]stored(nil), c.Pre...)
						for i := range c.Pre {
							c.Pre[i].Chain = 5 - c.Pre[i].Chain
						}
						c.Bad = append([]stored(nil), c.Bad...)
						for i := range c.Bad {
							c.Bad[i].Chain = 5
						}
						if !yield(c) {
							return
						}
					}
				},
			}),
			mc.M(mc.Model[shareCase]{
				Name: "three", Run: share, Cfg: cfg,
				Rule: "three clients: every order in which they and their background threads can run where one ends or waits (thorough: and 1 preemption)",
				Gen: func(yield func(shareCase) bool) {
					three := func(a, b, d []uint64) []client {
						return append(two(a, b, 1, 1), client{Proc: 2, Count: 2, Reqs: d})
					}
					for _, c := range []shareCase{
						{Clients: three([]uint64{0}, []uint64{0}, []uint64{0})},
						{Clients: three([]uint64{0}, []uint64{1}, []uint64{2}), NoDir: true},
						{Clients: three([]uint64{3, 0}, []uint64{0, 3}, []uint64{1}), Pre: pre(0, 0, 1)},
						{Clients: append(two([]uint64{1}, []uint64{2}, 1, 1), client{Proc: 1, Chain: 1, Count: 1, Reqs: []uint64{1}}), Pre: append(pre(0, 0), pre(1, 0)...)},
					} {
						c.Preempt = hx.Pick(r, 0, 1)
						if !yield(c) {
							return
						}
					}
				},
			}),
			mc.M(mc.Model[shareCase]{
				Name: "statements", Run: share, Cfg: cfg,
				Rule: "two clients interleaved at every statement of the epoch code, 1 preemption, a third of the scenarios (thorough: all, and 2 preemptions for the first one)",
				Gen: func(yield func(shareCase) bool) {
					for i, c := range pairs() {
						if !r.Thorough() && i%3 != 0 {
							continue
						}
						c.Preempt, c.Stmt = 1, true
						if r.Thorough() && i == 0 {
							c.Preempt = 2
						}
						if !yield(c) {
							return
						}
					}
				},
			}),
			mc.M(mc.Model[shareCase]{
				Name: "killed", Run: share, Cfg: cfg,
				Rule: "two clients in two processes, 0 preemptions (thorough: 1), one process killed before any storage operation; the other goes on, requesting through new clients",
				Gen: func(yield func(shareCase) bool) {
					for _, c := range pairs() {
						if c.Clients[0].Proc == c.Clients[1].Proc {
							continue
						}
						c.Preempt, c.Crashes = hx.Pick(r, 0, 1), 1
						c.Clients = append([]client(nil), c.Clients...)
						for i := range c.Clients {
							c.Clients[i].Own = true
						}
						if !yield(c) {
							return
						}
					}
				},
			}),
			mc.M(mc.Model[shipCase]{
				Name: "shipped", Run: ships, Free: true,
				Rule: "every ordered pair of shipped clients (with smaller caches) over their common default directory: the second one goes through epochs that make it clean up; the first one's files stay, and serve a new client",
				Gen: func(yield func(shipCase) bool) {
					for a := 0; a < 5; a++ {
						for b := 0; b < 5; b++ {
							for _, eps := range [][]uint64{{0, 1, 9}, {3, 8}, {1, 0, 7, 12}} {
								if a != b && !yield(shipCase{a, b, eps}) {
									return
								}
							}
						}
					}
				},
			}),
		}
	})
}
