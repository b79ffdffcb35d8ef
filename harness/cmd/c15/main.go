//go:build go1.23

// C15: Cuckoo Cycle accepts exactly single cycles of ascending edges.
package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// ends of an edge, as the definition of both variants names them.
type endsFunc func(edge uint64) [2]uint64

// table is an injected edge function: the ends of the edges base, base+step, ...
type table struct {
	base, step uint64
	wide       bool
	u, v       []uint64
}

func (t *table) at(e uint64, variant int) (u, v uint64) {
	i := (e - t.base) / t.step
	if i >= uint64(len(t.u)) {
		return 1 << 20, 1 << 20
	}
	if t.wide {
		return t.u[i] << wideShift[variant], t.v[i] << wideShift[variant]
	}
	return t.u[i], t.v[i]
}

func clients(bitsN [2]int, size int, t *table) [2]*cuckoo.Client {
	return [2]*cuckoo.Client{
		cuckoo.NewCuckoo(bitsN[0], size, func(mask uint64, _ [4]uint64, e, side uint64) uint64 {
			u, v := t.at(e, 0)
			if side == 0 {
				return u & mask
			}
			return v & mask
		}, nil),
		cuckoo.NewCuckaroo(bitsN[1], size, nil, func(_ [4]uint64, e uint64) uint64 {
			u, v := t.at(e, 1)
			return u | v<<32
		}),
	}
}

var names = [2]string{"cuckoo", "cuckaroo"}

// partitions calls f with every set partition of n elements, as restricted growth strings.
func partitions(n int, f func(p []int)) {
	p := make([]int, n)
	var rec func(i, m int)
	rec = func(i, m int) {
		if i == n {
			f(p)
			return
		}
		for b := 0; b <= m; b++ {
			p[i] = b
			nm := m
			if b == m {
				nm++
			}
			rec(i+1, nm)
		}
	}
	rec(0, 0)
}

// allPartitions lists them.
func allPartitions(n int) (out [][]int) {
	partitions(n, func(p []int) { out = append(out, append([]int(nil), p...)) })
	return
}

// pairings lists the partitions into pairs.
func pairings(n int) (out [][]int) {
	p := make([]int, n)
	for i := range p {
		p[i] = -1
	}
	var rec func(b int)
	rec = func(b int) {
		i := 0
		for i < n && p[i] >= 0 {
			i++
		}
		if i == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		p[i] = b
		for j := i + 1; j < n; j++ {
			if p[j] < 0 {
				p[j] = b
				rec(b + 1)
				p[j] = -1
			}
		}
		p[i] = -1
	}
	rec(0)
	return
}

// shapes lists one partition of each block size pattern.
func shapes(n int) (out [][]int) {
	var rec func(p []int, b, left, max int)
	rec = func(p []int, b, left, max int) {
		if left == 0 {
			out = append(out, append([]int(nil), p...))
			return
		}
		for s := min(left, max); s >= 1; s-- {
			q := append([]int(nil), p...)
			for i := 0; i < s; i++ {
				q = append(q, b)
			}
			rec(q, b+1, left-s, s)
		}
	}
	rec(nil, 0, n, n)
	return
}

// single decides from the two partitions alone: every block has two elements and
// the blocks join all the edges together.
func single(u, v []int) bool {
	if len(u) > 60 {
		return singleBig(u, v)
	}
	n := len(u)
	var mu, mv [64]uint64
	for i := 0; i < n; i++ {
		mu[u[i]] |= 1 << uint(i)
		mv[v[i]] |= 1 << uint(i)
	}
	for i := 0; i < n; i++ {
		if bits.OnesCount64(mu[u[i]]) != 2 || bits.OnesCount64(mv[v[i]]) != 2 {
			return false
		}
	}
	reach := uint64(1)
	for {
		next := reach
		for i := 0; i < n; i++ {
			if reach>>uint(i)&1 != 0 {
				next |= mu[u[i]] | mv[v[i]]
			}
		}
		if next == reach {
			return reach == 1<<uint(n)-1
		}
		reach = next
	}
}

// labels name the blocks. The wide ones agree in all their low bits, 32 of them in
// Cuckoo (62-bit nodes) and 16 in Cuckaroo (32-bit nodes).
var labels = []struct {
	name string
	wide bool
	of   func(b int) uint64
}{
	{"powers", false, func(b int) uint64 { return 1 << uint(b) }}, // only even degrees cancel
	{"counting", false, func(b int) uint64 { return uint64(b) }},  // 0, 1, 2, 3: 1^2^3 and 0 cancel
	{"from1", false, func(b int) uint64 { return uint64(b) + 1 }}, // 1^2^3, 1^4^5, ...
	{"pairs", false, func(b int) uint64 { return uint64(b)/2*2 + uint64(b) + 3 }},
	{"high", true, func(b int) uint64 { return uint64(b) }},
	{"highest", true, func(b int) uint64 { return uint64(b) << 10 }},
}

// wideBits and wideShift: the size of a node and of what wide labels leave zero.
var wideBits, wideShift = [2]int{62, 32}, [2]uint{32, 16}

func try(c *cuckoo.Client, edges []uint64, want bool) error {
	ok, err := c.Verify([]byte("header"), edges)
	if ok != want || ok && err != nil {
		return fmt.Errorf("got %v, %v, want %v", ok, err, want)
	}
	if !want && ok {
		return fmt.Errorf("accepted")
	}
	return nil
}

type graphCase struct {
	Size  int
	U     []int
	Only  []int `json:",omitempty"` // restrict to this partition of the other side
	Pairs bool  `json:",omitempty"`
	Flip  bool  `json:",omitempty"` // U is the partition of the second side
}

var others = map[string][][]int{}

func evalGraph(w *hx.W, c graphCase) (bool, error) {
	n := c.Size
	t := &table{base: 3, step: 5, u: make([]uint64, n), v: make([]uint64, n)}
	cls := [2][2]*cuckoo.Client{clients([2]int{24, 24}, n, t), clients(wideBits, n, t)}
	edges := make([]uint64, n)
	for i := range edges {
		edges[i] = t.base + t.step*uint64(i)
	}
	var evals, cycles int64
	one := func(v []int) error {
		u := c.U
		if c.Flip {
			u, v = v, u
		}
		want := single(u, v)
		if want {
			cycles++
		}
		for _, l := range labels {
			if n == 8 && !c.Pairs && l.name == "highest" {
				continue // the smaller sizes and the pairings have it
			}
			cl := cls[0]
			if t.wide = l.wide; l.wide {
				cl = cls[1]
			}
			for i := 0; i < n; i++ {
				t.u[i], t.v[i] = l.of(u[i]), l.of(v[i])
			}
			for k, x := range cl {
				if err := try(x, edges, want); err != nil {
					return fmt.Errorf("%s: first ends %v, second ends %v, labels %s: %w", names[k], u, v, l.name, err)
				}
				evals++
			}
		}
		return nil
	}
	var err error
	switch {
	case c.Only != nil:
		err = one(c.Only)
	case c.Pairs:
		for _, v := range pairings(n) {
			if err = one(v); err != nil {
				break
			}
		}
	default:
		partitions(n, func(v []int) {
			if err == nil {
				err = one(v)
			}
		})
	}
	w.Add(evals-1, evals-1)
	w.R.Count("graphs_that_are_one_cycle", cycles)
	return true, err
}

type orderCase struct {
	Size int
	Idx  []int
}

func orderVals(mask uint64) []uint64 {
	return []uint64{0, 1, 2, 3, mask - 1, mask, mask + 1, mask + 2, 1 << 32, 1 << 63, ^uint64(0)}
}

func evalOrder(w *hx.W, c orderCase) (bool, error) {
	const eb = 10
	mask := uint64(1)<<eb - 1
	vals := orderVals(mask)
	edges := make([]uint64, c.Size)
	for i, x := range c.Idx {
		edges[i] = vals[x]
	}
	sorted := append([]uint64(nil), edges...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	n := uint64(c.Size)
	for _, byPos := range []bool{false, true} {
		// by rank, or by position: the edges form one cycle, so only order and range decide
		ends := func(e uint64) (u, v uint64) {
			l := sorted
			if byPos {
				l = edges
			}
			var i uint64
			for int(i) < len(l) && l[i] != e {
				i++
			}
			return i / 2, (i + 1) % n / 2
		}
		want := true
		for i, e := range edges {
			if e > mask || i > 0 && edges[i-1] >= e {
				want = false
			}
		}
		cl := [2]*cuckoo.Client{
			cuckoo.NewCuckoo(eb, c.Size, func(m uint64, _ [4]uint64, e, side uint64) uint64 {
				u, v := ends(e)
				if side == 0 {
					return u
				}
				return v
			}, nil),
			cuckoo.NewCuckaroo(eb, c.Size, nil, func(_ [4]uint64, e uint64) uint64 {
				u, v := ends(e)
				return u | v<<32
			}),
		}
		for k, x := range cl {
			if err := try(x, edges, want); err != nil {
				return true, fmt.Errorf("%s: edges %v: %w", names[k], edges, err)
			}
		}
	}
	w.Add(3, 3)
	return true, nil
}

// variants with real edge functions
type variant struct {
	name string
	mk   func(eb, size int) *cuckoo.Client
	ends func(eb int, keys [4]uint64) endsFunc
}

func keysOf(header []byte) (k [4]uint64) {
	h := ref.Blake2b256(header)
	for i := range k {
		for b := 7; b >= 0; b-- {
			k[i] = k[i]<<8 | uint64(h[8*i+b])
		}
	}
	return
}

var variants = []variant{
	{"legacy", func(eb, size int) *cuckoo.Client {
		if eb == 29 && size == 42 {
			return cuckoo.NewAeternity()
		}
		return cuckoo.NewCuckoo(eb, size, crypto.SipNode24Legacy, nil)
	}, func(eb int, keys [4]uint64) endsFunc {
		m := uint64(1)<<uint(eb) - 1
		return func(e uint64) [2]uint64 {
			return [2]uint64{ref.SipNodeLegacy(m, keys, e, 0), ref.SipNodeLegacy(m, keys, e, 1)}
		}
	}},
	{"node24", func(eb, size int) *cuckoo.Client { return cuckoo.NewCuckoo(eb, size, crypto.SipNode24, nil) },
		func(eb int, keys [4]uint64) endsFunc {
			m := uint64(1)<<uint(eb) - 1
			return func(e uint64) [2]uint64 {
				return [2]uint64{ref.SipNode(m, keys, e, 0), ref.SipNode(m, keys, e, 1)}
			}
		}},
	{"block48", func(eb, size int) *cuckoo.Client {
		if eb == 30 && size == 42 {
			return cuckoo.NewCortex()
		}
		return cuckoo.NewCuckaroo(eb, size, nil, crypto.SipBlock48)
	}, func(eb int, keys [4]uint64) endsFunc {
		m := uint64(1)<<uint(eb) - 1
		return func(e uint64) [2]uint64 {
			x := ref.SipBlock48(keys, e)
			return [2]uint64{x & m, x >> 32 & m}
		}
	}},
}

type realCase struct {
	Variant  int
	EB, Size int
	Header   int
	Len      int // length of the header, 0: a usual one
}

func (c realCase) header() []byte {
	if c.Len > 0 {
		r := hx.Rng(uint64(c.Len)*977 + 5)
		return r.Bytes(c.Len)
	}
	return header(c.Header)
}

func header(i int) []byte { r := hx.Rng(uint64(i)*977 + 1); return r.Bytes(20 + i%80) }

// evalSubsets tries every ascending subset of a small edge set.
func evalSubsets(w *hx.W, c realCase) (bool, error) {
	v := variants[c.Variant]
	h := c.header()
	n := 1 << uint(c.EB)
	f := v.ends(c.EB, keysOf(h))
	memo := make([][2]uint64, n)
	for e := range memo {
		memo[e] = f(uint64(e))
	}
	ends := func(e uint64) [2]uint64 { return memo[e&uint64(n-1)] }
	cl := v.mk(c.EB, c.Size)
	mask := uint64(n - 1)
	sub := make([]uint64, c.Size)
	var evals, cycles int64
	var rec func(i int, from uint64) error
	rec = func(i int, from uint64) error {
		if i == c.Size {
			// cheap necessary condition first; the reference decides
			want := false
			var du, dv [2]uint64
			for _, e := range sub {
				x := ends(e)
				du[0] ^= 1 << (x[0] % 64)
				dv[0] ^= 1 << (x[1] % 64)
			}
			if du[0] == 0 && dv[0] == 0 {
				want = ref.CycleOK(mask, c.Size, sub, ends)
			}
			evals++
			if want {
				cycles++
			}
			ok, err := cl.Verify(h, sub)
			if ok != want || ok && err != nil {
				return fmt.Errorf("%s: header %x, edges %v: got %v, %v, want %v", v.name, h, sub, ok, err, want)
			}
			if want {
				// every other order is refused
				var perm func(k int) error
				p := append([]uint64(nil), sub...)
				perm = func(k int) error {
					if k == len(p) {
						w := true
						for i := 1; i < len(p); i++ {
							w = w && p[i-1] < p[i]
						}
						evals++
						ok, err := cl.Verify(h, p)
						if ok != w {
							return fmt.Errorf("%s: header %x, edges %v: got %v, %v, want %v", v.name, h, p, ok, err, w)
						}
						return nil
					}
					for i := k; i < len(p); i++ {
						p[k], p[i] = p[i], p[k]
						if err := perm(k + 1); err != nil {
							return err
						}
						p[k], p[i] = p[i], p[k]
					}
					return nil
				}
				return perm(0)
			}
			return nil
		}
		for e := from; e < uint64(n); e++ {
			sub[i] = e
			if err := rec(i+1, e+1); err != nil {
				return err
			}
		}
		return nil
	}
	err := rec(0, 0)
	w.Add(evals-1, evals-1)
	w.R.Count("valid_proofs_of_real_edge_functions", cycles)
	return true, err
}

// findCycles lists simple cycles of the given length in the whole graph.
func findCycles(eb, size int, ends endsFunc, max int) (out [][]uint64) {
	n := uint64(1) << uint(eb)
	all := make([][2]uint64, n)
	for e := range all {
		all[e] = ends(uint64(e))
	}
	alive := make([]bool, n)
	for e := range alive {
		alive[e] = true
	}
	for {
		var deg [2]map[uint64]int
		deg[0], deg[1] = map[uint64]int{}, map[uint64]int{}
		for e, a := range alive {
			if a {
				deg[0][all[e][0]]++
				deg[1][all[e][1]]++
			}
		}
		changed := false
		for e, a := range alive {
			if a && (deg[0][all[e][0]] < 2 || deg[1][all[e][1]] < 2) {
				alive[e] = false
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	adj := [2]map[uint64][]uint64{{}, {}}
	for e, a := range alive {
		if a {
			adj[0][all[e][0]] = append(adj[0][all[e][0]], uint64(e))
			adj[1][all[e][1]] = append(adj[1][all[e][1]], uint64(e))
		}
	}
	steps := 0
	for s := range alive {
		if !alive[s] || len(out) >= max {
			continue
		}
		used := [2]map[uint64]bool{{all[s][0]: true}, {}}
		path := []uint64{uint64(s)}
		target := all[s][0]
		// walk from the second end of s back to its first end, using only larger edges
		var walk func(e uint64, side int) bool
		walk = func(e uint64, side int) bool {
			steps++
			if steps > 2000000 || len(path) > size {
				return false
			}
			node := all[e][side]
			if side == 0 && node == target {
				if len(path) == size {
					p := append([]uint64(nil), path...)
					sort.Slice(p, func(i, j int) bool { return p[i] < p[j] })
					out = append(out, p)
					return true
				}
				return false
			}
			if used[side][node] {
				return false
			}
			used[side][node] = true
			for _, x := range adj[side][node] {
				if x > uint64(s) && x != e {
					path = append(path, x)
					if walk(x, 1-side) {
						return true
					}
					path = path[:len(path)-1]
				}
			}
			delete(used[side], node)
			return false
		}
		walk(uint64(s), 1)
	}
	return
}

// mutants are what lies next to a proof.
func mutants(p []uint64) (out [][]uint64) {
	add := func(f func(q []uint64) []uint64) { out = append(out, f(append([]uint64(nil), p...))) }
	add(func(q []uint64) []uint64 { return q })
	n := len(p)
	for i := 0; i < n; i++ {
		i := i
		for b := uint(0); b < 64; b++ {
			add(func(q []uint64) []uint64 { q[i] ^= 1 << b; return q })
		}
		for b := uint(0); b < 64; b++ { // flipped, and in order again
			if b < 32 || b > 60 {
				add(func(q []uint64) []uint64 {
					q[i] ^= 1 << b
					sort.Slice(q, func(i, j int) bool { return q[i] < q[j] })
					return q
				})
			}
		}
		add(func(q []uint64) []uint64 { q[i]++; return q })
		add(func(q []uint64) []uint64 { q[i]--; return q })
		for j := i + 1; j < n; j++ {
			j := j
			add(func(q []uint64) []uint64 { q[i], q[j] = q[j], q[i]; return q })
			add(func(q []uint64) []uint64 { q[i] = q[j]; return q })
			add(func(q []uint64) []uint64 { q[j] = q[i]; return q })
		}
		add(func(q []uint64) []uint64 { return append(q[:i], q[i+1:]...) })
		add(func(q []uint64) []uint64 { return append(append(append([]uint64{}, q[:i]...), q[i]), q[i:]...) })
		add(func(q []uint64) []uint64 { return append(append([]uint64{}, q[i:]...), q[:i]...) })
	}
	add(func(q []uint64) []uint64 { return nil })
	add(func(q []uint64) []uint64 { return append(q, q...) })
	add(func(q []uint64) []uint64 { return append(q, 1<<40) })
	return
}

func checkMutants(w *hx.W, v variant, eb, size int, h []byte, p []uint64) error {
	f := v.ends(eb, keysOf(h))
	mask := uint64(1)<<uint(eb) - 1
	cl := v.mk(eb, size)
	for _, m := range mutants(p) {
		in := append([]uint64(nil), m...)
		want := ref.CycleOK(mask, size, m, f)
		ok, err := cl.Verify(h, in)
		if ok != want || ok && err != nil {
			return fmt.Errorf("%s: header %x, edges %v: got %v, %v, want %v", v.name, h, m, ok, err, want)
		}
		if len(m) != size && err == nil {
			return fmt.Errorf("%s: %d edges instead of %d: no error", v.name, len(m), size)
		}
		for i := range in {
			if in[i] != m[i] {
				return fmt.Errorf("%s: the proof was modified", v.name)
			}
		}
		w.Add(1, 1)
	}
	return nil
}

func evalMined(w *hx.W, c realCase) (bool, error) {
	v := variants[c.Variant]
	h := c.header()
	found := findCycles(c.EB, c.Size, v.ends(c.EB, keysOf(h)), 3)
	w.R.Count(fmt.Sprintf("mined_proofs_of_%d_edges", c.Size), int64(len(found)))
	for _, p := range found {
		if err := checkMutants(w, v, c.EB, c.Size, h, p); err != nil {
			return true, err
		}
	}
	return len(found) > 0, nil
}

// singleBig does the same for any number of edges: it walks from edge to edge.
func singleBig(u, v []int) bool {
	ends := [2]map[int][]int{{}, {}}
	for i := range u {
		ends[0][u[i]] = append(ends[0][u[i]], i)
		ends[1][v[i]] = append(ends[1][v[i]], i)
	}
	for _, m := range ends {
		for _, l := range m {
			if len(l) != 2 {
				return false
			}
		}
	}
	at, side, n := 0, 0, 0
	for {
		l := ends[side][[2][]int{u, v}[side][at]]
		if at = l[0] + l[1] - at; side == 1 && at == 0 {
			return n+1 == len(u)
		}
		n, side = n+1, 1-side
	}
}

// bigCase is a structure of 42 (or N) edges with injected ends.
type bigCase struct {
	N    int `json:",omitempty"`
	Perm int // seed of the order of the edges, 0: as they are
	Kind string
	A, B int
}

func evalBig(w *hx.W, c bigCase) (bool, error) {
	n := 42
	if c.N > 0 {
		n = c.N
	}
	u, v := make([]int, n), make([]int, n)
	cycle := func(lo, ln int) {
		for i := 0; i < ln; i++ {
			u[lo+i] = (lo + i) / 2
			v[lo+i] = (lo + (i+1)%ln) / 2
		}
	}
	switch c.Kind {
	case "split": // cycles of A, B and the rest
		cycle(0, c.A)
		cycle(c.A, c.B)
		cycle(c.A+c.B, n-c.A-c.B)
	case "mergeu", "mergev": // two nodes are one
		cycle(0, n)
		s := u
		if c.Kind == "mergev" {
			s = v
		}
		for i := range s {
			if s[i] == c.B {
				s[i] = c.A
			}
		}
	case "cutu", "cutv": // an edge ends somewhere else
		cycle(0, n)
		s := u
		if c.Kind == "cutv" {
			s = v
		}
		s[c.A] = c.B
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if c.Perm != 0 {
		r := hx.Rng(uint64(c.Perm))
		for i := n - 1; i > 0; i-- {
			j := int(r.Next() % uint64(i+1))
			order[i], order[j] = order[j], order[i]
		}
	}
	pu, pv := make([]int, n), make([]int, n)
	for i, o := range order {
		pu[i], pv[i] = u[o], v[o]
	}
	want := single(pu, pv)
	t := &table{base: 7, step: 11, u: make([]uint64, n), v: make([]uint64, n)}
	cls := [2][2]*cuckoo.Client{clients([2]int{29, 29}, n, t), clients(wideBits, n, t)}
	edges := make([]uint64, n)
	for i := range edges {
		edges[i] = t.base + t.step*uint64(i)
	}
	for _, l := range labels[1:] {
		if l.name == "highest" && n > 126 {
			continue // more than 64 nodes: not enough of those
		}
		cl := cls[0]
		if t.wide = l.wide; l.wide {
			cl = cls[1]
		}
		for i := range pu {
			t.u[i], t.v[i] = l.of(pu[i]), l.of(pv[i])
		}
		for k, x := range cl {
			if err := try(x, edges, want); err != nil {
				return true, fmt.Errorf("%s: first ends %v, second ends %v, labels %s: %w", names[k], pu, pv, l.name, err)
			}
			w.Add(1, 1)
		}
	}
	return true, nil
}

func main() {
	hx.Main("C15", "exploration", func(r *hx.Run) {
		r.Assume("the definition of a cycle in harness/ref/cuckoo.go and the reference SipHash functions are right")
		lim := 60 * time.Second
		hx.Explore(r, hx.Suite[graphCase]{
			Name: "graphs", Limit: 3 * lim / 2,
			Rule: "proof sizes 2, 4, 6, 8: every partition of the edges' first ends with every partition of their second ends, under six labelings (five for size 8; some of which cancel by XOR without being paired, some of which differ in high bits only), both variants",
			Gen: func(yield func(graphCase) bool) {
				for _, n := range []int{2, 4, 6} {
					for _, u := range allPartitions(n) {
						if !yield(graphCase{Size: n, U: u}) {
							return
						}
					}
				}
				for _, u := range allPartitions(8) {
					if !yield(graphCase{Size: 8, U: u}) {
						return
					}
				}
			},
			Eval: evalGraph,
		})
		hx.Explore(r, hx.Suite[graphCase]{
			Name: "pairings", Limit: lim,
			Rule: "proof size 8 and 10" + hx.Pick(r, "", " and 12 (a tenth of the first sides)") + ": every pairing of first ends with every pairing of second ends",
			Gen: func(yield func(graphCase) bool) {
				for _, n := range hx.Pick(r, []int{8, 10}, []int{8, 10, 12}) {
					for i, u := range pairings(n) {
						if n == 12 && i%10 != 0 {
							continue
						}
						if !yield(graphCase{Size: n, U: u, Pairs: true}) {
							return
						}
					}
				}
			},
			Eval: evalGraph,
		})
		if r.Thorough() || r.Replaying() {
			hx.Explore(r, hx.Suite[graphCase]{
				Name: "shapes10", Limit: 10 * time.Minute,
				Rule: "proof size 10: one partition of each shape on one side, every partition on the other",
				Gen: func(yield func(graphCase) bool) {
					for _, flip := range []bool{false, true} {
						for _, u := range shapes(10) {
							if !yield(graphCase{Size: 10, U: u, Flip: flip}) {
								return
							}
						}
					}
				},
				Eval: evalGraph,
			})
		}
		hx.Explore(r, hx.Suite[orderCase]{
			Name: "order", Limit: lim,
			Rule: "proof sizes 2 and 4: every tuple of 11 boundary edge values (around 0, the mask, 2^32, 2^63, 2^64-1), with ends that make the tuple one cycle",
			Gen: func(yield func(orderCase) bool) {
				for _, n := range []int{2, 4} {
					idx := make([]int, n)
					for {
						if !yield(orderCase{n, append([]int(nil), idx...)}) {
							return
						}
						i := n - 1
						for i >= 0 && idx[i] == 10 {
							idx[i] = 0
							i--
						}
						if i < 0 {
							break
						}
						idx[i]++
					}
				}
			},
			Eval: evalOrder,
		})
		hx.Explore(r, hx.Suite[bigCase]{
			Name: "fortytwo", Limit: lim,
			Rule: "42 edges: every split into up to three cycles, every merge of two nodes of one side, every edge end moved to any node, in several edge orders",
			Gen: func(yield func(bigCase) bool) {
				for p := 0; p < hx.Pick(r, 4, 40); p++ {
					for a := 2; a <= 42; a += 2 {
						for b := 0; a+b <= 42; b += 2 {
							if !yield(bigCase{0, p, "split", a, b}) {
								return
							}
						}
					}
					for _, k := range []string{"mergeu", "mergev"} {
						for a := 0; a < 21; a++ {
							for b := 0; b < a; b++ {
								if !yield(bigCase{0, p, k, a, b}) {
									return
								}
							}
						}
					}
					for _, k := range []string{"cutu", "cutv"} {
						for a := 0; a < 42; a++ {
							for b := 0; b < 23; b++ {
								if !yield(bigCase{0, p, k, a, b}) {
									return
								}
							}
						}
					}
				}
			},
			Eval: evalBig,
		})
		hx.Explore(r, hx.Suite[bigCase]{
			Name: "sizes", Limit: lim,
			Rule: "every even number of edges from 12 to 70, and 126 to 132 and 256 to 260: the single cycle, every split into two cycles, every merge of the first, middle and last node with any other of its side, the first, middle and last edge's ends moved to any node",
			Gen: func(yield func(bigCase) bool) {
				for n := 12; n <= 260; n += 2 {
					if n > 70 && n < 126 || n > 132 && n < 256 {
						continue
					}
					for p := 0; p < hx.Pick(r, 2, 10); p++ {
						for a := 2; a <= n; a += 2 {
							if !yield(bigCase{n, p, "split", a, n - a}) {
								return
							}
						}
						for _, a := range []int{0, n / 4, n/2 - 1} {
							for b := 0; b <= n/2; b++ {
								if b < n/2 && b != a && (!yield(bigCase{n, p, "mergeu", a, b}) || !yield(bigCase{n, p, "mergev", a, b})) {
									return
								}
								if !yield(bigCase{n, p, "cutu", 2 * a, b}) || !yield(bigCase{n, p, "cutv", 2*a + 1, b}) {
									return
								}
							}
						}
					}
				}
			},
			Eval: evalBig,
		})
		hx.Explore(r, hx.Suite[realCase]{
			Name: "subsets", Limit: 2 * time.Minute,
			Rule: "real edge functions on 32 edges: every ascending pair, quadruple and sextuple of edges, for several headers; every order of those that are cycles",
			Gen: func(yield func(realCase) bool) {
				for v := range variants {
					for _, s := range []int{2, 4} {
						for h := 0; h < hx.Pick(r, 40, 400); h++ {
							if !yield(realCase{v, 5, s, h, 0}) {
								return
							}
						}
					}
					for h := 0; h < hx.Pick(r, 3, 30); h++ {
						if !yield(realCase{v, 5, 6, h, 0}) {
							return
						}
					}
				}
			},
			Eval: evalSubsets,
		})
		hx.Explore(r, hx.Suite[realCase]{
			Name: "headers", Limit: 2 * time.Minute,
			Rule: "headers of every length 1..1300 and around the powers of two up to 65536: every ascending pair of the 16 edges the header gives",
			Gen: func(yield func(realCase) bool) {
				for v := range variants {
					for n := 1; n <= hx.Pick(r, 1300, 5000); n++ {
						if !yield(realCase{v, 4, 2, 0, n}) {
							return
						}
					}
					for sh := 11; sh <= hx.Pick(r, 16, 20); sh++ {
						for d := -2; d <= 2; d++ {
							if !yield(realCase{v, 4, 2, 0, 1<<uint(sh) + d}) {
								return
							}
						}
					}
				}
			},
			Eval: evalSubsets,
		})
		hx.Explore(r, hx.Suite[realCase]{
			Name: "mined", Limit: 2 * time.Minute,
			Rule: "all cycles of 8, 20 and 42 edges found by a solver in graphs of 2^8 to 2^12 edges, with all their neighbours (bit flips, swaps, repeats, lengths)",
			Gen: func(yield func(realCase) bool) {
				for v := range variants {
					for _, s := range [][2]int{{8, 8}, {10, 20}, {12, 42}} {
						for h := 0; h < hx.Pick(r, 120, 1500)*s[1]/8; h++ {
							if !yield(realCase{v, s[0], s[1], h, 0}) {
								return
							}
						}
					}
				}
			},
			Eval: evalMined,
		})
		hx.Explore(r, hx.Suite[int]{
			Name: "known", Limit: lim, Rule: "mined proofs of Aeternity and Cortex with all their neighbours, and with every header bit flipped",
			Gen: func(yield func(int) bool) {
				for i := range pk.Vectors("cuckoo") {
					if !yield(i) {
						return
					}
				}
			},
			Eval: func(w *hx.W, i int) (bool, error) {
				f := pk.Vectors("cuckoo")[i]
				v, eb := variants[0], 29
				if f[0] == "2" {
					v, eb = variants[2], 30
				}
				h := hx.UnHex(f[1])
				var p []uint64
				for _, s := range f[2:] {
					x, err := strconv.ParseUint(strings.Trim(s, "[]"), 10, 64)
					if err != nil {
						return false, err
					}
					p = append(p, x)
				}
				if !ref.CycleOK(uint64(1)<<uint(eb)-1, 42, p, v.ends(eb, keysOf(h))) {
					w.R.Count("known_vectors_that_are_no_proofs", 1)
				}
				if err := checkMutants(w, v, eb, 42, h, p); err != nil {
					return true, err
				}
				for b := 0; b < 8*len(h); b++ {
					m := append([]byte(nil), h...)
					m[b/8] ^= 1 << uint(b%8)
					want := ref.CycleOK(uint64(1)<<uint(eb)-1, 42, p, v.ends(eb, keysOf(m)))
					if ok, err := v.mk(eb, 42).Verify(m, p); ok != want {
						return true, fmt.Errorf("header bit %d flipped: got %v, %v, want %v", b, ok, err, want)
					}
				}
				return true, nil
			},
		})
	})
}
