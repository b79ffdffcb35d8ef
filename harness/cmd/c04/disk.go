//go:build go1.25

package main

import (
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

const sector = 512

// inode is a file with what of it has surely reached the disk.
type inode struct {
	durable []byte
	sizes   map[int]bool // that it had since it was last synced
	path    string       // where its current content can be read, "" when unlinked
	last    []byte       // its last known content
}

// nsOp is a change of the name space.
type nsOp struct {
	from, to string // from "": creation; to "": removal
	ino      *inode
}

// disk models what a power loss may leave: a prefix of the name space changes,
// and of each file that is not synced any sectors and any of its sizes.
type disk struct {
	root   string
	base   map[string]*inode // names that are surely there
	ops    []nsOp
	names  map[string]*inode // current
	states func(files map[string][]byte)
	seen   map[uint64]bool
	capped bool
	points int
}

func newDisk(root string) *disk {
	d := &disk{root: root, base: map[string]*inode{}, names: map[string]*inode{}, seen: map[uint64]bool{}}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			ino := &inode{durable: b, sizes: map[int]bool{len(b): true}, path: p, last: b}
			d.base[p] = ino
			d.names[p] = ino
		}
		return nil
	})
	return d
}

// effect follows an operation that succeeded.
func (d *disk) effect(op *vrt.Op) {
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			if q, err := filepath.Abs(p); err == nil {
				return q
			}
		}
		return filepath.Clean(p)
	}
	p := abs(op.Path)
	switch op.Kind {
	case "create", "open":
		ino := d.names[p]
		if ino == nil {
			if op.Kind == "open" {
				return
			}
			ino = &inode{sizes: map[int]bool{0: true}, path: p}
			d.names[p] = ino
			d.ops = append(d.ops, nsOp{to: p, ino: ino})
			return
		}
		if op.Flag&os.O_TRUNC != 0 {
			ino.sizes[0] = true
		}
	case "truncate", "write":
		d.refresh()
	case "sync", "flush":
		if fi, err := os.Stat(p); err == nil && fi.IsDir() {
			// a directory: all changes of names so far are on the disk
			for _, o := range d.ops {
				d.apply(d.base, o)
			}
			d.ops = nil
			return
		}
		// the name it was opened by may have changed since
		for q, ino := range d.names {
			if q == p || ino.path == p {
				d.read(ino)
				ino.durable = ino.last
				ino.sizes = map[int]bool{len(ino.last): true}
			}
		}
	case "rename":
		o := nsOp{from: p, to: abs(op.Path2), ino: d.names[p]}
		if o.ino == nil {
			return
		}
		if old := d.names[o.to]; old != nil && old != o.ino {
			old.path = "" // its content was last read before the operation
		}
		d.apply(d.names, o)
		o.ino.path = o.to
		d.ops = append(d.ops, o)
	case "link":
		o := nsOp{to: abs(op.Path2), ino: d.names[p]}
		if o.ino != nil {
			d.apply(d.names, o)
			d.ops = append(d.ops, o)
		}
	case "remove":
		for q, ino := range d.names {
			if q == p || strings.HasPrefix(q, p+"/") {
				o := nsOp{from: q, ino: ino}
				d.ops = append(d.ops, o)
				d.apply(d.names, o)
				still := ""
				for r, i := range d.names {
					if i == ino {
						still = r
					}
				}
				ino.path = still
			}
		}
	}
}

func (d *disk) apply(m map[string]*inode, o nsOp) {
	if o.from != "" {
		delete(m, o.from)
	}
	if o.to != "" {
		m[o.to] = o.ino
	}
}

func (d *disk) read(ino *inode) {
	if ino.path == "" {
		return
	}
	if b, err := os.ReadFile(ino.path); err == nil {
		ino.last = b
		ino.sizes[len(b)] = true
	}
}

func (d *disk) refresh() {
	for _, ino := range d.names {
		d.read(ino)
	}
}

// before an operation (and at the end): all states a power loss could leave now.
func (d *disk) point() {
	// contents are about to be lost with a name
	d.refresh()
	d.points++
	for n := 0; n <= len(d.ops); n++ {
		m := map[string]*inode{}
		for k, v := range d.base {
			m[k] = v
		}
		for _, o := range d.ops[:n] {
			d.apply(m, o)
		}
		d.enumerate(m)
	}
}

func (d *disk) enumerate(m map[string]*inode) {
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	var opts [][][]byte
	total := 1
	for _, n := range names {
		v := variants(m[n])
		opts = append(opts, v)
		if total < 1<<20 {
			total *= len(v)
		}
	}
	emit := func(pick []int) {
		h := fnv.New64a()
		for i, n := range names {
			h.Write([]byte(n))
			h.Write([]byte{0})
			h.Write(opts[i][pick[i]])
			h.Write([]byte{1, byte(len(opts[i][pick[i]])), byte(len(opts[i][pick[i]]) >> 8)})
		}
		if d.seen[h.Sum64()] {
			return
		}
		d.seen[h.Sum64()] = true
		files := map[string][]byte{}
		for i, n := range names {
			files[n] = opts[i][pick[i]]
		}
		d.states(files)
	}
	pick := make([]int, len(names))
	if total > 4096 {
		// one file at a time, the others as they are or as last synced
		d.capped = true
		for _, other := range []int{0, -1} {
			for i := range names {
				for k := range opts[i] {
					for j := range names {
						pick[j] = 0
						if other < 0 {
							pick[j] = len(opts[j]) - 1
						}
					}
					pick[i] = k
					emit(pick)
				}
			}
		}
		return
	}
	for {
		emit(pick)
		i := 0
		for i < len(pick) {
			if pick[i]++; pick[i] < len(opts[i]) {
				break
			}
			pick[i] = 0
			i++
		}
		if i == len(pick) {
			return
		}
	}
}

// variants of a file: first as last synced, last as it is.
func variants(ino *inode) [][]byte {
	cur := ino.last
	var sizes []int
	for s := range ino.sizes {
		sizes = append(sizes, s)
	}
	sort.Ints(sizes)
	var out [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	add(ino.durable)
	for _, s := range sizes {
		at := func(b []byte, i int) byte {
			if i < len(b) {
				return b[i]
			}
			return 0
		}
		var dirty []int
		for o := 0; o < s; o += sector {
			for i := o; i < o+sector && i < s; i++ {
				if at(cur, i) != at(ino.durable, i) {
					dirty = append(dirty, o)
					break
				}
			}
		}
		if len(dirty) > 10 {
			dirty = dirty[:10]
		}
		for set := 0; set < 1<<uint(len(dirty)); set++ {
			b := make([]byte, s)
			for i := range b {
				b[i] = at(ino.durable, i)
			}
			for k, o := range dirty {
				if set>>uint(k)&1 == 1 {
					for i := o; i < o+sector && i < s; i++ {
						b[i] = at(cur, i)
					}
				}
			}
			add(b)
		}
	}
	return out
}
