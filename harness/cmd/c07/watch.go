//go:build go1.25

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// watch judges every storage operation by what it is about to do.
type watch struct {
	root, dir string
	chains    []ref.Chain
	clients   []client
	x         *vrt.Exec
	own       map[string]int // path of a temporary file or directory -> 1 + process
	files     map[int]int    // number of an open file that was created -> 1 + process
	gen       []generated
	points    int64
	max       uint64
	paths     map[int]string    // of files that were created, when they were
	old       map[string][]byte // spoilt files there from the start
	public    map[int]bool      // files that have had an epoch's name
}

type generated struct {
	proc, chain int
	ep          uint64
	l1          bool
}

func newWatch(x *vrt.Exec, root, dir string, chains []ref.Chain, clients []client) *watch {
	w := &watch{root: root, dir: dir, chains: chains, clients: clients, x: x, own: map[string]int{}, files: map[int]int{}, paths: map[int]string{}, public: map[int]bool{}, max: maxEpoch}
	x.OnOp = func(op *vrt.Op) { vrt.Quiet(func() { w.before(op) }) }
	x.OnEffect = func(op *vrt.Op) { vrt.Quiet(func() { w.after(op) }) }
	return w
}

// intact: at every moment each file visible under an epoch's name is complete and correct.
func (w *watch) intact() error {
	w.points++
	_, err := mcx.Complete(w.dir, w.chains, w.max, w.old)
	return err
}

func (w *watch) fail(op *vrt.Op, format string, a ...any) {
	rel, _ := filepath.Rel(w.root, op.Path)
	what := op.Kind + " " + rel
	if op.Path2 != "" {
		rel, _ := filepath.Rel(w.root, op.Path2)
		what += " to " + rel
	}
	w.x.Failf("process %d: %s: %s", op.Proc, what, fmt.Sprintf(format, a...))
}

func exists(p string) bool { _, err := os.Lstat(p); return err == nil }

// epochOf tells whose epoch a path stands for.
func (w *watch) epochOf(p string) (chain int, ep uint64, l1, ok bool) {
	if filepath.Dir(p) != w.dir {
		return
	}
	for i, c := range w.chains {
		if ep, l1, ok := mcx.EpochFile(c, filepath.Base(p), w.max); ok {
			return i, ep, l1, true
		}
	}
	return
}

// wants tells whether a process may generate an epoch.
func (w *watch) wants(proc, chain int, ep uint64) bool {
	for _, c := range w.clients {
		if c.Proc == proc && c.Chain == chain {
			for _, r := range c.Reqs {
				if ep == r || ep == r+1 {
					return true
				}
			}
		}
	}
	return false
}

// outdated tells whether a process may remove an epoch.
func (w *watch) outdated(proc, chain int, ep uint64) bool {
	for _, c := range w.clients {
		if c.Proc == proc && c.Chain == chain {
			for _, r := range c.Reqs {
				if r+1 >= ep+uint64(c.Count) {
					return true
				}
			}
		}
	}
	return false
}

func (w *watch) inside(p string) bool { return strings.HasPrefix(p, w.dir+"/") }

func (w *watch) before(op *vrt.Op) {
	if !op.Mutates {
		return
	}
	mine := w.own[op.Path] == op.Proc+1 || op.File != 0 && w.files[op.File] == op.Proc+1
	switch op.Kind {
	case "mkdir":
		if exists(op.Path) || op.Path == w.dir || strings.HasPrefix(w.dir, op.Path+"/") || w.inside(op.Path) {
			return
		}
		w.fail(op, "makes a directory of its own")
	case "create", "open":
		if exists(op.Path) {
			if !mine && op.Flag&os.O_EXCL == 0 {
				w.fail(op, "opens an existing file that is not its own for writing")
			}
			return
		}
		if !w.inside(op.Path) {
			w.fail(op, "creates a file outside of the directory")
		}
	case "truncate", "write", "map", "chmod", "chtimes":
		if op.Path == "" && op.File == 0 {
			return // anonymous memory
		}
		if !mine {
			if c, ep, _, ok := w.epochOf(op.Path); ok && (op.Kind == "chmod" || op.Kind == "chtimes") && w.wants(op.Proc, c, ep) {
				return
			}
			w.fail(op, "changes a file that is not its own")
		}
	case "rename", "link":
		if !mine {
			w.fail(op, "takes a file that is not its own")
			return
		}
		c, ep, _, ok := w.epochOf(op.Path2)
		if !ok {
			if !w.inside(op.Path2) || exists(op.Path2) && w.own[op.Path2] != op.Proc+1 {
				w.fail(op, "creates or replaces something that is not its own")
			}
			return
		}
		if !w.wants(op.Proc, c, ep) {
			w.fail(op, "stores epoch %d of %s (revision %d), which it was not asked for", ep, w.chains[c].Name, w.chains[c].Revision)
		}
	case "remove":
		if !exists(op.Path) || mine {
			return
		}
		c, ep, l1, ok := w.epochOf(op.Path)
		if !ok {
			w.fail(op, "removes what is not its own")
			return
		}
		if w.outdated(op.Proc, c, ep) {
			return
		}
		if w.wants(op.Proc, c, ep) {
			a, b := mcx.Images(w.chains[c], ep)
			if l1 {
				a = b
			}
			if got, err := os.ReadFile(op.Path); err != nil || string(got) != string(a) {
				return // an unusable file of its own
			}
		}
		w.fail(op, "removes epoch %d of %s (revision %d), which is not its own or not old enough", ep, w.chains[c].Name, w.chains[c].Revision)
	case "unmap", "flush", "sync", "munlock":
	default:
		w.fail(op, "an operation of no use here")
	}
}

func (w *watch) after(op *vrt.Op) {
	if !op.Effect {
		return
	}
	switch op.Kind {
	case "create":
		if _, _, _, ok := w.epochOf(op.Path); !ok {
			w.own[op.Path] = op.Proc + 1
		}
		w.files[op.File] = op.Proc + 1
		w.paths[op.File] = op.Path
	case "mkdir":
		if op.Path != w.dir && w.inside(op.Path) {
			w.own[op.Path] = op.Proc + 1
		}
	case "remove":
		delete(w.own, op.Path)
	case "rename", "link":
		if op.Kind == "rename" {
			delete(w.own, op.Path)
		}
		if c, ep, l1, ok := w.epochOf(op.Path2); ok {
			w.gen = append(w.gen, generated{op.Proc, c, ep, l1})
		} else {
			w.own[op.Path2] = op.Proc + 1
		}
	}
	// what is visible has not changed if only a file was touched that never had an epoch's name
	visible := w.public[op.File]
	for _, p := range []string{op.Path, op.Path2} {
		if _, _, _, ok := w.epochOf(p); ok {
			visible = true
		}
	}
	if !visible {
		return
	}
	if op.Kind == "rename" || op.Kind == "link" {
		for f, p := range w.paths {
			if p == op.Path {
				w.public[f] = true
			}
		}
	}
	if err := w.intact(); err != nil {
		w.x.Failf("after process %d: %s %s: %v", op.Proc, op.Kind, op.Path, err)
	}
}
