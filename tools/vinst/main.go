// vinst writes instrumented copies of powkit's packages and prints the overlay
// entries for them.
//
// Imports of packages through which the code meets the scheduler, the clock,
// chance, the file system and mappings are redirected to stand-ins of the
// harness, `go f(x)` becomes a call of the scheduler, and before each statement
// of every function that calls something (with "leaf" in the mode: of every function) a point
// is inserted.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	module = "github.com/sencha-dev/powkit"
	shim   = module + "/internal/vh/shim/"
	vrt    = module + "/internal/vh/vrt"
	procs  = 4
)

var redirect = map[string]string{
	"os":                        "vos",
	"io/ioutil":                 "vioutil",
	"sync":                      "vsync",
	"sync/atomic":               "vatomic",
	"time":                      "vtime",
	"runtime":                   "vruntime",
	"math/rand":                 "vrand",
	"math/rand/v2":              "vrandv2",
	"github.com/edsrzf/mmap-go": "vmmap",
}

// default local name of an import, where it differs from the last element
var localName = map[string]string{"github.com/edsrzf/mmap-go": "mmap", "math/rand/v2": "rand"}

type edit struct {
	pos, end int
	text     string
	seq      int
}

// leaves: functions that call nothing get points too.
var leaves bool

var points []string // "file:line func"

var stdNames = map[string]string{}

func fail(a ...any) { fmt.Fprintln(os.Stderr, append([]any{"vinst:"}, a...)...); os.Exit(1) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mode := flag.String("mode", "shim", "")
	flag.Parse()
	leaves = strings.Contains(*mode, "leaf")
	overlay := map[string]string{}
	var files []string
	err := filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n := d.Name()
		if d.IsDir() {
			rel, _ := filepath.Rel(*repo, p)
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "cmd" || rel == "internal/vh" || n == "vendor" || n == "testutil") {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		fail(err)
	}
	sort.Strings(files)
	write := func(path string, data []byte) string {
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			fail(err)
		}
		if err := os.WriteFile(path, data, 0o644); err != nil {
			fail(err)
		}
		return path
	}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			fail(err)
		}
		rel, _ := filepath.Rel(*repo, f)
		res, changed, err := instrument(rel, src)
		if err != nil {
			fail(f, err)
		}
		dagDir := filepath.Dir(rel) == "internal/dag"
		if changed {
			overlay[filepath.Join(*repo, rel)] = write(filepath.Join(*out, rel), res)
		}
		if dagDir {
			for k := 0; k < procs; k++ {
				r := fmt.Sprintf("internal/vh/proc/p%d/dag/%s", k, filepath.Base(rel))
				overlay[filepath.Join(*repo, r)] = write(filepath.Join(*out, r), res)
			}
		}
	}
	for k := 0; k < procs; k++ {
		r := fmt.Sprintf("internal/vh/proc/p%d/dag/zz_vh_adapter.go", k)
		overlay[filepath.Join(*repo, r)] = write(filepath.Join(*out, r), []byte(fmt.Sprintf(`//go:build go1.23

package dag

import vrt_ %q

func init() {
	vrt_.RegisterProc(%d, func(fill func(cfg any)) any {
		var c Config
		fill(&c)
		return New(c)
	})
}
`, vrt, k)))
	}
	// names of the points
	r := "internal/vh/proc/points.go"
	var b strings.Builder
	b.WriteString("//go:build go1.23\n\n// Package proc links the copies of the epoch data package.\npackage proc\n\nimport (\n")
	for k := 0; k < procs; k++ {
		fmt.Fprintf(&b, "\t_ \"%s/internal/vh/proc/p%d/dag\"\n", module, k)
	}
	fmt.Fprintf(&b, "\n\tvrt_ %q\n)\n\nfunc init() {\n\tvrt_.Points = []string{\n", vrt)
	for _, p := range points {
		fmt.Fprintf(&b, "\t\t%q,\n", p)
	}
	b.WriteString("\t}\n}\n")
	overlay[filepath.Join(*repo, r)] = write(filepath.Join(*out, r), []byte(b.String()))
	json.NewEncoder(os.Stdout).Encode(overlay)
}

// instrument rewrites one file.
func instrument(rel string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(pos, end int, text string) { edits = append(edits, edit{pos, end, text, len(edits)}) }
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, ok := redirect[path]
		if !ok {
			continue
		}
		local := ""
		if im.Name == nil {
			local = localName[path]
			if local == "" {
				local = path[strings.LastIndex(path, "/")+1:]
			}
			local += " "
		}
		add(off(im.Path.Pos()), off(im.Path.End()), local+strconv.Quote(shim+to))
	}
	needVrt := false
	point := func(st ast.Stmt, fn string) {
		needVrt = true
		pos := fset.Position(st.Pos())
		add(pos.Offset, pos.Offset, fmt.Sprintf("vrt_.P(%d); ", len(points)))
		points = append(points, fmt.Sprintf("%s:%d %s", rel, pos.Line, fn))
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			// function literals of package variables: goroutines only
			gos(d, off, add, &needVrt)
			continue
		}
		if fn.Body == nil {
			continue
		}
		gos(fn, off, add, &needVrt)
		if leaf(fn.Body) && !leaves || hot(rel) {
			continue
		}
		list := func(l []ast.Stmt) {
			for _, st := range l {
				switch s := st.(type) {
				case *ast.EmptyStmt:
					continue
				case *ast.BranchStmt:
					if s.Tok == token.FALLTHROUGH {
						continue
					}
				case *ast.DeclStmt:
					continue
				}
				point(st, fn.Name.Name)
			}
		}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				if len(s.List) > 0 {
					switch s.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(s.List)
			case *ast.CaseClause:
				list(s.Body)
			case *ast.CommClause:
				list(s.Body)
			}
			return true
		})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	if needVrt {
		p := off(f.Name.End())
		add(p, p, "; import vrt_ "+strconv.Quote(vrt))
	}
	sort.Slice(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		// insertions before replacements at one place, points first
		a, b := edits[i].end-edits[i].pos, edits[j].end-edits[j].pos
		if (a == 0) != (b == 0) {
			return a == 0
		}
		return edits[i].seq < edits[j].seq
	})
	var out []byte
	at := 0
	for _, e := range edits {
		if e.pos < at {
			return nil, false, fmt.Errorf("overlapping edits at offset %d", e.pos)
		}
		out = append(out, src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, src[at:]...)
	return out, true, nil
}

// gos turns go statements into scheduler calls.
func gos(n ast.Node, off func(token.Pos) int, add func(int, int, string), need *bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		g, ok := n.(*ast.GoStmt)
		if !ok {
			return true
		}
		*need = true
		name := "vrt_.GoCall("
		if g.Call.Ellipsis.IsValid() {
			name = "vrt_.GoCallSlice("
			add(off(g.Call.Ellipsis), off(g.Call.Ellipsis)+3, "")
		}
		add(off(g.Pos()), off(g.Call.Pos()), name)
		add(off(g.Call.Lparen), off(g.Call.Lparen)+1, ", ")
		return true
	})
}

// leaf tells whether a body calls nothing (conversions and builtins apart) and does not communicate.
func leaf(b *ast.BlockStmt) bool {
	res := true
	builtin := map[string]bool{"len": true, "cap": true, "append": true, "copy": true, "make": true, "new": true, "panic": true,
		"min": true, "max": true, "delete": true, "clear": true,
		"int": true, "int8": true, "int16": true, "int32": true, "int64": true, "uint": true, "uint8": true, "uint16": true, "uint32": true,
		"uint64": true, "uintptr": true, "byte": true, "rune": true, "string": true, "float64": true, "float32": true, "bool": true}
	ast.Inspect(b, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.CallExpr:
			if id, ok := c.Fun.(*ast.Ident); ok && builtin[id.Name] {
				return true
			}
			switch f := c.Fun.(type) {
			case *ast.ArrayType, *ast.ParenExpr:
				return true
			case *ast.SelectorExpr:
				if id, ok := f.X.(*ast.Ident); ok && (id.Name == "bits" || id.Name == "math") {
					return true
				}
			}
			res = false
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.DeferStmt:
			res = false
		case *ast.UnaryExpr:
			if c.Op == token.ARROW {
				res = false
			}
		}
		return res
	})
	return res
}

// hot tells the packages that never touch epoch data and only do arithmetic.
func hot(rel string) bool {
	d := filepath.ToSlash(filepath.Dir(rel))
	return strings.HasPrefix(d, "internal/common/bitutil") || strings.HasPrefix(d, "internal/common/convutil")
}
