//go:build go1.23

// C21: the table generator emits every requested epoch, and what is committed.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

type genCase struct {
	Package     string
	Epochs      int // -1: the default
	Mix, CI, CG uint64
	DI, DG      uint64
	Old         int  `json:",omitempty"` // bytes of a file of that name that is there before
	Reverse     bool `json:",omitempty"` // flags given in the opposite order
}

var gen = os.Getenv("VERIF_GENLOOKUP")

func run(r *hx.Run, args []string, name string, old int) (map[string][]byte, error) {
	dir, err := os.MkdirTemp(r.Scratch, "gen")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	if old > 0 {
		if err := os.WriteFile(filepath.Join(dir, name), bytes.Repeat([]byte("var x = 1\n"), old/10+1)[:old], 0644); err != nil {
			return nil, err
		}
	}
	cmd := exec.Command(gen, args...)
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("gen-lookup %s: %v: %s", strings.Join(args, " "), err, out)
	}
	files := map[string][]byte{}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		files[e.Name()] = b
	}
	return files, nil
}

// tables parses a generated file into its slices, in order.
func tables(src []byte, pkg string) (names []string, vals map[string][]uint64, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return nil, nil, fmt.Errorf("not valid Go: %v", err)
	}
	if f.Name.Name != pkg {
		return nil, nil, fmt.Errorf("package %q, want %q", f.Name.Name, pkg)
	}
	if _, err := (&types.Config{}).Check(pkg, fset, []*ast.File{f}, nil); err != nil {
		return nil, nil, fmt.Errorf("does not type-check: %v", err)
	}
	vals = map[string][]uint64{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok || len(v.Values) != 1 {
				continue
			}
			lit, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				continue
			}
			l := []uint64{}
			for _, e := range lit.Elts {
				b, ok := e.(*ast.BasicLit)
				if !ok {
					return nil, nil, fmt.Errorf("%s: element that is no number", v.Names[0].Name)
				}
				n, err := strconv.ParseUint(b.Value, 0, 64)
				if err != nil {
					return nil, nil, err
				}
				l = append(l, n)
			}
			names = append(names, v.Names[0].Name)
			vals[v.Names[0].Name] = l
		}
	}
	return
}

func checkTables(src []byte, pkg string, epochs int, c ref.Chain) error {
	_, vals, err := tables(src, pkg)
	if err != nil {
		return err
	}
	if len(vals) != 2 {
		return fmt.Errorf("%d tables, want 2", len(vals))
	}
	for name, size := range map[string]func(uint64) uint64{"cacheSizes": c.CacheSize, "datasetSizes": c.DatasetSize} {
		l, ok := vals[name]
		if !ok {
			return fmt.Errorf("no table %s", name)
		}
		if len(l) != epochs {
			return fmt.Errorf("%s has %d entries, want %d", name, len(l), epochs)
		}
		for e, v := range l {
			if x := size(uint64(e)); v != x {
				return fmt.Errorf("%s[%d] is %d, want %d", name, e, v, x)
			}
		}
	}
	return nil
}

// sameTables compares what two files declare: comments and layout do not count.
func sameTables(got, want []byte) error {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", want, parser.PackageClauseOnly)
	if err != nil {
		return err
	}
	_, a, err := tables(got, f.Name.Name)
	if err != nil {
		return err
	}
	_, b, err := tables(want, f.Name.Name)
	if err != nil {
		return fmt.Errorf("committed file: %v", err)
	}
	for name, w := range b {
		g := a[name]
		if len(g) != len(w) {
			return fmt.Errorf("%s: %d values generated, %d committed", name, len(g), len(w))
		}
		for i := range w {
			if g[i] != w[i] {
				return fmt.Errorf("%s[%d]: %d generated, %d committed", name, i, g[i], w[i])
			}
		}
	}
	for name := range a {
		if b[name] == nil {
			return fmt.Errorf("%s is generated but not committed", name)
		}
	}
	return nil
}

func evalGen(w *hx.W, c genCase) (bool, error) {
	f := func(n string, v uint64) []string { return []string{"-" + n, strconv.FormatUint(v, 10)} }
	flags := [][]string{{"-package", c.Package}}
	n := c.Epochs
	if n < 0 {
		n = 2048
	} else {
		flags = append(flags, f("epochs", uint64(n)))
	}
	flags = append(flags, f("mixBytes", c.Mix), f("cacheInit", c.CI), f("cacheGrowth", c.CG), f("datasetInit", c.DI), f("datasetGrowth", c.DG))
	var args []string
	for i := range flags {
		if c.Reverse {
			args = append(args, flags[len(flags)-1-i]...)
		} else {
			args = append(args, flags[i]...)
		}
	}
	files, err := run(w.R, args, c.Package+"_lookup.go", c.Old)
	if err != nil {
		return true, err
	}
	if len(files) != 1 || files[c.Package+"_lookup.go"] == nil {
		return true, fmt.Errorf("wrote %d files, want just %s_lookup.go", len(files), c.Package)
	}
	w.Add(int64(2*n), int64(2*n))
	return true, checkTables(files[c.Package+"_lookup.go"], c.Package, n, ref.Chain{CacheInit: c.CI, CacheG: c.CG, DatasetInit: c.DI, DatasetG: c.DG, Mix: c.Mix})
}

type committed struct{ File, Line string }

// recorded finds the generator calls recorded in the algorithm packages.
func recorded() (out []committed) {
	root := os.Getenv("POWKIT_REPO")
	l, _ := filepath.Glob(filepath.Join(root, "*", "*.go"))
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(line, "//go:generate ") && strings.Contains(line, "gen-lookup ") {
				rel, _ := filepath.Rel(root, f)
				out = append(out, committed{rel, line})
			}
		}
	}
	return
}

func main() {
	hx.Main("C21", "exploration", func(r *hx.Run) {
		params := []genCase{
			{Package: "ethash", Mix: 128, CI: 1 << 24, CG: 1 << 17, DI: 1 << 30, DG: 1 << 23},
			{Package: "firopow", Mix: 128, CI: 1 << 24, CG: 1 << 17, DI: 3 << 29, DG: 1 << 23},
			{Package: "octopus", Mix: 256, CI: 1 << 24, CG: 1 << 16, DI: 1 << 32, DG: 1 << 24},
			{Package: "x", Mix: 64, CI: 1 << 10, CG: 1 << 7, DI: 1 << 12, DG: 1 << 9},
			{Package: "some_name2", Mix: 512, CI: 1 << 20, CG: 0, DI: 1 << 20, DG: 1 << 10},
		}
		hx.Explore(r, hx.Suite[genCase]{
			Name: "generate",
			Rule: "five parameter sets: every number of epochs 0.." + hx.Pick(r, "128", "1100") + ", around 2048 and 4096, and the default number",
			Gen: func(yield func(genCase) bool) {
				var ns []int
				for n := 0; n <= hx.Pick(r, 128, 1100); n++ {
					ns = append(ns, n)
				}
				ns = append(ns, 253, 254, 255, 256, 257, 511, 512, 999, 1000, 1001, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2051, 4095, 4096, 4097, -1)
				for _, n := range ns {
					for _, p := range params {
						p.Epochs = n
						if !yield(p) {
							return
						}
					}
				}
			},
			Eval: evalGen,
		})
		hx.Explore(r, hx.Suite[genCase]{
			Name: "sizes",
			Rule: "initial sizes 2^10..2^34 with growths 2^9..2^24 and items of 64 to 512 bytes, 23 epochs each",
			Gen: func(yield func(genCase) bool) {
				for ci := uint(10); ci <= 34; ci += uint(hx.Pick(r, 3, 1)) {
					for g := uint(10); g <= 24; g += uint(hx.Pick(r, 3, 1)) {
						for _, mix := range []uint64{64, 128, 256, 512} {
							if !yield(genCase{Package: "p", Epochs: 23, Mix: mix, CI: 1 << ci, CG: 1 << g, DI: 1 << (ci + 2), DG: 1 << g}) {
								return
							}
						}
					}
				}
			},
			Eval: evalGen,
		})
		names := []string{"p", "P", "myPow", "MyPow", "MYPOW", "pow2", "Pow_2", "_pow", "x_y_z", "a1b2c3", "\u03c0ow", "main", "lookup", "cacheSizes", "uint", strings.Repeat("long", 20)}
		hx.Explore(r, hx.Suite[genCase]{
			Name: "files",
			Rule: "16 package names (capitals, digits, underscores, beyond ASCII, long), 0, 1, 5 and 12 epochs, flags in either order, with no file there before, a shorter and a longer one",
			Gen: func(yield func(genCase) bool) {
				for _, name := range names {
					for _, n := range []int{0, 1, 5, 12} {
						for _, old := range []int{0, 10, 5000} {
							for _, rev := range []bool{false, true} {
								if !yield(genCase{Package: name, Epochs: n, Mix: 128, CI: 1 << 24, CG: 1 << 17, DI: 1 << 30, DG: 1 << 23, Old: old, Reverse: rev}) {
									return
								}
							}
						}
					}
				}
			},
			Eval: evalGen,
		})
		hx.Explore(r, hx.Suite[genCase]{
			Name: "many",
			Rule: "epochs around 8192, 10000" + hx.Pick(r, "", ", 16384, 32768 and 65536"),
			Gen: func(yield func(genCase) bool) {
				for _, n := range hx.Pick(r, []int{8191, 8192, 8193, 10000}, []int{8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537}) {
					for _, p := range params[:3] {
						p.Epochs = n
						if !yield(p) {
							return
						}
					}
				}
			},
			Eval: evalGen,
		})
		cs := recorded()
		if !r.Replaying() && len(cs) < 4 {
			r.Incomplete(fmt.Sprintf("%d recorded generator calls found", len(cs)))
		}
		r.Count("recorded_generator_calls", int64(len(cs)))
		hx.Explore(r, hx.Suite[committed]{
			Name: "committed",
			Rule: "each go:generate line of the algorithm packages, run as recorded, writes the tables committed in its package: same names, same values",
			Gen:  hx.Each(cs),
			Eval: func(w *hx.W, c committed) (bool, error) {
				args := strings.Fields(c.Line)[2:]
				files, err := run(w.R, args, "", 0)
				if err != nil {
					return true, err
				}
				if len(files) != 1 {
					return true, fmt.Errorf("wrote %d files", len(files))
				}
				for n, b := range files {
					old, err := os.ReadFile(filepath.Join(os.Getenv("POWKIT_REPO"), filepath.Dir(c.File), n))
					if err != nil {
						return true, err
					}
					if err := sameTables(b, old); err != nil {
						return true, fmt.Errorf("%s: %v", n, err)
					}
				}
				return true, nil
			},
		})
	})
}
