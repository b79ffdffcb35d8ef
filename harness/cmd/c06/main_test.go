//go:build go1.25

// C06: incomplete or foreign cache files are never used.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/mc"
	"github.com/sencha-dev/powkit/internal/vh/mcx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// state of a stored file.
type state struct {
	Kind string `json:"k"`
	N    int    `json:"n,omitempty"`
}

type fileCase struct {
	Size  int // 0: small, 1: larger than a page
	Cache state
	L1    state
	HasL1 bool
	Lock  bool
	Count int
	Epoch uint64
	Algo  string
}

func chainOf(c fileCase) ref.Chain {
	ch := mcx.Chain("T", c.HasL1)
	if c.Size == 1 {
		ch.CacheInit, ch.CacheG = 4608, 640
		if c.HasL1 {
			ch.L1Words = 1104
		}
	}
	if c.Algo != "" {
		a := algoOf(c.Algo)
		ch.L1Words, ch.Mix = a.L1, a.Mix
	}
	return ch
}

func algoOf(n string) *pk.Algo {
	for _, a := range []*pk.Algo{pk.EthashAlgo, pk.KawpowAlgo, pk.FiropowAlgo, pk.OctopusAlgo} {
		if a.Name == n {
			return a
		}
	}
	panic(n)
}

// put lays a file down and tells whether a complete one can stand there afterwards.
func put(root, path string, image []byte, other []byte, s state) (possible bool, err error) {
	possible = true
	aside := filepath.Join(root, "aside-"+filepath.Base(path))
	write := func(p string, b []byte) { err = os.WriteFile(p, b, 0o644) }
	img := append([]byte(nil), image...)
	switch s.Kind {
	case "absent":
	case "good":
		write(path, img)
	case "prefix": // right content of another length
		for len(img) < s.N {
			img = append(img, byte(len(img)))
		}
		write(path, img[:s.N])
	case "zeros":
		write(path, make([]byte, s.N))
	case "header": // right header, zeros of another length
		b := make([]byte, max(s.N, 8))
		copy(b, img[:8])
		write(path, b[:s.N])
	case "bit":
		img[s.N/8] ^= 1 << uint(s.N%8)
		write(path, img)
	case "byte":
		img[s.N/256] = byte(s.N)
		write(path, img)
	case "swapped":
		for i := 0; i < 8; i += 4 {
			img[i], img[i+1], img[i+2], img[i+3] = img[i+3], img[i+2], img[i+1], img[i]
		}
		write(path, img)
	case "exchanged":
		copy(img, append(append([]byte(nil), img[4:8]...), img[:4]...))
		write(path, img)
	case "headless": // the data alone
		write(path, img[8:])
	case "headless-long":
		write(path, append(img[8:], make([]byte, 8)...))
	case "other": // the file of another epoch
		write(path, other)
	case "twice":
		write(path, append(img, img...))
	case "sparse": // very long
		write(path, img)
		if err == nil {
			err = os.Truncate(path, 1<<30)
		}
	case "dir":
		possible = false
		err = os.Mkdir(path, 0o755)
	case "fulldir":
		possible = false
		if err = os.Mkdir(path, 0o755); err == nil {
			write(filepath.Join(path, "x"), img)
		}
	case "fifo":
		err = syscall.Mkfifo(path, 0o644)
	case "socket":
		var fd int
		if fd, err = syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0); err == nil {
			err = syscall.Bind(fd, &syscall.SockaddrUnix{Name: path})
			syscall.Close(fd)
		}
	case "link-good":
		write(aside, img)
		os.Symlink(aside, path)
	case "link-short":
		write(aside, img[:len(img)-4])
		os.Symlink(aside, path)
	case "link-dangling":
		os.Symlink(aside, path)
	case "link-loop":
		os.Symlink(path, path)
	case "link-dir":
		os.Mkdir(aside, 0o755)
		os.Symlink(aside, path)
	case "link-null":
		os.Symlink("/dev/null", path)
	case "link-zero":
		os.Symlink("/dev/zero", path)
	case "hard": // another name of a short file
		write(aside, img[:len(img)-4])
		os.Link(aside, path)
	case "unreadable":
		write(path, img[:len(img)-1])
		os.Chmod(path, 0)
	default:
		panic(s.Kind)
	}
	return
}

func run(e *mc.Env, x *vrt.Exec, c fileCase) error {
	ch := chainOf(c)
	ep := c.Epoch
	mcx.Warm(ch, ep+2)
	dir := filepath.Join(e.Dir, "d")
	if err := os.Mkdir(dir, 0o755); err != nil {
		return err
	}
	a, b := mcx.Names(ch, ep)
	ia, ib := mcx.Images(ch, ep)
	oa, ob := mcx.Images(ch, ep+1)
	pa, pb := filepath.Join(dir, a), filepath.Join(dir, b)
	okA, err := put(e.Dir, pa, ia, oa, c.Cache)
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	okB := false
	if c.HasL1 || c.Algo != "" && ch.L1Words > 0 {
		if okB, err = put(e.Dir, pb, ib, ob, c.L1); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	aside := snapshot(e.Dir)
	for round := 0; round < 2; round++ {
		var err error
		x.Spawn(round, fmt.Sprint("run", round), func() {
			if c.Algo != "" {
				al := algoOf(c.Algo)
				cl := al.New(mcx.Config(ch, dir, c.Count, c.Lock))
				hash := bytes.Repeat([]byte{3}, 32)
				var got [][]byte
				if got, err = al.Call(cl, hash, ep*ch.EpochLen+2, 77); err == nil {
					for i, w := range al.Ref(ch, hash, ep*ch.EpochLen+2, 77) {
						if err = hx.EqBytes(fmt.Sprint("output ", i), got[i], w); err != nil {
							return
						}
					}
				}
				return
			}
			cl := mcx.New(round, ch, dir, c.Count, c.Lock)
			d := cl.Get(ep)
			if err = cl.Check(d); err == nil {
				err = cl.CheckItems(d, 1)
			}
		})
		if e := x.Wait(); e != nil {
			return fmt.Errorf("run %d: %w", round, e)
		}
		if err != nil {
			return fmt.Errorf("run %d: %w", round, err)
		}
		// what stands there now
		if okA {
			if err := stands(pa, ia); err != nil {
				return fmt.Errorf("run %d: %w", round, err)
			}
		}
		if okB {
			if err := stands(pb, ib); err != nil {
				return fmt.Errorf("run %d: %w", round, err)
			}
		}
		x.Finalize(round)
		vrt.Cleanup()
	}
	for n, b := range snapshot(e.Dir) {
		if aside[n] != b {
			return fmt.Errorf("%s outside of the storage directory was changed", n)
		}
	}
	return nil
}

// again: a client that dropped the epoch from memory asks for it again, while something else stands in its place.
func again(e *mc.Env, x *vrt.Exec, c fileCase) error {
	ch := chainOf(c)
	mcx.Warm(ch, 6)
	dir := filepath.Join(e.Dir, "d")
	if err := os.Mkdir(dir, 0o755); err != nil {
		return err
	}
	a, b := mcx.Names(ch, c.Epoch)
	ia, ib := mcx.Images(ch, c.Epoch)
	oa, ob := mcx.Images(ch, c.Epoch+1)
	pa, pb := filepath.Join(dir, a), filepath.Join(dir, b)
	cl := mcx.New(0, ch, dir, 3, c.Lock)
	get := func(eps ...uint64) (err error) {
		x.Spawn(0, "requests", func() {
			for _, ep := range eps {
				d := cl.Get(ep)
				if err = cl.Check(d); err != nil {
					return
				}
				if err = cl.CheckItems(d, 1); err != nil {
					return
				}
			}
		})
		if e := x.Wait(); e != nil {
			return e
		}
		return
	}
	if err := get(2, 1, 0, 3); err != nil { // 2 is dropped, its file remains
		return err
	}
	for round := 0; round < 2; round++ {
		okA, okB := false, false
		for _, f := range []struct {
			p  string
			i  []byte
			o  []byte
			s  state
			ok *bool
		}{{pa, ia, oa, c.Cache, &okA}, {pb, ib, ob, c.L1, &okB}} {
			if f.p == pb && !c.HasL1 {
				continue
			}
			if err := os.RemoveAll(f.p); err != nil {
				return err
			}
			os.RemoveAll(filepath.Join(e.Dir, "aside-"+filepath.Base(f.p)))
			var err error
			if *f.ok, err = put(e.Dir, f.p, f.i, f.o, f.s); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
		}
		if err := get(2, 2); err != nil {
			return err
		}
		if okA {
			if err := stands(pa, ia); err != nil {
				return err
			}
		}
		if okB {
			if err := stands(pb, ib); err != nil {
				return err
			}
		}
		if err := get(1, 0, 3); err != nil { // dropped once more
			return err
		}
	}
	return nil
}

func stands(path string, image []byte) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return fmt.Errorf("no complete file stands in place afterwards: %w", err)
	}
	if !bytes.Equal(b, image) {
		return fmt.Errorf("no complete file stands in place afterwards: %s has %d bytes, want %d", filepath.Base(path), len(b), len(image))
	}
	return nil
}

func snapshot(dir string) map[string]string {
	m := map[string]string{}
	for n, b := range mcx.List(dir) {
		m[n] = string(b)
	}
	return m
}

func TestMain_(t *testing.T) {
	mc.Main(t, "C06", func(r *hx.Run) []any {
		cfg := func(c fileCase) vrt.Cfg { return vrt.Cfg{} }
		good, absent := state{Kind: "good"}, state{Kind: "absent"}
		var odd []state
		for _, k := range []string{"absent", "good", "swapped", "exchanged", "headless", "headless-long", "other", "twice", "sparse", "dir", "fulldir", "fifo", "socket",
			"link-good", "link-short", "link-dangling", "link-loop", "link-dir", "link-null", "link-zero", "hard", "unreadable"} {
			odd = append(odd, state{Kind: k})
		}
		size := func(c fileCase, l1 bool) int {
			a, b := mcx.Images(chainOf(c), c.Epoch)
			if l1 {
				return len(b)
			}
			return len(a)
		}
		return []any{
			mc.M(mc.Model[fileCase]{
				Name: "lengths", Run: run, Cfg: cfg,
				Rule: "every length from 0 to 40 bytes beyond the full size (0 to more than a page and a half for a larger epoch), as a prefix of the right content, as zeros, and as zeros behind the right header, for the epoch file and for the second-level file",
				Gen: func(yield func(fileCase) bool) {
					for _, sz := range []int{0, 1} {
						for _, l1 := range []bool{false, true} {
							for _, lock := range []bool{false, true} {
								base := fileCase{Size: sz, HasL1: true, Lock: lock, Count: 3, Epoch: uint64(sz), Cache: good, L1: good}
								full := size(base, l1)
								top := full + 40
								if sz == 1 {
									top = max(top, 6200)
								}
								for _, k := range []string{"prefix", "zeros", "header"} {
									if lock && k != "prefix" {
										continue
									}
									for n := 0; n <= top; n++ {
										if n == full && k == "header" {
											continue // cannot be told from a complete file
										}
										if sz == 1 && !r.Thorough() && n%4 > 1 && n%512 > 16 && n%4096 > 64 && (n < full-64 || n > full+64) {
											continue
										}
										c := base
										if l1 {
											c.L1 = state{k, n}
										} else {
											c.Cache = state{k, n}
										}
										if !yield(c) {
											return
										}
									}
								}
							}
						}
					}
				},
			}),
			mc.M(mc.Model[fileCase]{
				Name: "headers", Run: run, Cfg: cfg,
				Rule: "every single-bit corruption and every wrong byte value of the eight header bytes, for both files",
				Gen: func(yield func(fileCase) bool) {
					for _, l1 := range []bool{false, true} {
						for n := 0; n < 64+2048; n++ {
							s := state{"bit", n}
							if n >= 64 {
								s = state{"byte", n - 64}
								if a, _ := mcx.Images(chainOf(fileCase{}), 0); a[(n-64)/256] == byte(n-64) {
									continue
								}
							}
							c := fileCase{HasL1: true, Count: 3, Cache: good, L1: good}
							if l1 {
								c.L1 = s
							} else {
								c.Cache = s
							}
							if !yield(c) {
								return
							}
						}
					}
				},
			}),
			mc.M(mc.Model[fileCase]{
				Name: "foreign", Run: run, Cfg: cfg,
				Rule: "every pair of 22 states of the two files (absent, good, bytes or words of the header exchanged, data without header, the file of another epoch, doubled, 1 GiB long, directories, pipe, socket, links to a good and a short file, to nothing, to itself, to a directory, to devices, a second name of a short file, unreadable), with memory locking and without",
				Gen: func(yield func(fileCase) bool) {
					for _, s := range odd {
						for _, u := range odd {
							if u.Kind == "other" {
								continue // as long as the right one, so it cannot be told from it
							}
							for _, lock := range []bool{false, true} {
								if lock && (s.Kind == "sparse" || u.Kind == "sparse") {
									continue
								}
								for _, ep := range []uint64{0, 2} {
									if !yield(fileCase{Cache: s, L1: u, HasL1: true, Lock: lock, Count: 3, Epoch: ep}) {
										return
									}
								}
							}
						}
						if !yield(fileCase{Cache: s, Count: 3, Epoch: 1}) {
							return
						}
					}
				},
			}),
			mc.M(mc.Model[fileCase]{
				Name: "again", Run: again, Cfg: cfg,
				Rule: "the same pairs, put in the place of the files between two requests of one client that drops the epoch from memory in between, twice",
				Gen: func(yield func(fileCase) bool) {
					for _, s := range odd {
						for _, u := range odd {
							if u.Kind == "other" || s.Kind == "sparse" && u.Kind == "sparse" {
								continue
							}
							if !yield(fileCase{Cache: s, L1: u, HasL1: true, Epoch: 2}) {
								return
							}
						}
						if !yield(fileCase{Cache: s, Epoch: 2}) {
							return
						}
					}
				},
			}),
			mc.M(mc.Model[fileCase]{
				Name: "clients", Run: run, Cfg: cfg,
				Rule: "the same states of each file, one at a time, and short, long and odd lengths, through Compute of the four DAG algorithms",
				Gen: func(yield func(fileCase) bool) {
					for _, a := range []string{"ethash", "kawpow", "firopow", "octopus"} {
						l := append([]state{}, odd...)
						for _, n := range []int{0, 1, 4, 7, 8, 9, 12, 100, 436, 440, 441, 445, 448, 449, 452, 455, 457, 460, 512, 4096, 8192, 16384, 16388, 16391, 16393, 16396, 20480} {
							l = append(l, state{"prefix", n}, state{"zeros", n})
						}
						for _, s := range l {
							for _, l1 := range []bool{false, true} {
								c := fileCase{Algo: a, Count: 3, Cache: good, L1: good}
								if l1 {
									if algoOf(a).L1 == 0 || s.Kind == "other" {
										continue
									}
									c.L1 = s
								} else {
									c.Cache = s
									if s.Kind == "good" {
										c.L1 = absent
									}
								}
								if !yield(c) {
									return
								}
							}
						}
					}
				},
			}),
		}
	})
}
