//go:build go1.25

// Package mcx holds what the model checking programs share: clients of separate
// processes, their epoch data, and the contents of storage directories.
package mcx

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
	_ "github.com/sencha-dev/powkit/internal/vh/proc" // the copies
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// Chain is a tiny chain.
func Chain(name string, l1 bool) ref.Chain {
	n := 0
	if l1 {
		n = 64
	}
	c := pk.Tiny(name, n)
	c.DatasetInit, c.DatasetG = 1<<12, 1<<10
	c.CacheInit, c.CacheG = 512, 256
	c.Rounds, c.Parents = 1, 2
	return c
}

// Client is an epoch data holder of some process.
type Client struct {
	Proc  int
	Chain ref.Chain
	V     reflect.Value
}

// Data is what a request returned.
type Data struct {
	Epoch uint64
	V     reflect.Value
	Cache []uint32
	L1    []uint32
}

// Config builds a configuration.
func Config(c ref.Chain, dir string, count int, lock bool) dag.Config {
	cfg := pk.Config(c, dir)
	cfg.CachesCount = count
	cfg.CachesLockMmap = lock
	return cfg
}

// New makes a client in process k.
func New(k int, c ref.Chain, dir string, count int, lock bool) *Client {
	src := reflect.ValueOf(Config(c, dir, count, lock))
	v := vrt.NewIn(k, func(cfg any) {
		dst := reflect.ValueOf(cfg).Elem()
		for i := 0; i < src.NumField(); i++ {
			n := src.Type().Field(i).Name
			if f := dst.FieldByName(n); f.IsValid() && f.CanSet() && !src.Field(i).IsZero() {
				f.Set(src.Field(i))
			}
		}
	})
	return &Client{k, c, reflect.ValueOf(v)}
}

// Of wraps the holder inside an algorithm's client.
func Of(client any, c ref.Chain) *Client {
	return &Client{0, c, reflect.ValueOf(hx.DagOf(client))}
}

// Get requests an epoch.
func (c *Client) Get(ep uint64) *Data {
	v := c.V.MethodByName("GetCache").Call([]reflect.Value{reflect.ValueOf(ep)})[0]
	d := &Data{Epoch: ep, V: v}
	d.Cache = v.MethodByName("Cache").Call(nil)[0].Interface().([]uint32)
	d.L1 = v.MethodByName("L1").Call(nil)[0].Interface().([]uint32)
	return d
}

// Item looks up one dataset node through the lookup functions.
func (c *Client) Item(d *Data, i uint32) []uint32 {
	f := c.V.MethodByName("NewLookupFunc512").Call([]reflect.Value{d.V, reflect.ValueOf(d.Epoch)})[0]
	return f.Call([]reflect.Value{reflect.ValueOf(i)})[0].Interface().([]uint32)
}

// Warm computes the reference data of the epochs up to max, so that threads need only look at it.
func Warm(c ref.Chain, max uint64) {
	for ep := uint64(0); ep <= max; ep++ {
		pk.Ref(c, ep)
	}
}

func refOf(c ref.Chain, ep uint64) (e *pk.Epoch) {
	vrt.Quiet(func() { e = pk.Ref(c, ep) })
	return
}

// Check compares epoch data with the reference.
func (c *Client) Check(d *Data) error {
	want := refOf(c.Chain, d.Epoch)
	if err := hx.EqWords(fmt.Sprintf("epoch %d cache", d.Epoch), d.Cache, want.Cache); err != nil {
		return err
	}
	if c.Chain.L1Words > 0 {
		return hx.EqWords(fmt.Sprintf("epoch %d second-level cache", d.Epoch), d.L1, want.L1)
	}
	return nil
}

// CheckItems compares some dataset nodes.
func (c *Client) CheckItems(d *Data, idx ...uint32) error {
	want := refOf(c.Chain, d.Epoch)
	for _, i := range idx {
		if err := hx.EqWords(fmt.Sprintf("epoch %d item %d", d.Epoch, i), c.Item(d, i), want.Item(i)); err != nil {
			return err
		}
	}
	return nil
}

var seeds sync.Map

// Names of the stored files of an epoch.
func Names(c ref.Chain, ep uint64) (cache, l1 string) {
	type key struct {
		c  ref.Chain
		ep uint64
	}
	k := key{c, ep}
	v, ok := seeds.Load(k)
	if !ok {
		v = c.Seed(ep)
		seeds.Store(k, v)
	}
	s := v.([]byte)[:8]
	return fmt.Sprintf("cache-%s-R%d-%x", c.Name, c.Revision, s), fmt.Sprintf("l1-%s-R%d-%x", c.Name, c.Revision, s)
}

func image(words []uint32) []byte {
	b := make([]byte, 8+4*len(words))
	binary.LittleEndian.PutUint32(b, 0xbaddcafe)
	binary.LittleEndian.PutUint32(b[4:], 0xfee1dead)
	for i, w := range words {
		binary.LittleEndian.PutUint32(b[8+4*i:], w)
	}
	return b
}

// Images are the complete stored files of an epoch.
func Images(c ref.Chain, ep uint64) (cache, l1 []byte) {
	e := pk.Ref(c, ep)
	return image(e.Cache), image(e.L1)
}

// Store writes the complete files of an epoch.
func Store(dir string, c ref.Chain, ep uint64) error {
	n, m := Names(c, ep)
	a, b := Images(c, ep)
	if err := os.WriteFile(filepath.Join(dir, n), a, 0o644); err != nil {
		return err
	}
	if c.L1Words > 0 {
		return os.WriteFile(filepath.Join(dir, m), b, 0o644)
	}
	return nil
}

type nameKey struct {
	c   ref.Chain
	max uint64
}

var (
	nameMu sync.Mutex
	named  = map[nameKey]map[string]uint64{}
)

// EpochFile tells which epoch of a chain a name stands for.
func EpochFile(c ref.Chain, name string, max uint64) (ep uint64, l1, ok bool) {
	if !strings.HasPrefix(name, "cache-"+c.Name+"-R") && !strings.HasPrefix(name, "l1-"+c.Name+"-R") {
		return 0, false, false
	}
	nameMu.Lock()
	defer nameMu.Unlock()
	k := nameKey{c, max}
	m := named[k]
	if m == nil {
		m = map[string]uint64{}
		for ep := uint64(0); ep <= max; ep++ {
			a, b := Names(c, ep)
			m[a], m[b] = ep, ep
		}
		named[k] = m
	}
	ep, ok = m[name]
	return ep, strings.HasPrefix(name, "l1-"), ok
}

// List reads a directory.
func List(dir string) map[string][]byte {
	out := map[string][]byte{}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		if e.Type().IsRegular() {
			b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			out[e.Name()] = b
		} else {
			out[e.Name()+" ("+e.Type().String()+")"] = nil
		}
	}
	return out
}

// Damages are the ways to spoil a stored file.
var Damages = []string{"zeros", "header", "half", "short", "long"}

// Damaged spoils the image of a stored file.
func Damaged(img []byte, kind string) []byte {
	img = append([]byte(nil), img...)
	switch kind {
	case "zeros": // of full size
		clear(img)
	case "header": // complete but for a bit of the header
		img[5] ^= 4
	case "half": // the first half, and room for the rest, without a header
		clear(img[:8])
		clear(img[len(img)/2:])
	case "short":
		img = img[:len(img)-64]
	case "long":
		img = append(img, img[len(img)-64:]...)
	default:
		panic(kind)
	}
	return img
}

// Spoil writes spoilt files of an epoch.
func Spoil(dir string, c ref.Chain, ep uint64, kind string) error {
	n, m := Names(c, ep)
	a, b := Images(c, ep)
	if err := os.WriteFile(filepath.Join(dir, n), Damaged(a, kind), 0o644); err != nil {
		return err
	}
	if c.L1Words > 0 {
		return os.WriteFile(filepath.Join(dir, m), Damaged(b, kind), 0o644)
	}
	return nil
}

// Complete checks that every file that bears an epoch's name is complete and correct, or as it is
// in also, and returns the other names.
func Complete(dir string, chains []ref.Chain, max uint64, also map[string][]byte) (others []string, err error) {
	l, _ := os.ReadDir(dir)
	for _, f := range l {
		n, known := f.Name(), false
		for _, c := range chains {
			ep, l1, ok := EpochFile(c, n, max)
			if !ok {
				continue
			}
			known = true
			if !f.Type().IsRegular() {
				return nil, fmt.Errorf("%s (epoch %d of %s) is no regular file", n, ep, c.Name)
			}
			b, err := os.ReadFile(filepath.Join(dir, n))
			if os.IsNotExist(err) {
				continue
			}
			x, y := Images(c, ep)
			if l1 {
				x = y
			}
			if old, ok := also[n]; ok && string(old) == string(b) {
				continue
			}
			if string(b) != string(x) {
				return nil, fmt.Errorf("file %s (epoch %d of %s) is not complete and correct: %d bytes, want %d%s", n, ep, c.Name, len(b), len(x), firstDiff(b, x))
			}
		}
		if !known {
			others = append(others, n)
		}
	}
	sort.Strings(others)
	return others, nil
}

func firstDiff(a, b []byte) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf(", differs at offset %d", i)
		}
	}
	return ""
}
