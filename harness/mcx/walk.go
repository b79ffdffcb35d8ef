//go:build go1.25

package mcx

import (
	"reflect"
	"strings"
	"sync"
	"unsafe"
)

// Block is a piece of memory reachable from a client.
type Block struct {
	Ptr uintptr
	Len int
}

// Words of a block.
func (b Block) Words() []uint32 { return unsafe.Slice((*uint32)(unsafe.Pointer(b.Ptr)), b.Len) }

// Reachable lists the distinct []uint32 that can be reached from a value, by whatever fields, maps and lists.
func Reachable(root any) []Block {
	w := walker{seen: map[visit]bool{}, blocks: map[uintptr]int{}}
	v := reflect.ValueOf(root)
	w.walk(v, 0)
	var out []Block
	for p, n := range w.blocks {
		out = append(out, Block{p, n})
	}
	return out
}

type visit struct {
	p uintptr
	t reflect.Type
}

type walker struct {
	seen   map[visit]bool
	blocks map[uintptr]int
}

var u32 = reflect.TypeOf([]uint32(nil))

func (w *walker) walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 60 {
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || w.seen[visit{v.Pointer(), t}] {
			return
		}
		w.seen[visit{v.Pointer(), t}] = true
		if strings.HasPrefix(t.Elem().PkgPath(), "os") || strings.Contains(t.Elem().PkgPath(), "internal/vh/vrt") {
			return
		}
		w.walk(v.Elem(), depth+1)
	case reflect.Interface:
		w.walk(v.Elem(), depth+1)
	case reflect.Struct:
		if v.CanAddr() {
			if t == reflect.TypeOf(sync.Map{}) {
				m := (*sync.Map)(unsafe.Pointer(v.UnsafeAddr()))
				m.Range(func(k, e any) bool {
					w.walk(reflect.ValueOf(k), depth+1)
					w.walk(reflect.ValueOf(e), depth+1)
					return true
				})
				return
			}
			if t.PkgPath() == "sync/atomic" && strings.HasPrefix(t.Name(), "Pointer[") {
				// the element type is that of the zero-length array field
				for i := 0; i < t.NumField(); i++ {
					if f := t.Field(i).Type; f.Kind() == reflect.Array && f.Elem().Kind() == reflect.Pointer {
						p := *(*unsafe.Pointer)(unsafe.Pointer(v.FieldByName("v").UnsafeAddr()))
						w.walk(reflect.NewAt(f.Elem().Elem(), p), depth+1)
					}
				}
				return
			}
		}
		if strings.Contains(t.PkgPath(), "internal/vh/vrt") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for it := v.MapRange(); it.Next(); {
			w.walk(it.Key(), depth+1)
			w.walk(it.Value(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() || v.Len() == 0 {
			return
		}
		if t.Elem() == u32.Elem() {
			if v.Len() > w.blocks[v.Pointer()] {
				w.blocks[v.Pointer()] = v.Len()
			}
			return
		}
		if scalar(t.Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	case reflect.Array:
		if scalar(t.Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	}
}

func scalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice, reflect.Array:
		return false
	}
	return true
}
