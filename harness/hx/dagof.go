//go:build go1.23

package hx

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/sencha-dev/powkit/internal/dag"
)

// DagOf finds the epoch data holder inside a client, whatever its field is called.
func DagOf(client any) *dag.DAG {
	want := reflect.TypeOf((*dag.DAG)(nil))
	var find func(v reflect.Value, depth int) *dag.DAG
	find = func(v reflect.Value, depth int) *dag.DAG {
		if depth > 4 {
			return nil
		}
		if v.Type() == want {
			return *(**dag.DAG)(unsafe.Pointer(v.UnsafeAddr()))
		}
		if v.Type() == want.Elem() {
			return (*dag.DAG)(unsafe.Pointer(v.UnsafeAddr()))
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				return find(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if d := find(v.Field(i), depth+1); d != nil {
					return d
				}
			}
		}
		return nil
	}
	d := find(reflect.ValueOf(client).Elem(), 0)
	if d == nil {
		panic(fmt.Sprintf("no *dag.DAG inside %T", client))
	}
	return d
}
