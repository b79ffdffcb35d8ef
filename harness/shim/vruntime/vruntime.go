//go:build go1.25

// Package vruntime stands in for package runtime: inside an execution finalizers are only recorded.
package vruntime

import (
	"reflect"
	"runtime"

	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// SetFinalizer sets a finalizer.
func SetFinalizer(obj, finalizer any) {
	var run func()
	if finalizer != nil {
		run = func() { reflect.ValueOf(finalizer).Call([]reflect.Value{reflect.ValueOf(obj)}) }
	}
	if !vrt.Finalizer(obj, run) {
		runtime.SetFinalizer(obj, finalizer)
	}
}

// Cleanup is a handle of a cleanup.
type Cleanup struct {
	c   runtime.Cleanup
	key *int
}

// Stop cancels it.
func (c Cleanup) Stop() {
	if c.key != nil {
		vrt.Finalizer(c.key, nil)
		return
	}
	c.c.Stop()
}

// AddCleanup attaches a cleanup.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {
	key := new(int)
	if vrt.Finalizer(key, func() { cleanup(arg) }) {
		return Cleanup{key: key}
	}
	return Cleanup{c: runtime.AddCleanup(ptr, cleanup, arg)}
}

// Gosched yields.
func Gosched() { vrt.Yield() }
