//go:build go1.25

package vrt

import (
	"context"
	"runtime/pprof"
	"strconv"
	"unsafe"
)

// A goroutine is recognised by its (unique) set of profiler labels.
//
//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

func getg() uintptr { return uintptr(getLabel()) }

var labels []context.Context

const looseMark = 256

// mark gives the calling goroutine the n-th set of labels.
func mark(n int) {
	pprof.SetGoroutineLabels(labels[n])
}

func init() {
	for i := 0; i <= looseMark; i++ {
		labels = append(labels, pprof.WithLabels(context.Background(), pprof.Labels("thread", strconv.Itoa(i))))
	}
}
