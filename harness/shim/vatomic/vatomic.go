//go:build go1.25

// Package vatomic stands in for package sync/atomic: a scheduling point, then the real operation.
//
// Nothing else runs between the scheduling point and the next one, so the order in which an
// operation and what it tells the race detector follow one another does not matter. The detector
// has to be told, since this package is not built for it: a load acquires, a store releases,
// an exchange does both.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

func load(p unsafe.Pointer)  { vrt.Sync(); vrt.Acquire(p) }
func store(p unsafe.Pointer) { vrt.Sync(); vrt.ReleaseStore(p) }
func both(p unsafe.Pointer)  { vrt.Sync(); vrt.Acquire(p); vrt.Release(p) }

func cas(p unsafe.Pointer, op func() bool) bool {
	vrt.Sync()
	ok := op()
	vrt.Acquire(p)
	if ok {
		vrt.Release(p)
	}
	return ok
}

func AddInt32(p *int32, d int32) int32  { both(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32  { both(unsafe.Pointer(p)); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32   { both(unsafe.Pointer(p)); return atomic.OrInt32(p, m) }
func LoadInt32(p *int32) int32          { load(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { store(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { both(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	return cas(unsafe.Pointer(p), func() bool { return atomic.CompareAndSwapInt32(p, a, b) })
}

// Int32 is an atomic int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(v int32)      { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}
func (x *Int32) Add(d int32) int32 { both(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int32) And(m int32) int32 { both(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Int32) Or(m int32) int32  { both(unsafe.Pointer(x)); return x.v.Or(m) }

func AddInt64(p *int64, d int64) int64  { both(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64  { both(unsafe.Pointer(p)); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64   { both(unsafe.Pointer(p)); return atomic.OrInt64(p, m) }
func LoadInt64(p *int64) int64          { load(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { store(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { both(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	return cas(unsafe.Pointer(p), func() bool { return atomic.CompareAndSwapInt64(p, a, b) })
}

// Int64 is an atomic int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(v int64)      { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}
func (x *Int64) Add(d int64) int64 { both(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Int64) And(m int64) int64 { both(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Int64) Or(m int64) int64  { both(unsafe.Pointer(x)); return x.v.Or(m) }

func AddUint32(p *uint32, d uint32) uint32  { both(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32  { both(unsafe.Pointer(p)); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32   { both(unsafe.Pointer(p)); return atomic.OrUint32(p, m) }
func LoadUint32(p *uint32) uint32           { load(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { store(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { both(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	return cas(unsafe.Pointer(p), func() bool { return atomic.CompareAndSwapUint32(p, a, b) })
}

// Uint32 is an atomic uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}
func (x *Uint32) Add(d uint32) uint32 { both(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32 { both(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32  { both(unsafe.Pointer(x)); return x.v.Or(m) }

func AddUint64(p *uint64, d uint64) uint64  { both(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64  { both(unsafe.Pointer(p)); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64   { both(unsafe.Pointer(p)); return atomic.OrUint64(p, m) }
func LoadUint64(p *uint64) uint64           { load(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { store(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { both(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	return cas(unsafe.Pointer(p), func() bool { return atomic.CompareAndSwapUint64(p, a, b) })
}

// Uint64 is an atomic uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}
func (x *Uint64) Add(d uint64) uint64 { both(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64 { both(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64  { both(unsafe.Pointer(x)); return x.v.Or(m) }

func AddUintptr(p *uintptr, d uintptr) uintptr {
	both(unsafe.Pointer(p))
	return atomic.AddUintptr(p, d)
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	both(unsafe.Pointer(p))
	return atomic.AndUintptr(p, m)
}
func OrUintptr(p *uintptr, m uintptr) uintptr { both(unsafe.Pointer(p)); return atomic.OrUintptr(p, m) }
func LoadUintptr(p *uintptr) uintptr          { load(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)      { store(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	both(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	return cas(unsafe.Pointer(p), func() bool { return atomic.CompareAndSwapUintptr(p, a, b) })
}

// Uintptr is an atomic uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}
func (x *Uintptr) Add(d uintptr) uintptr { both(unsafe.Pointer(x)); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr { both(unsafe.Pointer(x)); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr  { both(unsafe.Pointer(x)); return x.v.Or(m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	load(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	store(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	both(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	return cas(unsafe.Pointer(p), func() bool { return atomic.CompareAndSwapPointer(p, a, b) })
}

// Bool is an atomic bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)     { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}

// Pointer is an atomic pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}

// Value is an atomic value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any      { load(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v any)    { store(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Value) Swap(v any) any { both(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool {
	return cas(unsafe.Pointer(x), func() bool { return x.v.CompareAndSwap(a, b) })
}
