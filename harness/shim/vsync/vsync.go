//go:build go1.25

// Package vsync stands in for package sync: inside an execution the objects block
// and wake threads of the scheduler; outside they are the real ones.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

// Locker locks.
type Locker = sync.Locker

// Mutex is a lock.
type Mutex struct {
	real sync.Mutex
	x    *vrt.Exec
	held bool
}

func (m *Mutex) fresh(t *vrt.Thread) {
	if m.x != t.Exec() {
		m.x, m.held = t.Exec(), false
	}
}

// Lock locks.
func (m *Mutex) Lock() {
	t := vrt.Sync()
	if t == nil {
		m.real.Lock()
		vrt.Outside(1)
		return
	}
	if t.Dead() {
		return
	}
	m.fresh(t)
	for m.held {
		vrt.Block(t, unsafe.Pointer(m))
	}
	m.held = true
	t.Locks++
	vrt.Acquire(unsafe.Pointer(m))
}

// TryLock locks if that is possible at once.
func (m *Mutex) TryLock() bool {
	t := vrt.Sync()
	if t == nil {
		ok := m.real.TryLock()
		if ok {
			vrt.Outside(1)
		}
		return ok
	}
	if t.Dead() {
		return false
	}
	m.fresh(t)
	if m.held {
		return false
	}
	m.held = true
	t.Locks++
	vrt.Acquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	t := vrt.Self()
	if t == nil {
		vrt.Outside(-1)
		m.real.Unlock()
		return
	}
	if t.Dead() {
		return
	}
	m.fresh(t)
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	vrt.Release(unsafe.Pointer(m))
	m.held = false
	t.Locks--
	vrt.Wake(t, unsafe.Pointer(m), 0)
}

// RWMutex is a lock with readers.
type RWMutex struct {
	real    sync.RWMutex
	x       *vrt.Exec
	w       bool
	readers int
	pending int
	rp      byte
}

func (m *RWMutex) fresh(t *vrt.Thread) {
	if m.x != t.Exec() {
		m.x, m.w, m.readers, m.pending = t.Exec(), false, 0, 0
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	t := vrt.Sync()
	if t == nil {
		m.real.Lock()
		vrt.Outside(1)
		return
	}
	if t.Dead() {
		return
	}
	m.fresh(t)
	m.pending++
	for m.w || m.readers > 0 {
		vrt.Block(t, unsafe.Pointer(m))
	}
	m.pending--
	m.w = true
	t.Locks++
	vrt.Acquire(unsafe.Pointer(m))
	vrt.Acquire(unsafe.Pointer(&m.rp))
}

// TryLock locks if possible.
func (m *RWMutex) TryLock() bool {
	t := vrt.Sync()
	if t == nil {
		return m.real.TryLock()
	}
	if t.Dead() {
		return false
	}
	m.fresh(t)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	t.Locks++
	vrt.Acquire(unsafe.Pointer(m))
	vrt.Acquire(unsafe.Pointer(&m.rp))
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	t := vrt.Self()
	if t == nil {
		vrt.Outside(-1)
		m.real.Unlock()
		return
	}
	if t.Dead() {
		return
	}
	m.fresh(t)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vrt.Release(unsafe.Pointer(m))
	m.w = false
	t.Locks--
	vrt.Wake(t, unsafe.Pointer(m), 0)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	t := vrt.Sync()
	if t == nil {
		m.real.RLock()
		vrt.Outside(1)
		return
	}
	if t.Dead() {
		return
	}
	m.fresh(t)
	for m.w || m.pending > 0 {
		vrt.Block(t, unsafe.Pointer(m))
	}
	m.readers++
	t.Locks++
	vrt.Acquire(unsafe.Pointer(m))
}

// TryRLock locks for reading if possible.
func (m *RWMutex) TryRLock() bool {
	t := vrt.Sync()
	if t == nil {
		return m.real.TryRLock()
	}
	if t.Dead() {
		return false
	}
	m.fresh(t)
	if m.w || m.pending > 0 {
		return false
	}
	m.readers++
	t.Locks++
	vrt.Acquire(unsafe.Pointer(m))
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	t := vrt.Self()
	if t == nil {
		vrt.Outside(-1)
		m.real.RUnlock()
		return
	}
	if t.Dead() {
		return
	}
	m.fresh(t)
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vrt.Release(unsafe.Pointer(&m.rp))
	m.readers--
	t.Locks--
	vrt.Wake(t, unsafe.Pointer(m), 0)
}

// RLocker is the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs something once.
type Once struct {
	done bool
	m    Mutex
}

// Do runs f unless some call did.
func (o *Once) Do(f func()) {
	t := vrt.Self()
	if t != nil && t.Dead() {
		return
	}
	o.m.Lock()
	if t != nil {
		t.Locks-- // running the function counts as holding no lock
	} else {
		vrt.Outside(-1)
	}
	defer func() {
		if t != nil {
			if t.Dead() {
				return
			}
			t.Locks++
		} else {
			vrt.Outside(1)
		}
		o.m.Unlock()
	}()
	if !o.done {
		defer func() {
			if t == nil || !t.Dead() {
				o.done = true
			}
		}()
		f()
	}
}

// OnceFunc wraps f.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue wraps f.
func OnceValue[T any](f func() T) func() T {
	var (
		once  Once
		valid bool
		p     any
		res   T
	)
	return func() T {
		once.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			res = f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
		return res
	}
}

// OnceValues wraps f.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

// WaitGroup counts.
type WaitGroup struct {
	real sync.WaitGroup
	x    *vrt.Exec
	n    int
}

// Add adds.
func (g *WaitGroup) Add(n int) {
	t := vrt.Sync()
	if t == nil {
		g.real.Add(n)
		return
	}
	if t.Dead() {
		return
	}
	if g.x != t.Exec() {
		g.x, g.n = t.Exec(), 0
	}
	if n < 0 {
		vrt.Release(unsafe.Pointer(g))
	}
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		vrt.Wake(t, unsafe.Pointer(g), 0)
	}
}

// Done subtracts one.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for zero.
func (g *WaitGroup) Wait() {
	t := vrt.Sync()
	if t == nil {
		g.real.Wait()
		return
	}
	if t.Dead() {
		return
	}
	for g.x == t.Exec() && g.n > 0 {
		vrt.Block(t, unsafe.Pointer(g))
	}
	vrt.Acquire(unsafe.Pointer(g))
}

// Go runs f counted.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vrt.GoCall(func() {
		defer g.Done()
		f()
	})
}

// Cond is a condition variable.
type Cond struct {
	L Locker

	once sync.Once
	real *sync.Cond
	q    []*byte
}

// NewCond makes one.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

// Wait waits.
func (c *Cond) Wait() {
	t := vrt.Sync()
	if t == nil {
		c.r().Wait()
		return
	}
	if t.Dead() {
		return
	}
	tk := new(byte)
	c.q = append(c.q, tk)
	c.L.Unlock()
	for *tk == 0 {
		vrt.Block(t, unsafe.Pointer(tk))
	}
	vrt.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() { c.wake(1) }

// Broadcast wakes all.
func (c *Cond) Broadcast() { c.wake(1 << 30) }

func (c *Cond) wake(n int) {
	t := vrt.Sync()
	if t == nil {
		if n == 1 {
			c.r().Signal()
		} else {
			c.r().Broadcast()
		}
		return
	}
	if t.Dead() {
		return
	}
	vrt.Release(unsafe.Pointer(c))
	for ; n > 0 && len(c.q) > 0; n-- {
		tk := c.q[0]
		c.q = c.q[1:]
		*tk = 1
		vrt.Wake(t, unsafe.Pointer(tk), 0)
	}
}

// Pool keeps objects; here the last one put in comes out first.
type Pool struct {
	New func() any

	real sync.Pool
	x    *vrt.Exec
	l    []any
}

// Get takes one out.
func (p *Pool) Get() any {
	t := vrt.Sync()
	if t == nil {
		if v := p.real.Get(); v != nil {
			return v
		}
	} else {
		if p.x != t.Exec() {
			p.x, p.l = t.Exec(), nil
		}
		if n := len(p.l); n > 0 && !t.Dead() {
			v := p.l[n-1]
			p.l = p.l[:n-1]
			vrt.Acquire(unsafe.Pointer(p))
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts one in.
func (p *Pool) Put(v any) {
	t := vrt.Sync()
	if t == nil {
		p.real.Put(v)
		return
	}
	if v == nil || t.Dead() {
		return
	}
	if p.x != t.Exec() {
		p.x, p.l = t.Exec(), nil
	}
	vrt.Release(unsafe.Pointer(p))
	p.l = append(p.l, v)
}

// Map is a concurrent map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vrt.Sync(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vrt.Sync(); m.m.Store(k, v) }
func (m *Map) Clear()                           { vrt.Sync(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vrt.Sync(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vrt.Sync(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vrt.Sync(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vrt.Sync(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { vrt.Sync(); return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { vrt.Sync(); return m.m.CompareAndDelete(k, a) }
func (m *Map) Range(f func(k, v any) bool)      { vrt.Sync(); m.m.Range(f) }
