//go:build go1.25

// Package vrt runs instrumented code under a controlled scheduler.
//
// One execution at a time: the goroutines of the code under test are threads of
// which exactly one runs. At each point (an operation on a lock, an atomic, a
// file or a mapping, or, at the finer granularity, a statement) the running
// thread decides by itself whether another thread goes on, whether the operation
// fails, or whether its process dies here. Which alternative is taken is
// prescribed by a list of deviations from the default (go on, succeed, live); an
// execution records the alternatives it met, so the explorer can enumerate all
// lists of deviations within the budgets.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

// Points names the inserted points.
var Points []string

// Dev is one deviation: at the given place of a thread, the alternative A is taken.
type Dev struct {
	K string `json:"k"`           // s: switch at a point, b: next when blocked, e: next at end, n: next chosen from outside, f: fault, c: crash, p: pick
	T int    `json:"t"`           // thread
	O int    `json:"o,omitempty"` // operations of the thread so far
	P int    `json:"p,omitempty"` // inserted point + 1, 0 at an operation
	H int    `json:"h,omitempty"` // which time since the operation
	A int    `json:"a"`           // alternative
	W string `json:"w,omitempty"` // for the reader: where
}

func (d Dev) key() Dev { d.A, d.W = 0, ""; return d }

// Alt is a choice met during an execution.
type Alt struct {
	Key   Dev
	Alts  []int // other than the default
	Taken bool  // a deviation was taken here
}

// Op is an operation of the code under test on the storage.
type Op struct {
	Kind        string // stat open create read write truncate sync close rename remove mkdir map unmap flush mlock link chmod
	Path, Path2 string
	File        int // number of the open file, 0: none
	Flag        int
	N           int64
	Mutates     bool
	Thread      int
	Proc        int
	Err         error
	Effect      bool // it changed something
}

// Cfg bounds an execution.
type Cfg struct {
	Preempt int  // switches away from a thread that could go on
	Faults  int  // injected faults
	Crashes int  // deaths of a process
	Stmt    bool // statements are points too
	Hits    int  // how often a statement counts between two operations (default 2)
	// FaultMode: "" single faults; "suffix": once one operation failed all later ones of the process do;
	// "errnos": single faults with each error of Errnos.
	FaultMode string
	// CrashStmt: the process may die at statements too.
	CrashStmt bool
	// NoFSPoints: storage operations are no scheduling points.
	NoFSPoints bool
	// CoarsePoints: only calls of Yield by the harness are scheduling points.
	Coarse    bool
	Faultable func(*Op) bool
	FailOp    func(*Op) error // unconditional faults
	OnEffect  func(*Op)       // after each operation that succeeded
	OnOp      func(*Op)       // before each operation
	OnCrash   func(proc int)
	Fixed     bool // no alternatives: every choice is the default
}

type state uint8

const (
	ready state = iota
	running
	blocked // on one of our objects
	native  // in something we do not control
	done
)

// Thread is a goroutine under control.
type Thread struct {
	ID     int
	Proc   int
	Name   string
	g      uintptr
	grant  chan struct{}
	st     state
	wait   unsafe.Pointer
	ops    int
	blk    int
	kids   int
	streak int
	hits   []uint32 // per point: stamp<<8 | count
	kill   bool
	atKey  Dev
	Locks  int // mutexes held
	Held   []unsafe.Pointer
	x      *Exec
	tag    any
}

// Exec is one execution.
type Exec struct {
	Cfg
	Devs   []Dev
	Alts   []Alt
	Steps  int64 // points and operations met
	Ops    int64
	Fail   string
	Poison bool // threads are left that could not be ended
	Faulty []Op // operations made to fail

	devUsed    int
	noFaults   bool
	threads    []*Thread
	cur        *Thread
	curG       uintptr
	native     int
	ctl        int
	mu         sync.Mutex
	clock      int64
	rnd        int64
	procDead   [16]bool
	suffix     [16]bool
	fin        []finalizer
	nS, nF, nC int
	rngs       [16]any
}

type finalizer struct {
	obj  any
	run  func()
	proc int
	off  bool
}

var cur *Exec

// Hook is called at every inserted point when no execution is under way.
var Hook func(id int)

// Active is the execution under way.
func Active() *Exec { return cur }

// self finds the calling thread, or nil.
func self() *Thread {
	e := cur
	if e == nil {
		return nil
	}
	g := getg()
	if e.curG == g {
		return e.cur
	}
	for _, t := range e.threads {
		if t.g == g && t.st != done {
			return t
		}
	}
	return nil
}

// Self is the calling thread, nil outside of executions.
func Self() *Thread { return self() }

// Dead tells whether the process of the calling thread has died.
func (t *Thread) Dead() bool { return t.x.procDead[t.Proc] || t.kill }

// Exec of a thread.
func (t *Thread) Exec() *Exec { return t.x }

// Run performs one execution inside a synctest bubble; body runs in the controlling goroutine.
func Run(cfg Cfg, devs []Dev, body func(x *Exec) error) (x *Exec, err error) {
	if cfg.Hits == 0 {
		cfg.Hits = 2
	}
	x = &Exec{Cfg: cfg, Devs: devs}
	for _, d := range devs {
		switch d.K {
		case "s":
			x.nS++
		case "f":
			x.nF++
		case "c":
			x.nC++
		}
	}
	raceBase := raceErrors()
	cur = x
	defer func() {
		cur = nil
		Cleanup()
		if p := recover(); p != nil {
			err = fmt.Errorf("panic in the harness: %v\n%s", p, debug.Stack())
		}
		if err == nil && x.Fail != "" {
			err = fmt.Errorf("%s", x.Fail)
		}
		if err == nil && raceErrors() != raceBase {
			err = fmt.Errorf("data race (see the log)")
		}
	}()
	err = body(x)
	if e2 := x.Wait(); err == nil {
		err = e2
	}
	return x, err
}

// Diverged counts the deviations that found no place.
func (x *Exec) Diverged() int { return len(x.Devs) - x.devUsed }

// Failf records a failure of the property.
func (x *Exec) Failf(format string, a ...any) {
	if x.Fail == "" {
		x.Fail = fmt.Sprintf(format, a...)
	}
}

// Spawn starts a thread of a process; it runs once Wait is called.
func (x *Exec) Spawn(proc int, name string, f func()) *Thread {
	t := &Thread{ID: len(x.threads), Proc: proc, Name: name, grant: make(chan struct{}, 1), x: x}
	x.threads = append(x.threads, t)
	go x.body(t, f)
	return t
}

// loose counts the goroutines started outside of executions.
var loose sync.WaitGroup

// Idle waits for the goroutines started outside of executions.
func Idle() { loose.Wait() }

// GoCall is a go statement.
func GoCall(f any, args ...any) { goCall(f, args, false) }

// GoCallSlice is a go statement with a spread argument.
func GoCallSlice(f any, args ...any) { goCall(f, args, true) }

func goCall(f any, args []any, spread bool) {
	run := bind(f, args, spread)
	t := self()
	if t == nil {
		loose.Add(1)
		go func() {
			mark(looseMark) // or it would pass for its parent
			defer loose.Done()
			run()
		}()
		return
	}
	if t.Dead() {
		return
	}
	x := t.x
	t.kids++
	name := t.Name + "+" + strconv.Itoa(t.kids)
	raceOff()
	x.mu.Lock()
	n := &Thread{ID: len(x.threads), Proc: t.Proc, Name: name, grant: make(chan struct{}, 1), x: x}
	x.threads = append(x.threads, n)
	x.mu.Unlock()
	raceOn()
	go x.body(n, run)
}

func (x *Exec) body(t *Thread, f func()) {
	raceOff()
	<-t.grant
	raceOn()
	mark(1 + t.ID%(looseMark-1))
	t.g = getg()
	if x.cur == t {
		x.curG = t.g
	}
	ended := false
	defer func() {
		if !ended {
			if p := recover(); p != nil {
				x.Failf("panic in %s: %v\n%s", t.Name, p, debug.Stack())
			}
		}
		x.end(t)
	}()
	if t.Dead() {
		ended = true
		return
	}
	debug.SetPanicOnFault(true)
	f()
	ended = true
}

func (x *Exec) end(t *Thread) {
	Release(unsafe.Pointer(x))
	raceOff()
	defer raceOn()
	t.st = done
	t.g = 0
	if x.native > 0 || x.cur != t {
		return
	}
	x.curG = 0
	if n := x.next(t, "e"); n != nil {
		x.resume(n)
	}
}

// next picks the thread that goes on when t cannot.
func (x *Exec) next(t *Thread, kind string) *Thread {
	var l []*Thread
	for i := 1; i <= len(x.threads); i++ {
		u := x.threads[(t.ID+i)%len(x.threads)]
		if u != t && u.st == ready {
			l = append(l, u)
		}
	}
	if len(l) == 0 {
		return nil
	}
	if len(l) == 1 {
		return l[0]
	}
	t.blk++
	k := Dev{K: kind, T: t.ID, O: t.ops, H: t.blk}
	var alts []int
	for _, u := range l[1:] {
		alts = append(alts, u.ID)
	}
	if a, ok := x.choose(k, alts); ok {
		for _, u := range l {
			if u.ID == a {
				return u
			}
		}
	}
	return l[0]
}

// choose looks a deviation up and records the alternatives.
func (x *Exec) choose(k Dev, alts []int) (int, bool) {
	if x.Fixed {
		return 0, false
	}
	for _, d := range x.Devs {
		if d.key() == k {
			for _, a := range alts {
				if a == d.A {
					x.devUsed++
					x.Alts = append(x.Alts, Alt{Key: k, Taken: true})
					return a, true
				}
			}
		}
	}
	if x.Budget(k.K) {
		x.Alts = append(x.Alts, Alt{Key: k, Alts: alts})
	}
	return 0, false
}

// Pick lets the harness choose among n alternatives (0 is the default).
func (x *Exec) Pick(n int, no int) int {
	var alts []int
	for i := 1; i < n; i++ {
		alts = append(alts, i)
	}
	if a, ok := x.choose(Dev{K: "p", T: -1, O: no}, alts); ok {
		return a
	}
	return 0
}

func (x *Exec) resume(u *Thread) {
	x.cur = u
	x.curG = u.g
	u.st = running
	u.streak = 0
	u.grant <- struct{}{}
}

// park waits for the turn of t.
func (x *Exec) park(t *Thread) {
	<-t.grant
	if t.kill || x.procDead[t.Proc] {
		raceOn()
		runtime.Goexit()
	}
}

// P is an inserted point.
func P(id int) {
	e := cur
	if e == nil {
		if Hook != nil && getg() == watchG {
			Hook(id)
		}
		return
	}
	if !e.Stmt && !e.CrashStmt {
		return
	}
	t := self()
	if t == nil || t.kill || e.procDead[t.Proc] {
		return
	}
	if t.hits == nil {
		t.hits = make([]uint32, len(Points)+1)
	}
	h := t.hits[id]
	stamp := uint32(t.ops+1) & 0xffffff
	if h>>8 != stamp {
		h = stamp << 8
	}
	if int(h&0xff) >= e.Hits {
		return
	}
	h++
	t.hits[id] = h
	k := Dev{T: t.ID, O: t.ops, P: id + 1, H: int(h & 0xff)}
	if e.CrashStmt {
		e.maybeCrash(t, k)
	}
	if e.Stmt {
		e.maybeSwitch(t, k)
	}
}

// Sync is a scheduling point at an operation on a synchronisation object.
func Sync() *Thread {
	t := self()
	if t == nil {
		return nil
	}
	if t.Dead() {
		return t
	}
	t.ops++
	t.x.Ops++
	if t.streak++; t.streak > 4000 {
		// waiting for something by looking at it again and again
		t.streak = 0
		Yield()
		return t
	}
	if t.x.Coarse {
		return t
	}
	t.x.maybeSwitch(t, Dev{T: t.ID, O: t.ops})
	return t
}

// Yield gives other threads the turn if there are any (runtime.Gosched).
func Yield() {
	t := self()
	if t == nil {
		runtime.Gosched()
		return
	}
	if t.Dead() {
		return
	}
	t.ops++
	x := t.x
	x.step()
	raceOff()
	defer raceOn()
	if x.native > 0 {
		t.st = ready
		x.park(t)
		return
	}
	t.st = blocked // not itself
	n := x.next(t, "b")
	t.st = ready
	if n == nil {
		t.st = running
		return
	}
	x.resume(n)
	x.park(t)
}

// Point is a scheduling point placed by the harness.
func Point() {
	t := self()
	if t == nil || t.Dead() {
		return
	}
	t.ops++
	t.x.Ops++
	t.x.maybeSwitch(t, Dev{T: t.ID, O: t.ops})
}

const maxSteps = 20_000_000

func (x *Exec) step() {
	x.Steps++
	if x.Steps > maxSteps {
		x.Failf("no end in sight after %d steps", x.Steps)
		for _, t := range x.threads {
			t.kill = true
		}
		runtime.Goexit()
	}
}

func (x *Exec) maybeSwitch(t *Thread, k Dev) {
	x.step()
	raceOff()
	k.K = "s"
	if x.native > 0 {
		t.atKey = k
		t.st = ready
		x.park(t)
		raceOn()
		return
	}
	var alts []int
	for _, u := range x.threads {
		if u != t && u.st == ready {
			alts = append(alts, u.ID)
		}
	}
	if len(alts) > 0 && x.Preempt > 0 {
		if a, ok := x.choose(k, alts); ok {
			t.st = ready
			x.resume(x.threads[a])
			x.park(t)
		}
	}
	raceOn()
}

func (x *Exec) maybeCrash(t *Thread, k Dev) {
	if x.Crashes == 0 {
		return
	}
	k.K = "c"
	if _, ok := x.choose(k, []int{1}); ok {
		x.Crash(t)
	}
}

// Crash kills the process of t.
func (x *Exec) Crash(t *Thread) {
	x.procDead[t.Proc] = true
	for _, u := range x.threads {
		if u.Proc == t.Proc && u.st == blocked {
			u.st = ready
		}
	}
	if x.OnCrash != nil {
		x.OnCrash(t.Proc)
	}
	runtime.Goexit()
}

// Crashed tells whether a process has died.
func (x *Exec) Crashed(proc int) bool { return x.procDead[proc] }

// Block waits on an object until Wake.
func Block(t *Thread, obj unsafe.Pointer) {
	x := t.x
	x.step()
	raceOff()
	t.wait = obj
	t.st = blocked
	if x.native == 0 {
		if n := x.next(t, "b"); n != nil {
			x.resume(n)
		}
	}
	x.park(t)
	raceOn()
}

// Wake lets the threads blocked on an object go on.
func Wake(t *Thread, obj unsafe.Pointer, max int) int {
	x := t.x
	n := 0
	for _, u := range x.threads {
		if u.st == blocked && u.wait == obj && (max == 0 || n < max) {
			u.wait = nil
			u.st = ready
			n++
		}
	}
	return n
}

// Wait lets the threads run until all have ended.
func (x *Exec) Wait() error {
	idle := 0
	for {
		raceOff()
		synctest.Wait()
		raceOn()
		left := 0
		x.native = 0
		var rdy []*Thread
		for _, t := range x.threads {
			switch t.st {
			case done:
				continue
			case running:
				t.st = native
			}
			left++
			if t.st == native {
				x.native++
			}
			if t.st == ready {
				rdy = append(rdy, t)
			}
		}
		if left == 0 {
			Acquire(unsafe.Pointer(x))
			if x.Fail != "" {
				return fmt.Errorf("%s", x.Fail)
			}
			return nil
		}
		if len(rdy) == 0 {
			if x.native > 0 && idle < 40 {
				idle++
				raceOff()
				time.Sleep(time.Millisecond << min(idle, 25))
				raceOn()
				continue
			}
			if x.Fail == "" && !x.anyKilled() {
				x.Failf("deadlock: %s", x.describe())
			}
			again := false
			for _, t := range x.threads {
				if t.st == blocked {
					t.kill = true
					t.st = ready
					again = true
				}
			}
			if again {
				continue
			}
			x.Poison = true
			return fmt.Errorf("%s", x.Fail)
		}
		idle = 0
		n := rdy[0]
		if x.cur != nil && x.cur.st == ready {
			n = x.cur
			if x.Preempt > 0 && len(rdy) > 1 && n.atKey.K == "s" {
				var alts []int
				for _, u := range rdy {
					if u != n {
						alts = append(alts, u.ID)
					}
				}
				k := n.atKey
				n.atKey = Dev{}
				if a, ok := x.choose(k, alts); ok {
					n = x.threads[a]
				}
			}
		} else if len(rdy) > 1 {
			x.ctl++
			var alts []int
			for _, u := range rdy[1:] {
				alts = append(alts, u.ID)
			}
			if a, ok := x.choose(Dev{K: "n", T: -1, O: x.ctl}, alts); ok {
				n = x.threads[a]
			}
		}
		raceOff()
		x.resume(n)
		raceOn()
	}
}

func (x *Exec) anyKilled() bool {
	for _, t := range x.threads {
		if t.kill || x.procDead[t.Proc] {
			return true
		}
	}
	return false
}

func (x *Exec) describe() string {
	s := ""
	for _, t := range x.threads {
		if t.st != done {
			s += fmt.Sprintf("%s waits (%s) ", t.Name, []string{"ready", "running", "blocked", "native", "done"}[t.st])
		}
	}
	return s
}

// Budget tells whether one more deviation of a kind fits.
func (x *Exec) Budget(kind string) bool {
	switch kind {
	case "s":
		return x.nS < x.Preempt
	case "f":
		return x.nF < x.Faults
	case "c":
		return x.nC < x.Crashes
	}
	return true
}

// Children lists the executions that differ from this one by one more deviation after its last one.
func (x *Exec) Children() [][]Dev {
	last := -1
	for i, a := range x.Alts {
		if a.Taken {
			last = i
		}
	}
	var out [][]Dev
	for _, a := range x.Alts[last+1:] {
		if !x.Budget(a.Key.K) {
			continue
		}
		for _, v := range a.Alts {
			d := a.Key
			d.A = v
			if d.P > 0 && d.P <= len(Points) {
				d.W = Points[d.P-1]
			}
			out = append(out, append(append([]Dev(nil), x.Devs...), d))
		}
	}
	return out
}

// Now is the clock: every reading is a microsecond after the one before.
func Now() (int64, bool) {
	t := self()
	if t == nil {
		return 0, false
	}
	t.x.clock += 1000
	return t.x.clock, true
}

// Unique is a fresh number for chance.
func Unique() (int64, bool) {
	t := self()
	if t == nil {
		return 0, false
	}
	t.x.rnd++
	return t.x.rnd, true
}

// Pid of the process of the calling thread.
func Pid() (int, bool) {
	t := self()
	if t == nil {
		return 0, false
	}
	return 1000 + t.Proc, true
}

// Finalizer records a finalizer; it tells whether the harness keeps it.
func Finalizer(obj any, run func()) bool {
	t := self()
	if t == nil {
		return false
	}
	for i := range t.x.fin {
		if t.x.fin[i].obj == obj {
			t.x.fin[i].off = true
		}
	}
	if run != nil {
		t.x.fin = append(t.x.fin, finalizer{obj: obj, run: run, proc: t.Proc})
	}
	return true
}

// Finalize runs the recorded finalizers of a process, as the collector would once nothing refers to the objects.
func (x *Exec) Finalize(proc int) {
	for i := range x.fin {
		f := &x.fin[i]
		if f.proc == proc && !f.off {
			f.off = true
			f.run()
		}
	}
}

// Rng keeps a per process generator.
func (t *Thread) Rng() *any { return &t.x.rngs[t.Proc] }

var (
	outside int
	watchG  uintptr
)

// Watch makes the calling goroutine the one whose points Hook sees and whose locks are counted.
func Watch() { mark(0); watchG, outside = getg(), 0 }

// Outside counts the locks held while no execution is under way, by the watched goroutine.
func Outside(d int) {
	if cur == nil && watchG != 0 && getg() == watchG {
		outside += d
	}
}

// LocksOutside is that count.
func LocksOutside() int { return outside }

// Quiet runs a piece of the harness without its synchronisation counting for the race detector.
func Quiet(f func()) {
	raceOff()
	defer raceOn()
	f()
}
