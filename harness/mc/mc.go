//go:build go1.25

// Package mc explores all executions of small scenarios of the instrumented code
// within budgets of deviations, in parallel worker processes.
package mc

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

var fWorker = flag.Bool("worker", false, "")

// Case is what a replay file holds.
type Case struct {
	Scenario json.RawMessage
	Devs     []vrt.Dev
}

// model is a suite with its type erased.
type model struct {
	name, rule string
	limit      time.Duration
	free       bool
	gen        func(yield func(json.RawMessage) bool)
	run        func(e *Env, p json.RawMessage, devs []vrt.Dev) (*vrt.Exec, error)
}

// Env is what a worker provides to an execution.
type Env struct {
	Dir  string // an empty directory
	Root string
	// Thorough exploration.
	Thorough bool
	no       int
	Counter  map[string]int64
	Seen     map[uint64]struct{} // kept by the scenario across the executions of one worker
}

// Count adds to a counter of the evidence.
func (e *Env) Count(k string, n int64) { e.Counter[k] += n }

// Model describes a family of scenarios.
type Model[P any] struct {
	Name, Rule string
	// Gen enumerates the scenarios.
	Gen func(yield func(P) bool)
	// Cfg gives the budgets.
	Cfg func(p P) vrt.Cfg
	// Run performs one execution; it starts threads, waits for them and judges.
	Run func(e *Env, x *vrt.Exec, p P) error
	// Limit per execution.
	Limit time.Duration
	// Free: no scheduler; Run gets a nil Exec.
	Free bool
}

// M erases the type.
func M[P any](m Model[P]) model {
	limit := m.Limit
	if limit == 0 {
		limit = 25 * time.Second
	}
	return model{m.Name, m.Rule, limit, m.Free,
		func(yield func(json.RawMessage) bool) {
			m.Gen(func(p P) bool {
				b, err := json.Marshal(p)
				if err != nil {
					panic(err)
				}
				return yield(b)
			})
		},
		func(e *Env, raw json.RawMessage, devs []vrt.Dev) (*vrt.Exec, error) {
			var p P
			if err := json.Unmarshal(raw, &p); err != nil {
				return nil, err
			}
			if m.Free {
				return free(func() error { return m.Run(e, nil, p) })
			}
			return vrt.Run(m.Cfg(p), devs, func(x *vrt.Exec) error { return m.Run(e, x, p) })
		},
	}
}

func free(run func() error) (x *vrt.Exec, err error) {
	x = &vrt.Exec{}
	defer func() {
		vrt.Hook = nil
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
			x.Poison = true
		}
	}()
	return x, run()
}

type job struct {
	Model    string
	Scenario json.RawMessage
	No       int
	Prefixes [][]vrt.Dev
	Slice    time.Duration
	Trace    bool // announce each execution
}

type result struct {
	Execs, Steps, Ops, Alts int64
	Rest                    [][]vrt.Dev
	Fail                    string
	FailDevs                []vrt.Dev
	Diverged                int64
	Counter                 map[string]int64
	Poison                  bool
	Now                     []vrt.Dev // with Trace
	Announce                bool
}

// Main is the body of the one test of a check program.
func Main(t *testing.T, prop string, models func(r *hx.Run) []any) {
	if *fWorker {
		worker(t, models)
		return
	}
	hx.Main(prop, "model_checking", func(r *hx.Run) {
		for _, m := range models(r) {
			explore(r, m.(model), false)
			if r.Violated() {
				return
			}
		}
	})
}

// one performs one execution.
func one(t *testing.T, m model, e *Env, sc json.RawMessage, devs []vrt.Dev) (x *vrt.Exec, err error) {
	e.no++
	e.Dir = filepath.Join(e.Root, fmt.Sprint(e.no))
	if e := os.MkdirAll(e.Dir, 0o755); e != nil {
		return nil, e
	}
	defer os.RemoveAll(e.Dir)
	if m.free {
		return m.run(e, sc, devs)
	}
	// in a goroutine of its own: a data race found makes Test end the goroutine that called it
	end := make(chan struct{})
	go func() {
		defer close(end)
		synctest.Test(t, func(t *testing.T) {
			x, err = m.run(e, sc, devs)
		})
	}()
	<-end
	return
}

func newEnv() *Env {
	base := os.Getenv("TMPDIR")
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		if d, err := os.MkdirTemp("/dev/shm", "vcheck-mc-"); err == nil {
			return &Env{Root: d, Counter: map[string]int64{}, Seen: map[uint64]struct{}{}}
		}
	}
	d, err := os.MkdirTemp(base, "mc")
	if err != nil {
		panic(err)
	}
	return &Env{Root: d, Counter: map[string]int64{}, Seen: map[uint64]struct{}{}}
}

func worker(t *testing.T, models func(r *hx.Run) []any) {
	debug.SetPanicOnFault(true)
	debug.SetGCPercent(400)
	byName := map[string]model{}
	r := hx.Plain(flag.Lookup("tier").Value.String())
	for _, m := range models(r) {
		byName[m.(model).name] = m.(model)
	}
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	send := func(r result) {
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			os.Exit(0)
		}
	}
	e := newEnv()
	e.Thorough = r.Thorough()
	defer os.RemoveAll(e.Root)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.RemoveAll(e.Root)
			os.Exit(0)
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			panic(err)
		}
		m := byName[j.Model]
		var res result
		e.Counter = map[string]int64{}
		stack := j.Prefixes
		t0 := time.Now()
		for len(stack) > 0 {
			devs := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if j.Trace {
				send(result{Announce: true, Now: devs})
			}
			var x *vrt.Exec
			var err error
			for try := 0; ; try++ {
				x, err = one(t, m, e, j.Scenario, devs)
				if x == nil || err != nil || x.Diverged() == 0 || try == 20 {
					break
				}
			}
			res.Execs++
			if x != nil {
				res.Steps += x.Steps
				res.Ops += x.Ops
				res.Alts += int64(len(x.Alts))
				if x.Diverged() > 0 {
					res.Diverged++
				}
			}
			if err != nil {
				res.Fail, res.FailDevs = err.Error(), devs
				if x != nil {
					res.Poison = x.Poison
				}
				break
			}
			ch := x.Children()
			for i := len(ch) - 1; i >= 0; i-- {
				stack = append(stack, ch[i])
			}
			if x.Poison || time.Since(t0) > j.Slice {
				res.Poison = x.Poison
				break
			}
		}
		res.Rest = stack
		res.Counter = e.Counter
		send(res)
		if res.Poison {
			os.RemoveAll(e.Root)
			os.Exit(0)
		}
	}
}

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	outf *os.File
	log  *os.File
}

func start(r *hx.Run) (*proc, error) {
	cmd := exec.Command(os.Getenv("VERIF_BIN"), "-test.run", "TestMain_", "-test.timeout", "0", "-test.parallel", "1", "-worker", "-tier", r.Tier)
	log, err := os.CreateTemp(r.Scratch, "worker-*.log")
	if err != nil {
		return nil, err
	}
	cmd.Stdout, cmd.Stderr = log, log
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 history_size=3")
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{ir, ow}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ir.Close()
	ow.Close()
	return &proc{cmd, iw, bufio.NewReaderSize(or, 1<<20), or, log}, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.outf.Close()
	os.RemoveAll(p.log.Name())
	p.log.Close()
}

func (p *proc) tail() string {
	b, _ := os.ReadFile(p.log.Name())
	if len(b) > 12000 {
		b = append(append([]byte(nil), b[:8000]...), b[len(b)-4000:]...)
	}
	return string(b)
}

var errLimit = errors.New("did not return in time")

// ask has a worker do a job.
func (p *proc) ask(j job, limit time.Duration) (res result, now []vrt.Dev, err error) {
	b, err := json.Marshal(j)
	if err != nil {
		return res, nil, err
	}
	timedOut := false
	tm := time.AfterFunc(limit, func() { timedOut = true; p.cmd.Process.Kill() })
	defer tm.Stop()
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return res, nil, err
	}
	for {
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			if timedOut {
				err = errLimit
			}
			return res, now, err
		}
		res = result{}
		if err := json.Unmarshal(line, &res); err != nil {
			return res, now, err
		}
		if !res.Announce {
			return res, now, nil
		}
		now = res.Now
		tm.Reset(limit)
	}
}

// codeFault tells whether a dead worker's log shows powkit's code at fault.
func codeFault(log string) bool {
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, "github.com/sencha-dev/powkit/") &&
			(!strings.HasPrefix(l, "github.com/sencha-dev/powkit/internal/vh/") || strings.HasPrefix(l, "github.com/sencha-dev/powkit/internal/vh/proc/")) {
			return true
		}
	}
	return false
}

// explore enumerates all executions; isolated: each in a process of its own.
func explore(r *hx.Run, m model, isolated bool) {
	if r.Replaying() {
		raw, ok := r.ReplayCase(m.name)
		if !ok {
			return
		}
		var c Case
		if err := json.Unmarshal(raw, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		msg, fails, tries := confirm(r, m, 0, c.Scenario, c.Devs, 3)
		if fails == 0 {
			fmt.Printf("%s: suite %s: case holds\n", r.Prop, m.name)
			return
		}
		r.Report(m.name, c, msg, fmt.Sprintf("%d of %d", fails, tries))
		return
	}
	t0 := time.Now()
	type item struct {
		no int
		sc json.RawMessage
		pf [][]vrt.Dev
	}
	type failure struct {
		no   int
		c    Case
		msg  string
		died bool
	}
	var (
		mu                                sync.Mutex
		cond                              = sync.NewCond(&mu)
		queue                             []item
		busy                              int
		fails                             []failure
		execs, steps, ops, alts, diverged int64
		complete                          = true
		harness                           error
		cases                             int
		stopped                           bool
	)
	m.gen(func(sc json.RawMessage) bool {
		if cases < 3 {
			r.Sample(map[string]any{"suite": m.name, "case": sc})
		}
		queue = append(queue, item{cases, sc, [][]vrt.Dev{nil}})
		cases++
		return true
	})
	// scenarios in order; a worker takes the first
	var wg sync.WaitGroup
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && !stopped {
					cond.Wait()
				}
				if stopped || len(queue) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				if r.TimeLeft() < 0 {
					complete = false
					stopped = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				it := queue[0]
				queue = queue[1:]
				busy++
				few := len(queue) < r.Workers
				mu.Unlock()
				var err error
				if p == nil {
					p, err = start(r)
				}
				slice := 400 * time.Millisecond
				if isolated {
					few = false
					slice = 0
				}
				if few {
					slice = 60 * time.Millisecond
				}
				var res result
				if err == nil {
					res, _, err = p.ask(job{Model: m.name, Scenario: it.sc, No: it.no, Prefixes: it.pf, Slice: slice}, m.limit+slice)
				}
				var f *failure
				if err != nil {
					// the worker died: find the execution that did it
					if p != nil {
						p.stop()
						p = nil
					}
					q, e2 := start(r)
					if e2 != nil {
						err = e2
					} else {
						_, now, e3 := q.ask(job{Model: m.name, Scenario: it.sc, No: it.no, Prefixes: it.pf, Slice: 2 * slice, Trace: true}, m.limit)
						if e3 != nil {
							log := q.tail()
							if e3 == errLimit || codeFault(log) {
								f = &failure{it.no, Case{it.sc, now}, fmt.Sprintf("the process died (%v)\n%s", e3, log), true}
								err = nil
							} else {
								err = fmt.Errorf("worker died: %v\n%s", e3, log)
							}
						} else {
							// not again: take it up again from the start
							res = result{Rest: it.pf}
							err = nil
							fmt.Fprintf(os.Stderr, "%s: a worker died once\n", m.name)
						}
						q.stop()
					}
				}
				if err == nil && f == nil && res.Fail != "" {
					f = &failure{it.no, Case{it.sc, res.FailDevs}, res.Fail, false}
					if vrt.Race {
						f.msg += "\n" + p.tail()
					}
				}
				if p != nil && (res.Poison || isolated) {
					p.stop()
					p = nil
				}
				mu.Lock()
				busy--
				if err != nil && harness == nil {
					harness = err
					stopped = true
				}
				execs += res.Execs
				steps += res.Steps
				ops += res.Ops
				alts += res.Alts
				diverged += res.Diverged
				for k, v := range res.Counter {
					r.Count(k, v)
				}
				if f != nil {
					fails = append(fails, *f)
					stopped = true
				} else if n := len(res.Rest); n > 0 {
					// split what is left
					parts := 1
					if len(queue) < r.Workers {
						parts = min(n, r.Workers)
					}
					var its []item
					for i := 0; i < parts; i++ {
						var pf [][]vrt.Dev
						for k := i; k < n; k += parts {
							pf = append(pf, res.Rest[k])
						}
						its = append(its, item{it.no, it.sc, pf})
					}
					queue = append(its, queue...)
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if harness != nil {
		fmt.Fprintln(os.Stderr, harness)
		os.Exit(2)
	}
	r.Count("states", alts+execs) // each initial state and each state in which a choice was open
	r.Count("transitions", steps)
	r.Count("operations", ops)
	r.Count("traces_validated_against_impl", execs)
	if diverged > 0 {
		r.Count("executions_whose_deviation_found_no_place", diverged)
	}
	if !complete {
		r.Incomplete(fmt.Sprintf("suite %s stopped at its deadline", m.name))
	}
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool {
			if fails[i].no != fails[j].no {
				return fails[i].no < fails[j].no
			}
			return len(fails[i].c.Devs) < len(fails[j].c.Devs)
		})
		f := fails[0]
		msg, n, tries := confirm(r, m, f.no, f.c.Scenario, f.c.Devs, 5)
		if n > 0 {
			f.msg = msg
		} else if !isolated && !f.died {
			// it depends on what earlier executions left behind in the process: judge each on its own
			fmt.Fprintf(os.Stderr, "%s: a failure did not recur in a fresh process; again with a process per execution\n%s\n", m.name, f.msg)
			r.Count("suites_repeated_with_a_process_per_execution", 1)
			explore(r, m, true)
			return
		}
		r.Report(m.name, f.c, f.msg, fmt.Sprintf("%d of %d in fresh processes", n, tries))
		complete = false
	}
	r.Finished(m.name, m.rule, int64(cases), execs, execs, complete, time.Since(t0))
}

// confirm repeats one execution in fresh processes.
func confirm(r *hx.Run, m model, no int, sc json.RawMessage, devs []vrt.Dev, tries int) (msg string, fails, n int) {
	for ; n < tries; n++ {
		p, err := start(r)
		if err != nil {
			break
		}
		res, _, err := p.ask(job{Model: m.name, Scenario: sc, No: no, Prefixes: [][]vrt.Dev{devs}}, m.limit)
		switch {
		case err != nil:
			fails++
			msg = fmt.Sprintf("the process died (%v)\n%s", err, p.tail())
		case res.Fail != "":
			fails++
			msg = res.Fail
			if vrt.Race {
				msg += "\n" + p.tail()
			}
		}
		p.stop()
	}
	return
}
