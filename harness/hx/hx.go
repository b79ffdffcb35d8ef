//go:build go1.23

// Package hx runs exhaustive enumerations of cases in parallel, turns failures
// into replay files, and writes the evidence file.
package hx

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is what a replay file holds.
type Violation struct {
	Property string          `json:"property"`
	Suite    string          `json:"suite"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
	Repeats  string          `json:"repeats,omitempty"`
}

// Run is one run of one check.
type Run struct {
	Prop, Level, Tier string
	Seed              int64
	Scratch           string
	OutDir            string
	Workers           int

	evidence string
	replay   *Violation
	replayed bool
	known    []Violation
	start    time.Time
	deadline time.Time

	mu         sync.Mutex
	violations []Violation
	suites     []*suiteStat
	extra      map[string]any
	counters   map[string]int64
	samples    []any
	rules      []string
	assume     []string
	exhaustive bool
	notes      []string
}

type suiteStat struct {
	Name     string `json:"suite"`
	Cases    int64  `json:"cases"`
	Evals    int64  `json:"evaluations"`
	Distinct int64  `json:"distinct_nontrivial"`
	Complete bool   `json:"complete"`
	WallMs   int64  `json:"wall_ms"`
	Rule     string `json:"rule"`
}

// Thorough tells the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](r *Run, q, t T) T {
	if r.Thorough() {
		return t
	}
	return q
}

// Assume records an assumption.
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Extra adds a key to the coverage object.
func (r *Run) Extra(k string, v any) { r.mu.Lock(); r.extra[k] = v; r.mu.Unlock() }

// Count adds to a measured counter of the coverage object.
func (r *Run) Count(k string, n int64) { r.mu.Lock(); r.counters[k] += n; r.mu.Unlock() }

// Sample records an actual case (a few are kept).
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 40 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Incomplete records that some space was not enumerated completely.
func (r *Run) Incomplete(why string) {
	r.mu.Lock()
	r.exhaustive = false
	r.notes = append(r.notes, why)
	r.mu.Unlock()
}

// Replaying tells whether the run replays one case.
func (r *Run) Replaying() bool { return r.replay != nil }

// TimeLeft is the time to the internal deadline.
func (r *Run) TimeLeft() time.Duration { return time.Until(r.deadline) }

var (
	fTier     = flag.String("tier", "quick", "")
	fSeed     = flag.Int64("seed", 1, "")
	fScratch  = flag.String("scratch", "", "")
	fOut      = flag.String("out", "", "")
	fEvidence = flag.String("evidence", "", "")
	fReplay   = flag.String("replay", "", "")
	fKnown    = flag.String("known", "", "")
	fBudget   = flag.Duration("budget", 10*time.Minute, "")
)

// Main runs a check and exits.
func Main(prop, level string, body func(*Run)) {
	r := &Run{Prop: prop, Level: level, extra: map[string]any{}, counters: map[string]int64{}, exhaustive: true, start: time.Now()}
	flag.Parse()
	r.Tier, r.Seed, r.Scratch, r.OutDir, r.evidence = *fTier, *fSeed, *fScratch, *fOut, *fEvidence
	replay, known, budget := *fReplay, *fKnown, *fBudget
	debug.SetPanicOnFault(true)
	r.deadline = r.start.Add(budget)
	r.Workers = runtime.NumCPU()
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.replay = new(Violation)
		if err := json.Unmarshal(b, r.replay); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	r.loadKnown(known)
	body(r)
	r.Finish()
}

func (r *Run) loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		line, ok := strings.CutPrefix(sc.Text(), "known: ")
		if !ok {
			continue
		}
		var v Violation
		if json.Unmarshal([]byte(line), &v) == nil && v.Property == r.Prop {
			r.known = append(r.known, v)
		}
	}
}

// Finish writes the evidence and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.replay != nil {
		if !r.replayed {
			fmt.Fprintf(os.Stderr, "replay: no suite %q in %s\n", r.replay.Suite, r.Prop)
			os.Exit(2)
		}
	} else {
		r.writeEvidence()
	}
	if len(r.violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func (r *Run) writeEvidence() {
	cov := map[string]any{}
	var ev, dn int64
	for _, s := range r.suites {
		ev += s.Evals
		dn += s.Distinct
		r.rules = append(r.rules, s.Name+": "+s.Rule)
		if !s.Complete {
			r.exhaustive = false
		}
	}
	if len(r.suites) > 0 {
		cov["suites"] = r.suites
	}
	switch r.Level {
	case "model_checking":
		for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
			cov[k] = r.counters[k]
		}
	}
	if r.Level != "model_checking" {
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = dn
	}
	cov["rule"] = strings.Join(r.rules, " | ")
	for k, v := range r.counters {
		cov[k] = v
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	cov["samples"] = r.samples
	cov["exhaustive"] = r.exhaustive
	if len(r.notes) > 0 {
		cov["not_covered"] = r.notes
	}
	out := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"violations": len(r.violations), "assumptions": r.assume,
	}
	if r.assume == nil {
		out["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err == nil && r.evidence != "" {
		err = os.WriteFile(r.evidence, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

// Report records a violation (or a known finding) and returns whether it counts.
func (r *Run) Report(suite string, c any, msg, repeats string) bool {
	raw, _ := json.Marshal(c)
	v := Violation{r.Prop, suite, raw, msg, repeats}
	for _, k := range r.known {
		if variant()+k.Suite == suite && string(k.Case) == string(raw) {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.Prop, suite, firstLine(msg))
			return false
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violations = append(r.violations, v)
	h := fnv.New32a()
	h.Write(raw)
	path := filepath.Join(r.OutDir, fmt.Sprintf("%s-%s-%08x.json", r.Prop, suite, h.Sum32()))
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: suite %s: %s\n  case %s\n", r.Prop, suite, msg, trunc(string(raw), 600))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	return true
}

// Plain is a run that only knows its tier.
func Plain(tier string) *Run {
	return &Run{Tier: tier, extra: map[string]any{}, counters: map[string]int64{}}
}

// ReplayCase returns the case to replay if it is one of the suite.
func (r *Run) ReplayCase(suite string) (json.RawMessage, bool) {
	if r.replay == nil || r.replay.Suite != suite {
		return nil, false
	}
	r.replayed = true
	return r.replay.Case, true
}

// Finished records a suite that was explored elsewhere.
func (r *Run) Finished(name, rule string, cases, evals, distinct int64, complete bool, wall time.Duration) {
	r.mu.Lock()
	r.suites = append(r.suites, &suiteStat{Name: name, Rule: rule, Cases: cases, Evals: evals, Distinct: distinct, Complete: complete, WallMs: wall.Milliseconds()})
	r.mu.Unlock()
	fmt.Printf("%s/%s: %d cases, %d executions, complete=%v, %dms\n", r.Prop, name, cases, evals, complete, wall.Milliseconds())
}

// Violated tells whether a violation was reported.
func (r *Run) Violated() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.violations) > 0 }

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// W is one worker of a suite.
type W struct {
	R        *Run
	ID       int
	evals    int64
	distinct int64
	begin    atomic.Int64
	cpu      atomic.Int64
	cur      atomic.Value // json.RawMessage
	Local    any          // scratch kept between cases of one worker
}

// Add counts n further evaluations made inside the current case, d of them distinct and non-trivial.
func (w *W) Add(n, d int64) { w.evals += n; w.distinct += d }

// Suite describes an enumeration.
type Suite[T any] struct {
	Name string
	Rule string
	// Gen enumerates the cases, in a fixed order, simplest first.
	Gen func(yield func(T) bool)
	// Eval evaluates one case; a panic counts as an error.
	Eval func(w *W, c T) (nontrivial bool, err error)
	// Limit is how long one case may take before it counts as not returning (default 150s).
	Limit time.Duration
	// Workers limits the parallelism.
	Workers int
	// Budget stops the suite early (0: only the run's deadline does).
	Budget time.Duration
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func call[T any](s *Suite[T], w *W, c T) (nt bool, err error) {
	debug.SetPanicOnFault(true)
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return s.Eval(w, c)
}

// variant tells in which other build of powkit (word size, generic code) the suites run.
func variant() string {
	if v := os.Getenv("VERIF_VARIANT"); v != "" {
		return v + "-"
	}
	return ""
}

// Explore evaluates every case of a suite.
func Explore[T any](r *Run, s Suite[T]) {
	if s.Limit == 0 {
		s.Limit = 150 * time.Second
	}
	if v := os.Getenv("VERIF_SUITES"); v != "" && r.replay == nil && !regexp.MustCompile("^("+v+")$").MatchString(s.Name) {
		return
	}
	s.Name = variant() + s.Name
	if r.replay != nil {
		if r.replay.Suite != s.Name {
			return
		}
		var c T
		if err := json.Unmarshal(r.replay.Case, &c); err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(2)
		}
		r.replayed = true
		w := &W{R: r}
		done := make(chan struct{})
		go func() {
			select {
			case <-done:
			case <-time.After(s.Limit):
				r.Report(s.Name, c, fmt.Sprintf("did not return within %v", s.Limit), "")
				os.Exit(1)
			}
		}()
		_, err := call(&s, w, c)
		close(done)
		if err != nil {
			r.Report(s.Name, c, err.Error(), "")
		} else {
			fmt.Printf("%s: suite %s: case holds\n", r.Prop, s.Name)
		}
		return
	}
	st := &suiteStat{Name: s.Name, Rule: s.Rule, Complete: true}
	r.suites = append(r.suites, st)
	t0 := time.Now()
	deadline := r.deadline
	if s.Budget > 0 && t0.Add(s.Budget).Before(deadline) {
		deadline = t0.Add(s.Budget)
	}
	n := r.Workers
	if s.Workers > 0 && s.Workers < n {
		n = s.Workers
	}
	type item struct {
		c  T
		no int64
	}
	ch := make(chan item, 4*n)
	var stop atomic.Bool
	var wg sync.WaitGroup
	ws := make([]*W, n)
	seen := newSet()
	type failure struct {
		no  int64
		c   T
		err error
	}
	var fmu sync.Mutex
	var fails []failure
	quit := make(chan struct{})
	for i := range ws {
		w := &W{R: r, ID: i}
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range ch {
				if stop.Load() {
					continue
				}
				raw, _ := json.Marshal(it.c)
				w.cur.Store(json.RawMessage(raw))
				w.cpu.Store(int64(cpuTime()))
				w.begin.Store(time.Now().UnixNano())
				nt, err := call(&s, w, it.c)
				w.begin.Store(0)
				w.evals++
				if nt && seen.add(raw) {
					w.distinct++
				}
				if err != nil {
					fmu.Lock()
					fails = append(fails, failure{it.no, it.c, err})
					fmu.Unlock()
					stop.Store(true)
				}
			}
		}()
	}
	go func() { // watchdog: a case that does not return
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-quit:
				return
			case <-tick.C:
			}
			for _, w := range ws {
				b := w.begin.Load()
				if b == 0 || time.Since(time.Unix(0, b)) < s.Limit {
					continue
				}
				raw := w.cur.Load().(json.RawMessage)
				if w.begin.Load() != b {
					continue
				}
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				if r.Report(s.Name, raw, fmt.Sprintf("did not return within %v\n%s", s.Limit, buf), "") {
					r.mu.Lock()
					r.writeEvidence()
					os.Exit(1)
				}
			}
		}
	}()
	sampled := 0
	s.Gen(func(c T) bool {
		if stop.Load() {
			return false
		}
		if time.Now().After(deadline) {
			st.Complete = false
			return false
		}
		if sampled < 3 {
			r.Sample(map[string]any{"suite": s.Name, "case": c})
			sampled++
		}
		st.Cases++
		ch <- item{c, st.Cases}
		return true
	})
	close(ch)
	wg.Wait()
	close(quit)
	for _, w := range ws {
		st.Evals += w.evals
		st.Distinct += w.distinct
	}
	st.WallMs = time.Since(t0).Milliseconds()
	if !st.Complete {
		r.Incomplete(fmt.Sprintf("suite %s stopped at its deadline after %d cases", s.Name, st.Cases))
	}
	if len(fails) > 0 {
		st.Complete = false
		sort.Slice(fails, func(i, j int) bool { return fails[i].no < fails[j].no })
		f := fails[0]
		rep, tries := 0, 0
		t1 := time.Now()
		for ; tries < 5 && time.Since(t1) < 60*time.Second; tries++ {
			if _, err := call(&s, &W{R: r}, f.c); err != nil {
				rep++
			}
		}
		r.Report(s.Name, f.c, f.err.Error(), fmt.Sprintf("%d of %d", rep, tries))
	}
	fmt.Printf("%s/%s: %d cases, %d evaluations, %d distinct non-trivial, complete=%v, %dms\n", r.Prop, s.Name, st.Cases, st.Evals, st.Distinct, st.Complete, st.WallMs)
}

type set struct {
	sh [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
}

func newSet() *set {
	s := &set{}
	for i := range s.sh {
		s.sh[i].m = map[uint64]struct{}{}
	}
	return s
}

func (s *set) add(b []byte) bool {
	h := fnv.New64a()
	h.Write(b)
	k := h.Sum64()
	sh := &s.sh[k%64]
	sh.Lock()
	defer sh.Unlock()
	if _, ok := sh.m[k]; ok {
		return false
	}
	sh.m[k] = struct{}{}
	return true
}
