//go:build go1.23

// Package ops19 holds what both programs of C19 use.
package ops19

import (
	"fmt"
	"sync"

	"github.com/sencha-dev/powkit/internal/vh/pk"
)

// In is one input of one operation.
type In struct {
	Op, In int
}

// Table of operations and their inputs.
type Table struct {
	Ops  []pk.Op
	Ins  [][]pk.Args
	Bad  []int // index of the first malformed input
	mu   sync.Mutex
	want map[In]pk.Result
}

// Load builds it.
func Load() *Table {
	t := &Table{Ops: pk.Ops(), want: map[In]pk.Result{}}
	for i := range t.Ops {
		good, bad := t.Ops[i].Variants()
		t.Ins = append(t.Ins, append(good, bad...))
		t.Bad = append(t.Bad, len(good))
	}
	return t
}

// Want is the result by the reference.
func (t *Table) Want(i In) pk.Result {
	t.mu.Lock()
	r, ok := t.want[i]
	t.mu.Unlock()
	if !ok {
		r = t.Ops[i.Op].Ref(t.Ins[i.Op][i.In])
		t.mu.Lock()
		t.want[i] = r
		t.mu.Unlock()
	}
	return r
}

// Held is a result that was returned.
type Held struct {
	t    *Table
	in   In
	args pk.Args
	res  pk.Result
	step int
}

// Do makes one call and checks it.
func (t *Table) Do(client any, i In, step int) (*Held, error) {
	return t.DoIn(client, i, step, nil)
}

// DoIn does so with arguments that lie where those of earlier calls in the same place did.
func (t *Table) DoIn(client any, i In, step int, at *pk.Place) (*Held, error) {
	a, guard := t.Ins[i.Op][i.In].CloneIn(at)
	h := &Held{t, i, a, t.Ops[i.Op].Call(client, a), step}
	if err := guard(); err != nil {
		return h, fmt.Errorf("call %d (%s, input %d): %w", step, t.Ops[i.Op].Name, i.In, err)
	}
	return h, h.Check("")
}

// Check compares the result with the reference now.
func (h *Held) Check(when string) error {
	if h.in.In >= h.t.Bad[h.in.Op] {
		if h.res.Err == nil {
			return fmt.Errorf("call %d (%s, malformed input %d)%s: no error", h.step, h.t.Ops[h.in.Op].Name, h.in.In, when)
		}
		return nil
	}
	if err := h.res.Same(h.t.Want(h.in)); err != nil {
		return fmt.Errorf("call %d (%s, input %d)%s: %w", h.step, h.t.Ops[h.in.Op].Name, h.in.In, when, err)
	}
	return nil
}

// ScribbleArgs overwrites the arguments that were passed.
func (h *Held) ScribbleArgs() {
	for i := range h.args.A {
		h.args.A[i] ^= 0xff
	}
	for i := range h.args.B {
		h.args.B[i] ^= 0xff
	}
	for i := range h.args.E {
		h.args.E[i] ^= ^uint64(0)
	}
}

// ScribbleResult overwrites output k.
func (h *Held) ScribbleResult(k int) {
	for i := range h.res.Out[k] {
		h.res.Out[k][i] ^= 0xff
	}
}

// Outs is the number of outputs.
func (h *Held) Outs() int {
	if h.res.Err != nil {
		return 0
	}
	return len(h.res.Out)
}

// Sequence makes calls in order, each on the client of its operation (or on a
// fresh one), and checks every result when it is returned, after each later call,
// and after arguments and other results are overwritten.
func (t *Table) Sequence(l []In, fresh []bool) error {
	clients := map[int]any{}
	var held []*Held
	for _, i := range l {
		if clients[i.Op] == nil {
			clients[i.Op] = t.Ops[i.Op].New()
		}
	}
	for n, i := range l {
		if fresh != nil && fresh[n] {
			clients[i.Op] = t.Ops[i.Op].New()
		}
		h, err := t.Do(clients[i.Op], i, n)
		if err != nil {
			return err
		}
		held = append(held, h)
		for _, o := range held {
			if err := o.Check(fmt.Sprintf(" after call %d", n)); err != nil {
				return err
			}
		}
	}
	for _, h := range held {
		h.ScribbleArgs()
	}
	for _, h := range held {
		if err := h.Check(" after its arguments were overwritten"); err != nil {
			return err
		}
	}
	if h, err := t.Do(clients[l[0].Op], l[0], len(l)); err != nil {
		return fmt.Errorf("after earlier arguments were overwritten: %w", err)
	} else {
		held = append(held, h)
	}
	for k := len(held) - 1; k >= 0; k-- {
		for o := 0; o < held[k].Outs(); o++ {
			held[k].ScribbleResult(o)
			for _, e := range held[:k] {
				if err := e.Check(fmt.Sprintf(" after the result of call %d was overwritten", k)); err != nil {
					return err
				}
			}
			if o == 0 && held[k].Outs() > 1 {
				held[k].ScribbleResult(0)
				if err := held[k].Check(""); err != nil {
					return err
				}
				held[k].ScribbleResult(0)
			}
		}
	}
	for n, i := range l {
		if _, err := t.Do(clients[i.Op], i, len(l)+1+n); err != nil {
			return fmt.Errorf("after earlier results were overwritten: %w", err)
		}
	}
	var at pk.Place
	for n, i := range append(l[:len(l):len(l)], l...) {
		if _, err := t.DoIn(clients[i.Op], i, 2*len(l)+1+n, &at); err != nil {
			return fmt.Errorf("with the arguments in the buffers of the call before: %w", err)
		}
	}
	return nil
}

// Judge compares a result with the reference.
func (t *Table) Judge(i In, r pk.Result) error { return (&Held{t, i, pk.Args{}, r, 0}).Check("") }
