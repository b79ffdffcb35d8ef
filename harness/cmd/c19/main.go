//go:build go1.23

// C19: every operation is a pure function of its arguments (sequences).
package main

import (
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ops19"
)

type seqCase struct {
	Calls []ops19.In
	Fresh []bool `json:",omitempty"`
	Names []string
}

func main() {
	t := ops19.Load()
	name := func(c seqCase) seqCase {
		for _, i := range c.Calls {
			c.Names = append(c.Names, t.Ops[i.Op].Name)
		}
		return c
	}
	eval := func(w *hx.W, c seqCase) (bool, error) {
		w.Add(int64(len(c.Calls))*4, 0)
		return true, t.Sequence(c.Calls, c.Fresh)
	}
	hx.Main("C19", "exploration", func(r *hx.Run) {
		r.Assume("results by the reference implementations in harness/ref are right (they share no state with powkit)")
		r.Extra("operations", len(t.Ops))
		hx.Explore(r, hx.Suite[seqCase]{
			Name: "pairs", Workers: 1,
			Rule: "every ordered pair of inputs of every operation, on one client and on two: inputs differ in one respect only (one byte of the header, the nonce in a low, middle or high bit, another height of the same period, period or epoch, one element of the solution) or are malformed; after each call and after arguments and results are overwritten, all results so far are compared with the reference again, then the calls are repeated, and repeated with each call's arguments in the buffers of the call before",
			Gen: func(yield func(seqCase) bool) {
				for o := range t.Ops {
					for i := range t.Ins[o] {
						for j := range t.Ins[o] {
							for _, f := range []bool{false, true} {
								if f && (i+j)%3 != 0 && !r.Thorough() {
									continue
								}
								c := seqCase{Calls: []ops19.In{{o, i}, {o, j}}}
								if f {
									c.Fresh = []bool{false, true}
								}
								if !yield(name(c)) {
									return
								}
							}
						}
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[seqCase]{
			Name: "clients", Workers: 1,
			Rule: "every ordered pair of operations (algorithms and parameter sets) with two inputs each, interleaved a b a b on living clients",
			Gen: func(yield func(seqCase) bool) {
				for a := range t.Ops {
					for b := range t.Ops {
						if a == b {
							continue
						}
						for v := 0; v < 2; v++ {
							if v == 1 && t.Ops[a].Algo != t.Ops[b].Algo && !r.Thorough() {
								continue
							}
							c := seqCase{Calls: []ops19.In{{a, v}, {b, 0}, {a, 0}, {b, v}}}
							if !yield(name(c)) {
								return
							}
						}
					}
				}
			},
			Eval: eval,
		})
		hx.Explore(r, hx.Suite[seqCase]{
			Name: "histories", Workers: 1,
			Rule: "for every operation, a cyclic history in which every sequence of three of its inputs occurs (9 inputs, thorough: 20), on one client",
			Gen: func(yield func(seqCase) bool) {
				for o := range t.Ops {
					c := seqCase{}
					for _, i := range deBruijn(min(len(t.Ins[o]), hx.Pick(r, 9, 20)), 3) {
						c.Calls = append(c.Calls, ops19.In{Op: o, In: i})
					}
					if !yield(c) {
						return
					}
				}
			},
			Eval: func(w *hx.W, c seqCase) (bool, error) {
				cl := t.Ops[c.Calls[0].Op].New()
				var held []*ops19.Held
				for n, i := range append(c.Calls, c.Calls[:2]...) {
					h, err := t.Do(cl, i, n)
					if err != nil {
						return true, err
					}
					held = append(held, h)
					w.Add(1, 0)
				}
				for _, h := range held {
					if err := h.Check(" at the end"); err != nil {
						return true, err
					}
				}
				return true, nil
			},
		})
	})
}

// deBruijn is the sequence over k symbols that contains each word of length n once.
func deBruijn(k, n int) (out []int) {
	a := make([]int, k*n)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return
}
