//go:build go1.23

// C19: every operation is a pure function of its arguments (concurrent calls, race detector).
package main

import (
	"fmt"
	"sync"

	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ops19"
)

type pairCase struct {
	A, B   ops19.In
	Shared bool // one client
	Names  [2]string
}

func main() {
	t := ops19.Load()
	hx.Main("C19", "exploration", func(r *hx.Run) {
		hx.Explore(r, hx.Suite[pairCase]{
			Name: "concurrent", Workers: 2,
			Rule: "every pair of operations and, for each operation, several pairs of inputs, called at the same time from two goroutines without any synchronisation between them, on one client and on two, the same argument slices passed to both, under the race detector: no two accesses conflict, so every interleaving gives what one order gives, and that is compared with the reference",
			Gen: func(yield func(pairCase) bool) {
				for a := range t.Ops {
					for b := 0; b <= a; b++ {
						c := pairCase{A: ops19.In{Op: a}, B: ops19.In{Op: b, In: 1}, Names: [2]string{t.Ops[a].Name, t.Ops[b].Name}}
						if a != b {
							if !yield(c) {
								return
							}
							continue
						}
						n := len(t.Ins[a])
						for i := 0; i < n; i++ {
							for _, j := range []int{0, i, (i + 1) % n, n - 1} {
								c.A.In, c.B.In = i, j
								for _, c.Shared = range []bool{true, false} {
									if !c.Shared && j != i && !r.Thorough() {
										continue
									}
									if !yield(c) {
										return
									}
								}
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c pairCase) (bool, error) {
				x := t.Ops[c.A.Op].New()
				y := x
				if !c.Shared {
					y = t.Ops[c.B.Op].New()
				}
				for _, i := range []ops19.In{c.A, c.B} {
					if i.In < t.Bad[i.Op] {
						t.Want(i)
					}
				}
				var wg sync.WaitGroup
				var errs [2]error
				start := make(chan struct{})
				for g, i := range []ops19.In{c.A, c.B} {
					wg.Add(1)
					cl := []any{x, y}[g]
					go func() {
						defer wg.Done()
						defer func() {
							if p := recover(); p != nil {
								errs[g] = fmt.Errorf("panic: %v", p)
							}
						}()
						<-start
						args := t.Ins[i.Op][i.In] // shared by both when equal
						for n := 0; n < 2; n++ {
							if errs[g] = t.Judge(i, t.Ops[i.Op].Call(cl, args)); errs[g] != nil {
								return
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				w.Add(4, 0)
				for _, err := range errs {
					if err != nil {
						return true, err
					}
				}
				return true, nil
			},
		})
	})
}
