//go:build go1.23

// C20: malformed input is rejected, and nothing panics.
package main

import (
	"fmt"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
)

var (
	ops     = pk.Ops()
	clients []any
)

// call makes one call and checks its form: a result of the right size, or an error and no result.
func call(o int, a pk.Args, mustErr bool) error {
	in, guard := a.Clone()
	r := ops[o].Call(clients[o], in)
	if err := guard(); err != nil {
		return err
	}
	if r.Err == nil {
		if mustErr {
			return fmt.Errorf("%s: no error for lengths %d, %d, %d", ops[o].Name, len(a.A), len(a.B), len(a.E))
		}
		for i, out := range r.Out {
			if len(out) != 32 {
				return fmt.Errorf("%s: output %d has %d bytes", ops[o].Name, i, len(out))
			}
		}
		return nil
	}
	if r.OK {
		return fmt.Errorf("%s: verdict true with error %v", ops[o].Name, r.Err)
	}
	for i, out := range r.Out {
		if len(out) != 0 {
			return fmt.Errorf("%s: output %d with error %v", ops[o].Name, i, r.Err)
		}
	}
	return nil
}

type sizeCase struct {
	Op      string
	A, B, E int // lengths, -1: nil
	Fill    uint64
	opi     int
}

func buf(n int, fill uint64) []byte {
	if n < 0 {
		return nil
	}
	if fill == 0 {
		return make([]byte, n)
	}
	r := hx.Rng(fill)
	return r.Bytes(n)
}

func edges(n int, fill uint64) []uint64 {
	if n < 0 {
		return nil
	}
	out := make([]uint64, n)
	r := hx.Rng(fill)
	for i := range out {
		switch fill {
		case 0:
		case 1:
			out[i] = uint64(i)
		case 2:
			out[i] = ^uint64(0)
		case 3:
			out[i] = r.Next()
		case 4:
			out[i] = uint64(i / 2)
		case 5:
			out[i] = 1<<29 - uint64(n) + uint64(i)
		case 6:
			out[i] = 1<<30 - uint64(n) + uint64(i)
		case 7:
			out[i] = uint64(i) << 40
		case 8:
			out[i] = uint64(n - i)
		default:
			out[i] = r.Next() % (1 << 20) / uint64(n) * uint64(n)
			if i > 0 {
				out[i] = out[i-1] + 1 + r.Next()%1000
			}
		}
	}
	return out
}

func opOf(name string) int {
	for i := range ops {
		if ops[i].Name == name {
			return i
		}
	}
	panic(name)
}

type contentCase struct {
	Op   string
	What string
	Bits hx.BitsCase
	N    uint64
	X    uint64
}

type aroundCase struct {
	I     int
	Op    string
	V     int // which acceptable input
	Arg   string
	D     int // elements more
	Fill  int
	Front bool
}

// resize cuts or extends s.
func resize[T byte | uint64](s []T, c aroundCase) []T {
	if c.D < 0 {
		if c.Front {
			return append([]T(nil), s[-c.D:]...)
		}
		return append([]T{}, s[:len(s)+c.D]...)
	}
	x := make([]T, c.D)
	for i := range x {
		switch c.Fill {
		case 1:
			x[i]--
		case 2:
			x[i] = s[i%len(s)]
		case 3:
			x[i] = s[len(s)-1] + T(i) + 1
		}
	}
	if c.Front {
		return append(x, s...)
	}
	return append(append([]T(nil), s...), x...)
}

func main() {
	for i := range ops {
		clients = append(clients, ops[i].New())
	}
	hx.Main("C20", "exploration", func(r *hx.Run) {
		r.Extra("operations", len(ops))
		hx.Explore(r, hx.Suite[sizeCase]{
			Name: "sizes",
			Rule: "for every operation and every argument of fixed size, each length 0..320 and some longer ones and nil, zero and filled, alone and with a wrong size of the other argument: an error and no result; free headers of every length 0..1100 and around powers of two",
			Gen: func(yield func(sizeCase) bool) {
				lens := []int{-1}
				for n := 0; n <= 320; n++ {
					lens = append(lens, n)
				}
				lens = append(lens, 511, 512, 513, 1000, 1344, 4096, 65536)
				for i, o := range ops {
					b, e := o.LenB, o.LenE
					if e == 0 {
						e = -1
					}
					for _, n := range lens {
						for fill := uint64(0); fill < 2; fill++ {
							a := o.LenA
							if a < 0 {
								a = 80
							}
							l := []sizeCase{{o.Name, n, b, e, fill, i}}
							if o.LenB > 0 {
								l = append(l, sizeCase{o.Name, a, n, e, fill, i}, sizeCase{o.Name, n, 3, e, fill, i}, sizeCase{o.Name, 3, n, e, fill, i})
								for d := -20; d <= 70; d++ {
									if n == 0 {
										l = append(l, sizeCase{o.Name, a, o.LenB + d, e, fill, i})
									}
								}
							}
							if o.LenE > 0 {
								l = append(l, sizeCase{o.Name, a, b, n, fill, i}, sizeCase{o.Name, n, b, 3, fill, i})
							}
							for _, c := range l {
								if !yield(c) {
									return
								}
							}
						}
					}
					if o.LenA < 0 {
						for _, n := range []int{2047, 2048, 2049, 4095, 4097, 8192, 16384, 32768, 65535, 65537, 1 << 20} {
							if !yield(sizeCase{o.Name, n, b, e, 1, i}) {
								return
							}
						}
						for n := 321; n <= 1100; n++ {
							if !yield(sizeCase{o.Name, n, b, e, 1, i}) {
								return
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c sizeCase) (bool, error) {
				i := opOf(c.Op)
				o := ops[i]
				a := pk.Args{A: buf(c.A, c.Fill), B: buf(c.B, c.Fill+5), E: edges(c.E, c.Fill+1), X: o.Base.X, Y: 3}
				if o.LenB == 0 {
					a.B = nil
				}
				bad := o.LenA >= 0 && c.A != o.LenA || o.LenB > 0 && c.B != o.LenB || o.LenE > 0 && c.E != o.LenE
				return true, call(i, a, bad)
			},
		})
		hx.Explore(r, hx.Suite[aroundCase]{
			Name: "around",
			Rule: "around every acceptable input: each argument of fixed size cut to every shorter length from either end, and extended at either end by 1 to 80 elements (zeros, ones, its own elements, for edges also ever larger ones): an error and no result",
			Gen: func(yield func(aroundCase) bool) {
				for i, o := range ops {
					valid := o.Valid
					if len(valid) == 0 {
						valid = []pk.Args{o.Base}
					}
					for v := range valid {
						if v >= hx.Pick(r, 2, 8) {
							break
						}
						for _, arg := range "ABE" {
							n := map[rune]int{'A': o.LenA, 'B': o.LenB, 'E': o.LenE}[arg]
							if n <= 0 {
								continue
							}
							for d := -n; d <= 80; d++ {
								for fill := 0; fill < 4; fill++ {
									for _, front := range []bool{false, true} {
										if d == 0 || d < 0 && fill > 0 || d < -100 && d%7 != 0 && !r.Thorough() {
											continue
										}
										if !yield(aroundCase{i, o.Name, v, string(arg), d, fill, front}) {
											return
										}
									}
								}
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c aroundCase) (bool, error) {
				o := ops[c.I]
				a := o.Base
				if len(o.Valid) > 0 {
					a = o.Valid[c.V]
				}
				switch c.Arg {
				case "A":
					a.A = resize(a.A, c)
				case "B":
					a.B = resize(a.B, c)
				case "E":
					a.E = resize(a.E, c)
				}
				return true, call(c.I, a, true)
			},
		})
		hx.Explore(r, hx.Suite[contentCase]{
			Name: "contents",
			Rule: "for every operation arguments of the right size with any content: bit strings of weight at most 1, their complements and single flips of fills as header and as solution, every kind of edge list, every boundary value of height (below 2^32 for Autolykos, of the tiny chain for DAG algorithms), timestamp and nonce",
			Gen: func(yield func(contentCase) bool) {
				for _, o := range ops {
					slow := o.LenB > 500 && !r.Thorough()
					na := o.LenA
					if na < 0 {
						na = 80
					}
					for _, b := range hx.Weight(8*na, false, hx.Pick(r, 1, 4)) {
						if slow && len(b.Set) > 0 && b.Set[0]%16 != 0 {
							continue
						}
						if !yield(contentCase{Op: o.Name, What: "A", Bits: b}) {
							return
						}
					}
					if o.LenB > 0 {
						for _, b := range hx.Weight(8*o.LenB, false, hx.Pick(r, 1, 2)) {
							if slow && len(b.Set) > 0 && b.Set[0]%21 != 0 {
								continue
							}
							if !yield(contentCase{Op: o.Name, What: "B", Bits: b}) {
								return
							}
						}
					}
					if o.LenE > 0 {
						for n := uint64(0); n < uint64(hx.Pick(r, 300, 5000)); n++ {
							if !yield(contentCase{Op: o.Name, What: "E", N: n}) {
								return
							}
						}
					}
					if o.HasY {
						for i, x := range hx.Words64() {
							if !yield(contentCase{Op: o.Name, What: "Y", N: x, X: uint64(i)}) {
								return
							}
							if o.Algo == "autolykos2" {
								x &= 1<<32 - 1
							} else if o.Algo != "heavyhash" {
								x &= 1<<12 - 1
							}
							if !yield(contentCase{Op: o.Name, What: "X", X: x, N: uint64(i)}) {
								return
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c contentCase) (bool, error) {
				i := opOf(c.Op)
				a := ops[i].Base
				switch c.What {
				case "A":
					n := ops[i].LenA
					if n < 0 {
						n = 80
					}
					a.A = c.Bits.Bytes(n)
				case "B":
					a.B = c.Bits.Bytes(ops[i].LenB)
				case "E":
					a.E = edges(ops[i].LenE, c.N)
				case "X", "Y":
					a.X, a.Y = c.X, c.N
				}
				return true, call(i, a, false)
			},
		})
		type paramCase struct {
			Algo string
			P, Q int
			Fill uint64
		}
		hx.Explore(r, hx.Suite[paramCase]{
			Name: "parameters",
			Rule: "other admissible parameters: Equihash c 8..25 and k 3..9, Cuckoo and Cuckaroo with every even proof size up to 42 and 1 to 63 edge bits, Autolykos with 1..32 elements and exponents 10..26; several contents each, and wrong sizes",
			Gen: func(yield func(paramCase) bool) {
				for f := uint64(0); f < uint64(hx.Pick(r, 10, 40)); f++ {
					for c := 8; c <= 25; c++ {
						for k := 3; k <= 9; k++ {
							if n := c * (k + 1); n <= 512 && 512/n*((n+7)/8) <= 64 && !yield(paramCase{"equihash", n, k, f}) {
								return
							}
						}
					}
					for eb := 1; eb <= 63; eb += 2 {
						for size := 2; size <= 42; size += 2 {
							for _, a := range []string{"cuckoo", "cuckaroo"} {
								if !yield(paramCase{a, eb, size, f}) {
									return
								}
							}
						}
					}
					for k := 1; k <= 32; k += 3 {
						for n := 10; n <= 26; n += 4 {
							if f < 3 && !yield(paramCase{"autolykos2", k, n, f}) {
								return
							}
						}
					}
				}
			},
			Eval: func(w *hx.W, c paramCase) (bool, error) {
				switch c.Algo {
				case "equihash":
					cl := equihash.New(uint32(c.P), uint32(c.Q), "ZcashPoW", false)
					l := (1 << uint(c.Q)) * (c.P/(c.Q+1) + 1) / 8
					for _, n := range []int{l, 0, l - 1, l + 1, 2 * l} {
						ok, err := cl.Verify(buf(int(c.Fill)*20, 1), buf(n, c.Fill))
						if ok && err != nil || n != l && err == nil {
							return true, fmt.Errorf("solution of %d bytes instead of %d: %v, %v", n, l, ok, err)
						}
					}
				case "cuckoo", "cuckaroo":
					cl := cuckoo.NewCuckoo(c.P, c.Q, crypto.SipNode24, nil)
					if c.Algo == "cuckaroo" {
						cl = cuckoo.NewCuckaroo(c.P, c.Q, nil, crypto.SipBlock48)
					}
					for _, n := range []int{c.Q, 0, c.Q - 1, c.Q + 1, 2 * c.Q} {
						ok, err := cl.Verify(buf(int(c.Fill)*20, 1), edges(n, c.Fill))
						if ok && err != nil || n != c.Q && err == nil {
							return true, fmt.Errorf("%d edges instead of %d: %v, %v", n, c.Q, ok, err)
						}
					}
				case "autolykos2":
					cl := autolykos2.New(uint32(c.P), uint32(c.Q))
					for _, n := range []int{32, 0, 31, 33, 64} {
						out, err := cl.Compute(buf(n, c.Fill), c.Fill*1000000, 1)
						if (n == 32) != (err == nil) || (len(out) == 32) != (err == nil) {
							return true, fmt.Errorf("message of %d bytes: %x, %v", n, out, err)
						}
					}
				}
				return true, nil
			},
		})
	})
}
