//go:build go1.25

// Package vrand stands in for package math/rand: inside an execution numbers from
// a wide range are all different, and those from a narrow range all equal.
package vrand

import (
	"math/rand"

	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

const narrow = 1 << 24

// seeded is the generator of a process that called Seed.
func seeded() *rand.Rand {
	if t := vrt.Self(); t != nil {
		if r, ok := (*t.Rng()).(*rand.Rand); ok {
			return r
		}
	}
	return nil
}

// Seed seeds.
func Seed(s int64) {
	if t := vrt.Self(); t != nil {
		*t.Rng() = rand.New(rand.NewSource(s))
		return
	}
	rand.Seed(s)
}

func wide(max int64, real func() int64, sd func(*rand.Rand) int64) int64 {
	if r := seeded(); r != nil {
		return sd(r)
	}
	n, ok := vrt.Unique()
	if !ok {
		return real()
	}
	if max > 0 && max < narrow {
		return 0
	}
	v := n*0x3_9e37_79b9 + 0x1234_5678
	if max > 0 {
		v %= max
	}
	return v & (1<<63 - 1)
}

func Int63() int64 { return wide(0, rand.Int63, (*rand.Rand).Int63) }
func Int() int     { return int(Int63()) }
func Int31() int32 {
	return int32(wide(1<<31, func() int64 { return int64(rand.Int31()) }, func(r *rand.Rand) int64 { return int64(r.Int31()) }))
}
func Uint32() uint32 {
	return uint32(wide(1<<32, func() int64 { return int64(rand.Uint32()) }, func(r *rand.Rand) int64 { return int64(r.Uint32()) }))
}
func Uint64() uint64 { return uint64(Int63()) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return wide(n, func() int64 { return rand.Int63n(n) }, func(r *rand.Rand) int64 { return r.Int63n(n) })
}
func Int31n(n int32) int32 { return int32(Int63n(int64(n))) }
func Intn(n int) int       { return int(Int63n(int64(n))) }
func Float64() float64     { return float64(Int63n(1<<53)) / (1 << 53) }
func Float32() float32     { return float32(Int63n(1<<24)) / (1 << 24) }
func Perm(n int) []int {
	if vrt.Self() == nil {
		return rand.Perm(n)
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	if vrt.Self() == nil {
		rand.Shuffle(n, swap)
	}
}
func Read(p []byte) (int, error) {
	if vrt.Self() == nil {
		return rand.Read(p)
	}
	for i := range p {
		p[i] = byte(Int63() >> 20)
	}
	return len(p), nil
}
