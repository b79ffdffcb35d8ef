//go:build go1.25

// Package vrandv2 stands in for package math/rand/v2.
package vrandv2

import (
	"math/rand/v2"

	"github.com/sencha-dev/powkit/internal/vh/shim/vrand"
	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

func Int() int                { return vrand.Int() }
func Int32() int32            { return vrand.Int31() }
func Int64() int64            { return vrand.Int63() }
func Uint32() uint32          { return vrand.Uint32() }
func Uint64() uint64          { return vrand.Uint64() }
func Uint() uint              { return uint(vrand.Uint64()) }
func Int32N(n int32) int32    { return vrand.Int31n(n) }
func Int64N(n int64) int64    { return vrand.Int63n(n) }
func IntN(n int) int          { return vrand.Intn(n) }
func Uint32N(n uint32) uint32 { return uint32(vrand.Int63n(int64(n))) }
func Uint64N(n uint64) uint64 { return uint64(vrand.Int63n(int64(n))) }
func UintN(n uint) uint       { return uint(vrand.Int63n(int64(n))) }
func Float64() float64        { return vrand.Float64() }
func Float32() float32        { return vrand.Float32() }
func Perm(n int) []int        { return vrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) {
	if vrt.Self() == nil {
		rand.Shuffle(n, swap)
	}
}

// N is generic.
func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I) I {
	return I(vrand.Int63n(int64(n)))
}
