//go:build race && go1.23

package vrt

import (
	"runtime"
	"unsafe"
)

// Race tells whether the race detector is on.
const Race = true

func raceOff()                      { runtime.RaceDisable() }
func raceOn()                       { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceReleaseMerge(p) }
func ReleaseStore(p unsafe.Pointer) { runtime.RaceRelease(p) }
func raceErrors() int               { return runtime.RaceErrors() }
