//go:build !race && go1.23

package vrt

import "unsafe"

// Race tells whether the race detector is on.
const Race = false

func raceOff()                      {}
func raceOn()                       {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseStore(p unsafe.Pointer) {}
func raceErrors() int               { return 0 }
