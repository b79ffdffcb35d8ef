//go:build go1.25

// Package vtime stands in for package time: inside an execution every reading of
// the clock is a microsecond after the one before.
package vtime

import (
	"time"

	"github.com/sencha-dev/powkit/internal/vh/vrt"
)

var base = time.Date(2030, 1, 2, 3, 4, 5, 0, time.UTC)

// Now reads the clock.
func Now() time.Time {
	if n, ok := vrt.Now(); ok {
		return base.Add(time.Duration(n))
	}
	return time.Now()
}

// Since is the time that passed.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is the time left.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
