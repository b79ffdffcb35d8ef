//go:build go1.25

package main

import "unsafe"

func ptrOf(d []uint32) unsafe.Pointer { return unsafe.Pointer(unsafe.SliceData(d)) }

func ptrOf1(p *uint32) unsafe.Pointer { return unsafe.Pointer(p) }
