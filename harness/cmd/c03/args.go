//go:build go1.25

package main

import "reflect"

func args(a ...any) (out []reflect.Value) {
	for _, x := range a {
		out = append(out, reflect.ValueOf(x))
	}
	return
}
