//go:build go1.25

package vrt

import "reflect"

// bind evaluates a go statement's function and arguments.
func bind(f any, args []any, spread bool) func() {
	if g, ok := f.(func()); ok && len(args) == 0 {
		return g
	}
	v := reflect.ValueOf(f)
	ft := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		switch {
		case ft.IsVariadic() && i >= ft.NumIn()-1:
			pt = ft.In(ft.NumIn() - 1)
			if !spread {
				pt = pt.Elem()
			}
		default:
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		in[i] = reflect.ValueOf(a)
		if !in[i].Type().AssignableTo(pt) && in[i].Type().ConvertibleTo(pt) {
			in[i] = in[i].Convert(pt)
		}
	}
	return func() {
		if spread {
			v.CallSlice(in)
		} else {
			v.Call(in)
		}
	}
}

var procs [16]func(func(any)) any

// RegisterProc registers the copy of the epoch data package of a process.
func RegisterProc(k int, f func(fill func(any)) any) { procs[k] = f }

// NewIn makes an epoch data holder from the copy of process k; fill sets its configuration.
func NewIn(k int, fill func(cfg any)) any { return procs[k](fill) }
