//go:build go1.25

// Code generated from package math/rand; what is missing here is written by hand.

package vrand

import rand "math/rand"

var ExpFloat64 = rand.ExpFloat64
var New = rand.New
var NewSource = rand.NewSource
var NewZipf = rand.NewZipf
var NormFloat64 = rand.NormFloat64

type Rand = rand.Rand
type Source = rand.Source
type Source64 = rand.Source64
type Zipf = rand.Zipf
