//go:build go1.25

// Code generated from package math/rand/v2; what is missing here is written by hand.

package vrandv2

import rand "math/rand/v2"

type ChaCha8 = rand.ChaCha8

var ExpFloat64 = rand.ExpFloat64

// generic func N
var New = rand.New
var NewChaCha8 = rand.NewChaCha8
var NewPCG = rand.NewPCG
var NewZipf = rand.NewZipf
var NormFloat64 = rand.NormFloat64

type PCG = rand.PCG
type Rand = rand.Rand
type Source = rand.Source
type Zipf = rand.Zipf
