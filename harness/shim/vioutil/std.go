//go:build go1.25

// Code generated from package io/ioutil; what is missing here is written by hand.

package vioutil

import ioutil "io/ioutil"

var Discard = ioutil.Discard
var NopCloser = ioutil.NopCloser
var ReadAll = ioutil.ReadAll
