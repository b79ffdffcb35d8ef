//go:build go1.23

// C10: Ethash and Etchash results equal the specification.
package main

import (
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/pk"
)

func main() { hx.Main("C10", "exploration", func(r *hx.Run) { pk.EthashAlgo.Explore(r) }) }
