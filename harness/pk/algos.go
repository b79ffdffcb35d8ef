//go:build go1.23

package pk

import (
	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/vh/ref"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

func two(a, b []byte, err error) ([][]byte, error) { return [][]byte{a, b}, err }

// The DAG-based algorithms.
var (
	EthashAlgo = &Algo{
		Name:  "ethash",
		Ships: []Shipped{{ref.ETH, func() any { return ethash.NewEthereum() }}, {ref.ETC, func() any { return ethash.NewEthereumClassic() }}},
		New:   func(cfg dag.Config) any { return ethash.New(cfg) },
		Call: func(c any, hash []byte, height, nonce uint64) ([][]byte, error) {
			return two(c.(*ethash.Client).Compute(hash, height, nonce))
		},
		Ref: func(c ref.Chain, hash []byte, height, nonce uint64) [][]byte {
			a, b := Ethash(c, hash, height, nonce)
			return [][]byte{a, b}
		},
		Mix: 128, Item: 128,
	}
	KawpowAlgo = &Algo{
		Name: "kawpow", Prefix: "kawpow-",
		Ships: []Shipped{{ref.RVN, func() any { return kawpow.NewRavencoin() }}},
		New:   func(cfg dag.Config) any { return kawpow.New(cfg) },
		Call: func(c any, hash []byte, height, nonce uint64) ([][]byte, error) {
			return two(c.(*kawpow.Client).Compute(hash, height, nonce))
		},
		Ref: func(c ref.Chain, hash []byte, height, nonce uint64) [][]byte {
			a, b := KawPow(c, hash, height, nonce)
			return [][]byte{a, b}
		},
		L1: 4096, Mix: 128, Item: 256,
	}
	FiropowAlgo = &Algo{
		Name: "firopow", Prefix: "firopow-",
		Ships: []Shipped{{ref.FIRO, func() any { return firopow.NewFiro() }}},
		New:   func(cfg dag.Config) any { return firopow.New(cfg) },
		Call: func(c any, hash []byte, height, nonce uint64) ([][]byte, error) {
			return two(c.(*firopow.Client).Compute(hash, height, nonce))
		},
		Ref: func(c ref.Chain, hash []byte, height, nonce uint64) [][]byte {
			a, b := FiroPow(c, hash, height, nonce)
			return [][]byte{a, b}
		},
		L1: 4096, Mix: 128, Item: 256,
	}
	OctopusAlgo = &Algo{
		Name:  "octopus",
		Ships: []Shipped{{ref.CFX, func() any { return octopus.NewConflux() }}},
		New:   func(cfg dag.Config) any { return octopus.New(cfg) },
		Call: func(c any, hash []byte, height, nonce uint64) ([][]byte, error) {
			x, err := c.(*octopus.Client).Compute(hash, height, nonce)
			return [][]byte{x}, err
		},
		Ref: func(c ref.Chain, hash []byte, height, nonce uint64) [][]byte {
			return [][]byte{Octopus(c, hash, height, nonce)}
		},
		Mix: 256, Item: 256,
	}
)
