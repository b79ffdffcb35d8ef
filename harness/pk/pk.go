//go:build go1.23

// Package pk relates powkit's epoch data to the reference one.
package pk

import (
	"sync"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// Tiny is a chain small enough to enumerate: a cache of some hundred bytes to a
// few KB that grows every epoch, and epochs of a few blocks.
func Tiny(name string, l1 int) ref.Chain {
	return ref.Chain{Name: name, Revision: 7, DatasetInit: 1 << 16, DatasetG: 1 << 12, CacheInit: 1 << 10, CacheG: 1 << 7,
		Mix: 128, Parents: 4, EpochLen: 10, SeedLen: 10, Rounds: 3, L1Words: l1}
}

// Config is the powkit configuration of a chain, without lookup tables.
func Config(c ref.Chain, dir string) dag.Config {
	cfg := dag.Config{
		Name: c.Name, Revision: c.Revision, StorageDir: dir,
		DatasetInitBytes: c.DatasetInit, DatasetGrowthBytes: c.DatasetG,
		CacheInitBytes: c.CacheInit, CacheGrowthBytes: c.CacheG,
		MixBytes: c.Mix, DatasetParents: c.Parents, EpochLength: c.EpochLen, SeedEpochLength: c.SeedLen,
		CacheRounds: c.Rounds, CachesCount: 3,
	}
	if c.L1Words > 0 {
		cfg.L1Enabled = true
		cfg.L1CacheSize = uint64(c.L1Words) * 4
		cfg.L1CacheNumItems = uint(c.L1Words)
	}
	return cfg
}

type key struct {
	c  ref.Chain
	ep uint64
}

// Epoch is the reference data of one epoch.
type Epoch struct {
	once  sync.Once
	Cache []uint32
	L1    []uint32
	Size  uint64
	c     ref.Chain
	items sync.Map
}

var (
	mu     sync.Mutex
	epochs = map[key]*Epoch{}
)

// Ref returns the (memoised) reference data of an epoch.
func Ref(c ref.Chain, ep uint64) *Epoch {
	mu.Lock()
	e := epochs[key{c, ep}]
	if e == nil {
		e = &Epoch{c: c}
		epochs[key{c, ep}] = e
	}
	mu.Unlock()
	e.once.Do(func() {
		e.Cache = ref.LightCache(c.CacheSize(ep), c.Seed(ep), c.Rounds)
		if c.L1Words > 0 {
			e.L1 = ref.L1(e.Cache, c.Parents, c.L1Words)
		}
		e.Size = c.DatasetSize(ep)
	})
	return e
}

// Drop forgets memoised epochs.
func Drop() { mu.Lock(); epochs = map[key]*Epoch{}; mu.Unlock() }

// Item is a 64 byte dataset node.
func (e *Epoch) Item(i uint32) []uint32 { return ref.DatasetItem(e.Cache, e.c.Parents, i) }

// Item4 is a 256 byte dataset item.
func (e *Epoch) Item4(i uint32) []uint32 {
	var out []uint32
	for n := uint32(0); n < 4; n++ {
		out = append(out, e.Item(4*i+n)...)
	}
	return out
}

// Ethash of a chain.
func Ethash(c ref.Chain, hash []byte, height, nonce uint64) (mix, res []byte) {
	e := Ref(c, c.Epoch(height))
	return ref.Hashimoto(hash, nonce, e.Size, e.Item)
}

// KawPow of a chain.
func KawPow(c ref.Chain, hash []byte, height, nonce uint64) (mix, res []byte) {
	e := Ref(c, c.Epoch(height))
	return ref.KawPow(hash, height, nonce, e.Size, e.Item4, e.L1)
}

// FiroPow of a chain.
func FiroPow(c ref.Chain, hash []byte, height, nonce uint64) (mix, res []byte) {
	e := Ref(c, c.Epoch(height))
	return ref.FiroPow(hash, height, nonce, e.Size, e.Item4, e.L1)
}

// Octopus of a chain.
func Octopus(c ref.Chain, hash []byte, height, nonce uint64) []byte {
	e := Ref(c, c.Epoch(height))
	return ref.Octopus(hash, nonce, e.Size, e.Item)
}
