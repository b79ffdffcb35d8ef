package ref

import "encoding/binary"

// Chain holds the parameters of an Ethash-like chain.
type Chain struct {
	Name                  string
	Revision              int
	DatasetInit, DatasetG uint64
	CacheInit, CacheG     uint64
	Mix                   uint64
	Parents               uint32
	EpochLen, SeedLen     uint64
	Rounds                int
	L1Words               int // 0: no second-level cache
}

// The chains shipped with powkit.
var (
	ETH  = Chain{"ETH", 23, 1 << 30, 1 << 23, 1 << 24, 1 << 17, 128, 256, 30000, 30000, 3, 0}
	ETC  = Chain{"ETC", 23, 1 << 30, 1 << 23, 1 << 24, 1 << 17, 128, 256, 60000, 30000, 3, 0}
	RVN  = Chain{"RVN", 23, 1 << 30, 1 << 23, 1 << 24, 1 << 17, 128, 512, 7500, 7500, 3, 4096}
	FIRO = Chain{"FIRO", 23, 3 << 29, 1 << 23, 1 << 24, 1 << 17, 128, 512, 1300, 1300, 3, 4096}
	CFX  = Chain{"CFX", 1, 1 << 32, 1 << 24, 1 << 24, 1 << 16, 256, 256, 524288, 524288, 3, 0}
)

func isPrime(n uint64) bool {
	if n < 2 {
		return false
	}
	if n%2 == 0 {
		return n == 2
	}
	for d := uint64(3); d*d <= n; d += 2 {
		if n%d == 0 {
			return false
		}
	}
	return true
}

func largest(bound, item uint64) uint64 {
	n := bound/item - 1
	for !isPrime(n) {
		n -= 2
	}
	return n * item
}

// Epoch of a height.
func (c *Chain) Epoch(height uint64) uint64 { return height / c.EpochLen }

// CacheSize of an epoch in bytes.
func (c *Chain) CacheSize(epoch uint64) uint64 { return largest(c.CacheInit+c.CacheG*epoch, 64) }

// DatasetSize of an epoch in bytes.
func (c *Chain) DatasetSize(epoch uint64) uint64 {
	return largest(c.DatasetInit+c.DatasetG*epoch, c.Mix)
}

// SeedOfHeight is Keccak-256 iterated once per seed epoch.
func (c *Chain) SeedOfHeight(height uint64) []byte {
	s := make([]byte, 32)
	for n := height / c.SeedLen; n > 0; n-- {
		s = Keccak256(s)
	}
	return s
}

// Seed of an epoch: that of every height in it.
func (c *Chain) Seed(epoch uint64) []byte { return c.SeedOfHeight(epoch * c.EpochLen) }

// LightCache is the light cache as little-endian words.
func LightCache(size uint64, seed []byte, rounds int) []uint32 {
	n := int(size / 64)
	rows := make([][]byte, n)
	rows[0] = Keccak512(seed)
	for i := 1; i < n; i++ {
		rows[i] = Keccak512(rows[i-1])
	}
	for r := 0; r < rounds; r++ {
		for i := 0; i < n; i++ {
			v := int(binary.LittleEndian.Uint32(rows[i]) % uint32(n))
			prev := rows[(i+n-1)%n]
			x := make([]byte, 64)
			for b := range x {
				x[b] = prev[b] ^ rows[v][b]
			}
			rows[i] = Keccak512(x)
		}
	}
	out := make([]uint32, 16*n)
	for i, row := range rows {
		for w := 0; w < 16; w++ {
			out[16*i+w] = binary.LittleEndian.Uint32(row[4*w:])
		}
	}
	return out
}

func words(b []byte) []uint32 {
	w := make([]uint32, len(b)/4)
	for i := range w {
		w[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	return w
}

func unwords(w []uint32) []byte {
	b := make([]byte, 4*len(w))
	for i := range w {
		binary.LittleEndian.PutUint32(b[4*i:], w[i])
	}
	return b
}

// DatasetItem is one 64 byte dataset node as words.
func DatasetItem(cache []uint32, parents uint32, i uint32) []uint32 {
	n := uint32(len(cache) / 16)
	mix := append([]uint32(nil), cache[16*(i%n):16*(i%n)+16]...)
	mix[0] ^= i
	mix = words(Keccak512(unwords(mix)))
	for j := uint32(0); j < parents; j++ {
		p := Fnv1(i^j, mix[j%16]) % n
		for w := range mix {
			mix[w] = Fnv1(mix[w], cache[16*p+uint32(w)])
		}
	}
	return words(Keccak512(unwords(mix)))
}

// L1 is the second-level cache: the first words of the dataset.
func L1(cache []uint32, parents uint32, n int) []uint32 {
	var out []uint32
	for i := 0; len(out) < n; i++ {
		out = append(out, DatasetItem(cache, parents, uint32(i))...)
	}
	return out[:n]
}

// Hashimoto is the Ethash inner loop over a dataset given by item.
func Hashimoto(header []byte, nonce, fullSize uint64, item func(uint32) []uint32) (mixDigest, result []byte) {
	n := uint32(fullSize / 128)
	var nb [8]byte
	binary.LittleEndian.PutUint64(nb[:], nonce)
	s := Keccak512(append(append([]byte(nil), header...), nb[:]...))
	mix := append(words(s), words(s)...)
	head := binary.LittleEndian.Uint32(s)
	for i := uint32(0); i < 64; i++ {
		p := Fnv1(i^head, mix[i%32]) % n
		page := append(append([]uint32(nil), item(2*p)...), item(2*p+1)...)
		for w := range mix {
			mix[w] = Fnv1(mix[w], page[w])
		}
	}
	var cmix []uint32
	for i := 0; i < 32; i += 4 {
		cmix = append(cmix, Fnv1(Fnv1(Fnv1(mix[i], mix[i+1]), mix[i+2]), mix[i+3]))
	}
	mixDigest = unwords(cmix)
	return mixDigest, Keccak256(append(append([]byte(nil), s...), mixDigest...))
}
