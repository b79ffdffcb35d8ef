package ref

import (
	"encoding/binary"
	"math/bits"
)

// ProgPow parameters; an item is Lanes*Loads words.
type ProgPow struct {
	Period     uint64
	Loads      int
	CacheBytes uint32
	Lanes      int
	Regs       int
	Rounds     int
	CntCache   int
	CntMath    int
}

// The two shipped parameterisations.
var (
	KawPowParams  = ProgPow{3, 4, 16384, 16, 32, 64, 11, 18}
	FiroPowParams = ProgPow{1, 4, 16384, 16, 32, 64, 11, 18}
)

const fnvBasis = 0x811c9dc5

func ppMerge(a, b, r uint32) uint32 {
	switch r % 4 {
	case 0:
		return a*33 + b
	case 1:
		return (a ^ b) * 33
	case 2:
		return bits.RotateLeft32(a, int((r>>16)%31+1)) ^ b
	}
	return bits.RotateLeft32(a, -int((r>>16)%31+1)) ^ b
}

func ppMath(a, b, r uint32) uint32 {
	switch r % 11 {
	case 0:
		return a + b
	case 1:
		return a * b
	case 2:
		hi, _ := bits.Mul32(a, b)
		return hi
	case 3:
		if a < b {
			return a
		}
		return b
	case 4:
		return bits.RotateLeft32(a, int(b%32))
	case 5:
		return bits.RotateLeft32(a, -int(b%32))
	case 6:
		return a & b
	case 7:
		return a | b
	case 8:
		return a ^ b
	case 9:
		return uint32(bits.LeadingZeros32(a) + bits.LeadingZeros32(b))
	}
	return uint32(bits.OnesCount32(a) + bits.OnesCount32(b))
}

type ppProg struct {
	rng      Kiss99
	src, dst []int
	si, di   int
}

func ppInit(seed uint64, regs int) *ppProg {
	lo, hi := uint32(seed), uint32(seed>>32)
	p := &ppProg{}
	p.rng.Z = Fnv1a(fnvBasis, lo)
	p.rng.W = Fnv1a(p.rng.Z, hi)
	p.rng.Jsr = Fnv1a(p.rng.W, lo)
	p.rng.Jcong = Fnv1a(p.rng.Jsr, hi)
	for i := 0; i < regs; i++ {
		p.src = append(p.src, i)
		p.dst = append(p.dst, i)
	}
	for i := regs - 1; i > 0; i-- {
		j := int(p.rng.Next() % uint32(i+1))
		p.dst[i], p.dst[j] = p.dst[j], p.dst[i]
		j = int(p.rng.Next() % uint32(i+1))
		p.src[i], p.src[j] = p.src[j], p.src[i]
	}
	return p
}

func (p *ppProg) nextSrc() int { v := p.src[p.si%len(p.src)]; p.si++; return v }
func (p *ppProg) nextDst() int { v := p.dst[p.di%len(p.dst)]; p.di++; return v }

// Mix runs the ProgPow core and returns the 32 byte mix hash.
func (c *ProgPow) Mix(height, seed, datasetSize uint64, item func(uint32) []uint32, l1 []uint32) []byte {
	return c.mixTo(height, seed, datasetSize, item, l1, nil, false)
}

// mixTo can stop before the first item is merged, leaving the registers in out.
func (c *ProgPow) mixTo(height, seed, datasetSize uint64, item func(uint32) []uint32, l1 []uint32, out *[][]uint32, stop bool) []byte {
	z := Fnv1a(fnvBasis, uint32(seed))
	w := Fnv1a(z, uint32(seed>>32))
	mix := make([][]uint32, c.Lanes)
	for l := range mix {
		jsr := Fnv1a(w, uint32(l))
		k := Kiss99{z, w, jsr, Fnv1a(jsr, uint32(l))}
		mix[l] = make([]uint32, c.Regs)
		for r := range mix[l] {
			mix[l][r] = k.Next()
		}
	}
	max := c.CntCache
	if c.CntMath > max {
		max = c.CntMath
	}
	for loop := 0; loop < c.Rounds; loop++ {
		prog := ppInit(height/c.Period, c.Regs)
		entry := item(mix[loop%c.Lanes][0] % uint32(datasetSize/256))
		for i := 0; i < max; i++ {
			if i < c.CntCache {
				src, dst := prog.nextSrc(), prog.nextDst()
				sel := prog.rng.Next()
				for l := range mix {
					mix[l][dst] = ppMerge(mix[l][dst], l1[mix[l][src]%(c.CacheBytes/4)], sel)
				}
			}
			if i < c.CntMath {
				pair := prog.rng.Next() % uint32(c.Regs*(c.Regs-1))
				s1, s2 := int(pair)%c.Regs, int(pair)/c.Regs
				if s2 >= s1 {
					s2++
				}
				sel1 := prog.rng.Next()
				dst := prog.nextDst()
				sel2 := prog.rng.Next()
				for l := range mix {
					mix[l][dst] = ppMerge(mix[l][dst], ppMath(mix[l][s1], mix[l][s2], sel1), sel2)
				}
			}
		}
		if stop {
			*out = mix
			return nil
		}
		loads := len(entry) / c.Lanes
		for i := 0; i < loads; i++ {
			dst := 0
			if i > 0 {
				dst = prog.nextDst()
			}
			sel := prog.rng.Next()
			for l := range mix {
				mix[l][dst] = ppMerge(mix[l][dst], entry[((l^loop)%c.Lanes)*loads+i], sel)
			}
		}
	}
	res := []uint32{fnvBasis, fnvBasis, fnvBasis, fnvBasis, fnvBasis, fnvBasis, fnvBasis, fnvBasis}
	for l := range mix {
		h := uint32(fnvBasis)
		for _, v := range mix[l] {
			h = Fnv1a(h, v)
		}
		res[l%8] = Fnv1a(res[l%8], h)
	}
	return unwords(res)
}

func ppAbsorb(header []byte, nonce uint64, pad [15]uint32) [25]uint32 {
	var st [25]uint32
	copy(st[:8], words(header))
	st[8], st[9] = uint32(nonce), uint32(nonce>>32)
	copy(st[10:], pad[:])
	KeccakF800(&st)
	return st
}

func ppFinal(st [25]uint32, mix []byte, pad [9]uint32) []byte {
	var f [25]uint32
	copy(f[:8], st[:8])
	copy(f[8:16], words(mix))
	copy(f[16:], pad[:])
	KeccakF800(&f)
	return unwords(f[:8])
}

// KawPow is Ravencoin's hash.
func KawPow(header []byte, height, nonce, size uint64, item func(uint32) []uint32, l1 []uint32) (mix, res []byte) {
	var p15 [15]uint32
	var p9 [9]uint32
	for i, ch := range "rAVENCOINKAWPOW" {
		p15[i] = uint32(ch)
		if i < 9 {
			p9[i] = uint32(ch)
		}
	}
	st := ppAbsorb(header, nonce, p15)
	mix = KawPowParams.Mix(height, uint64(st[0])|uint64(st[1])<<32, size, item, l1)
	return mix, ppFinal(st, mix, p9)
}

// FiroPow is Firo's hash: Keccak-800 absorbing with pad10*1.
func FiroPow(header []byte, height, nonce, size uint64, item func(uint32) []uint32, l1 []uint32) (mix, res []byte) {
	var p15 [15]uint32
	p15[0], p15[8] = 1, 0x80008081
	st := ppAbsorb(header, nonce, p15)
	mix = FiroPowParams.Mix(height, uint64(st[0])|uint64(st[1])<<32, size, item, l1)
	return mix, ppFinal(st, mix, [9]uint32{0, 1, 0, 0, 0, 0, 0, 0, 0x80008081})
}

var _ = binary.LittleEndian

// Program is the first cache access and math operation of a period.
type Program struct {
	CacheSrc, CacheDst  int
	CacheSel            uint32
	Src1, Src2, MathDst int
	MathSel, MergeSel   uint32
}

// ProgramOf draws them for a core with cache (0 or 1) cache accesses and one math operation.
func (c *ProgPow) ProgramOf(height uint64) (o Program) {
	p := ppInit(height/c.Period, c.Regs)
	if c.CntCache > 0 {
		o.CacheSrc, o.CacheDst = p.nextSrc(), p.nextDst()
		o.CacheSel = p.rng.Next()
	}
	if c.CntMath > 0 {
		pair := p.rng.Next() % uint32(c.Regs*(c.Regs-1))
		o.Src1, o.Src2 = int(pair)%c.Regs, int(pair)/c.Regs
		if o.Src2 >= o.Src1 {
			o.Src2++
		}
		o.MathSel = p.rng.Next()
		o.MathDst = p.nextDst()
		o.MergeSel = p.rng.Next()
	}
	return
}

// Aim finds the index of the first dataset item of a run and content for it
// after which every register of every lane holds the wanted value.
func (c *ProgPow) Aim(height, seed, datasetSize uint64, l1 []uint32, want func(lane, reg int) uint32) (index uint32, item []uint32) {
	one := *c
	one.Rounds = 1
	item = make([]uint32, c.Lanes*c.Loads)
	var mixes [][]uint32
	aimed := func(i uint32) []uint32 { index = i; return item }
	one.mixTo(height, seed, datasetSize, aimed, l1, &mixes, true)
	p := ppInit(height/c.Period, c.Regs)
	max := c.CntCache
	if c.CntMath > max {
		max = c.CntMath
	}
	for i := 0; i < max; i++ {
		if i < c.CntCache {
			p.nextSrc()
			p.nextDst()
			p.rng.Next()
		}
		if i < c.CntMath {
			p.rng.Next()
			p.rng.Next()
			p.nextDst()
			p.rng.Next()
		}
	}
	for i := 0; i < c.Loads; i++ {
		dst := 0
		if i > 0 {
			dst = p.nextDst()
		}
		sel := p.rng.Next()
		for l := range mixes {
			a, t := mixes[l][dst], want(l, dst)
			var b uint32
			switch sel % 4 {
			case 0:
				b = t - a*33
			case 1:
				b = t*0x3e0f83e1 ^ a // 33 * 0x3e0f83e1 = 1 mod 2^32
			default:
				b = ppMerge(a, 0, sel) ^ t
			}
			item[(l%c.Lanes)*c.Loads+i] = b
			mixes[l][dst] = ppMerge(a, b, sel)
			if mixes[l][dst] != t {
				panic("ref: missed")
			}
		}
	}
	return
}
