package ref

import "encoding/binary"

const octP = 1032193

func octPow(b, e uint64) uint64 {
	r := uint64(1)
	for b %= octP; e > 0; e >>= 1 {
		if e&1 != 0 {
			r = r * b % octP
		}
		b = b * b % octP
	}
	return r
}

// octRemap maps a word to a primitive root 11^e with e coprime to p-1 = 2^13*126 (2, 3, 7).
func octRemap(h uint64) uint64 {
	e := h%(octP-2) + 1
	// strip every prime factor shared with p-1
	for _, q := range []uint64{2, 3, 7} {
		for e%q == 0 {
			e /= q
		}
	}
	return octPow(11, e)
}

// Octopus is Conflux's hash.
func Octopus(header []byte, nonce, size uint64, item func(uint32) []uint32) []byte {
	var v Sip
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(header[8*i:])
	}
	a, b, w := octRemap(v[0]), octRemap(v[1]), octRemap(v[3])
	var c uint64
	for h := v[2]; ; h++ {
		c = octRemap(h)
		if b*b%octP != 4*a*c%octP {
			break
		}
	}
	var d [1024]uint64
	for i := uint64(0); i < 32; i++ {
		s := v
		s.Hash(2, 4, nonce/32*32+i)
		for j := uint64(0); j < 32; j++ {
			s.Round()
			d[32*j+i] = uint64(uint32(s.Xor())) % octP
		}
	}
	var res [32]uint32
	var acc uint64
	for i := uint64(0); i < 32; i++ {
		e := octPow(w, nonce%32+32*i)
		x := (a*(e*e%octP)%octP + b*e%octP + c) % octP
		pv, xp := uint64(0), uint64(1)
		for j := 0; j < 1024; j++ {
			pv = (pv + d[j]*xp) % octP
			xp = xp * x % octP
		}
		res[i] = uint32(pv)
		acc = Fnv1U64(acc, pv)
	}
	var accB [8]byte
	binary.LittleEndian.PutUint64(accB[:], acc)
	half := Keccak512(append(append([]byte(nil), header...), accB[:]...))
	var mix [64]uint32
	for i := range mix {
		mix[i] = words(half)[i%16]
	}
	pages := uint32(size / 256)
	for i := uint32(0); i < 32; i++ {
		p := Fnv1(words(half)[0]^i^res[i], mix[i%64]) % pages
		for n := uint32(0); n < 4; n++ {
			node := item(4*p + n)
			for l := uint32(0); l < 16; l++ {
				mix[16*n+l] = Fnv1(mix[16*n+l], node[l])
			}
		}
	}
	red := func(i int) uint32 {
		r := mix[i]
		for j := 1; j < 4; j++ {
			r = Fnv1(r, mix[i+j])
		}
		return r
	}
	var cmix []uint32
	for i := 0; i < 8; i++ {
		cmix = append(cmix, Fnv1(red(4*i), red(4*(8+i))))
	}
	return Keccak256(append(append([]byte(nil), half...), unwords(cmix)...))
}

// OctRemap is the coefficient of a header word.
func OctRemap(h uint64) uint64 { return octRemap(h) }
