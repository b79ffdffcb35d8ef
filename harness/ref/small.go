package ref

import "math/bits"

// Sip is the SipHash state seeded directly with four words.
type Sip [4]uint64

// Round is one SipHash round; rotE is the rotation of the third step (21 in SipHash).
func (s *Sip) Round() { s.RoundE(21) }

// RoundE is Round with another rotation in place of 21.
func (s *Sip) RoundE(rotE int) {
	v := s
	v[0] += v[1]
	v[2] += v[3]
	v[1] = bits.RotateLeft64(v[1], 13)
	v[3] = bits.RotateLeft64(v[3], 16)
	v[1] ^= v[0]
	v[3] ^= v[2]
	v[0] = bits.RotateLeft64(v[0], 32)
	v[2] += v[1]
	v[0] += v[3]
	v[1] = bits.RotateLeft64(v[1], 17)
	v[3] = bits.RotateLeft64(v[3], rotE)
	v[1] ^= v[2]
	v[3] ^= v[0]
	v[2] = bits.RotateLeft64(v[2], 32)
}

// Hash feeds one word with c compression and d finalisation rounds.
func (s *Sip) Hash(c, d int, nonce uint64) {
	s[3] ^= nonce
	for i := 0; i < c; i++ {
		s.Round()
	}
	s[0] ^= nonce
	s[2] ^= 0xff
	for i := 0; i < d; i++ {
		s.Round()
	}
}

// Xor is the digest of the state.
func (s *Sip) Xor() uint64 { return s[0] ^ s[1] ^ s[2] ^ s[3] }

// SipNode is the endpoint of an edge on side uorv.
func SipNode(mask uint64, keys [4]uint64, edge, uorv uint64) uint64 {
	s := Sip(keys)
	s.Hash(2, 4, 2*edge+uorv)
	return s.Xor() & mask
}

// SipNodeLegacy is SipNode with the extra rotation by 17.
func SipNodeLegacy(mask uint64, keys [4]uint64, edge, uorv uint64) uint64 {
	s := Sip(keys)
	s.Hash(2, 4, 2*edge+uorv)
	return bits.RotateLeft64(s.Xor(), 17) & mask
}

// SipBlock48 is the Cuckaroo block function of 64 edges with 4-8 rounds.
func SipBlock48(keys [4]uint64, edge uint64) uint64 {
	s := Sip(keys)
	base := edge / 64 * 64
	var at, last uint64
	for i := uint64(0); i < 64; i++ {
		s.Hash(4, 8, base+i)
		if base+i == edge {
			at = s.Xor()
		}
		last = s.Xor()
	}
	if edge%64 == 63 {
		return last
	}
	return at ^ last
}

// Xoshiro is xoshiro256++.
type Xoshiro [4]uint64

// Next is the next output word.
func (s *Xoshiro) Next() uint64 {
	r := bits.RotateLeft64(s[0]+s[3], 23) + s[0]
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = bits.RotateLeft64(s[3], 45)
	return r
}

const fnvPrime = 16777619

// Fnv1 multiplies, then xors.
func Fnv1(u, v uint32) uint32 { return u*fnvPrime ^ v }

// Fnv1a xors, then multiplies.
func Fnv1a(u, v uint32) uint32 { return (u ^ v) * fnvPrime }

// Fnv1U64 is Fnv1 on 64-bit words with the 32-bit prime.
func Fnv1U64(u, v uint64) uint64 { return u*fnvPrime ^ v }

// Kiss99 is Marsaglia's KISS generator.
type Kiss99 struct{ Z, W, Jsr, Jcong uint32 }

// Next is the next output word.
func (k *Kiss99) Next() uint32 {
	k.Z = 36969*(k.Z&0xffff) + (k.Z >> 16)
	k.W = 18000*(k.W&0xffff) + (k.W >> 16)
	mwc := (k.Z << 16) + k.W
	k.Jsr ^= k.Jsr << 17
	k.Jsr ^= k.Jsr >> 13
	k.Jsr ^= k.Jsr << 5
	k.Jcong = 69069*k.Jcong + 1234567
	return (mwc ^ k.Jcong) + k.Jsr
}
