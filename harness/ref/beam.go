package ref

import (
	"encoding/binary"
	"math/bits"
)

// beamWork is a 448 bit (padded to 512) little-endian bit string.
type beamWork [8]uint64

type beamElem struct {
	w   beamWork
	idx []uint32
}

func (w *beamWork) bit(i int) uint64 { return w[i/64] >> uint(i%64) & 1 }

// BeamIndices decodes the 32 25-bit little-endian indices.
func BeamIndices(soln []byte) []uint32 {
	out := make([]uint32, 32)
	for i := range out {
		for b := 0; b < 25; b++ {
			p := 25*i + b
			out[i] |= uint32(soln[p/8]>>uint(p%8)&1) << uint(b)
		}
	}
	return out
}

// BeamEncode packs 32 indices and the extra nonce.
func BeamEncode(idx []uint32, extra []byte) []byte {
	out := make([]byte, 104)
	for i, v := range idx {
		for b := 0; b < 25; b++ {
			p := 25*i + b
			out[p/8] |= byte(v>>uint(b)&1) << uint(p%8)
		}
	}
	copy(out[100:], extra)
	return out
}

// BeamKeys derives the SipHash keys of a header and extra nonce.
func BeamKeys(header, extra []byte) [4]uint64 {
	pers := append([]byte("Beam-PoW"), 0xc0, 0x01, 0, 0, 5, 0, 0, 0) // 448, 5
	h := Blake2b(append(append([]byte(nil), header...), extra...), pers, 32)
	var k [4]uint64
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	return k
}

// BeamWork is the 448 bit start value of an index.
func BeamWork(keys [4]uint64, idx uint32) (w [8]uint64) {
	for i := uint64(0); i < 7; i++ {
		s := Sip(keys)
		s.Hash(2, 4, uint64(idx)<<3+i)
		w[i] = s.Xor()
	}
	return w
}

// BeamMix replaces the low word after mixing in the indices above bit rem.
func BeamMix(w [8]uint64, idx []uint32, rem int) [8]uint64 {
	t := w
	pad := (512 - rem + 24) / 25
	for i := 0; i < pad && i < len(idx); i++ {
		for b := 0; b < 25; b++ {
			p := rem + 25*i + b
			if p < 512 && idx[i]>>uint(b)&1 != 0 {
				t[p/64] |= 1 << uint(p%64)
			}
		}
	}
	var r uint64
	for i := range t {
		r += bits.RotateLeft64(t[i], (29*(i+1))%64)
	}
	w[0] = bits.RotateLeft64(r, 24)
	return w
}

// BeamCombine is the XOR without its low 24 bits, cut to rem bits.
func BeamCombine(a, b [8]uint64, rem int) (out [8]uint64) {
	var x beamWork
	for i := range x {
		x[i] = a[i] ^ b[i]
	}
	for i := 0; i < rem; i++ {
		if i+24 < 512 && x.bit(i+24) != 0 {
			out[i/64] |= 1 << uint(i%64)
		}
	}
	return out
}

// BeamRem gives the mixing and the resulting length of a round 1..5.
func BeamRem(round int) (mix, next int) {
	mix = 448 - 24*(round-1)
	next = 448 - 24*round
	switch round {
	case 4:
		next -= 64
	case 5:
		mix -= 64
		next = 24
	}
	return
}

// BeamVerify decides a solution from the definition.
func BeamVerify(header, soln []byte) bool {
	if len(header) != 40 || len(soln) != 104 {
		return false
	}
	keys := BeamKeys(header, soln[100:])
	idx := BeamIndices(soln)
	seen := map[uint32]bool{}
	var rows []beamElem
	for _, i := range idx {
		if seen[i] {
			return false
		}
		seen[i] = true
		rows = append(rows, beamElem{BeamWork(keys, i), []uint32{i}})
	}
	for round := 1; round <= 5; round++ {
		mix, next := BeamRem(round)
		var up []beamElem
		for i := 0; i < len(rows); i += 2 {
			l, r := rows[i], rows[i+1]
			lw, rw := BeamMix(l.w, l.idx, mix), BeamMix(r.w, r.idx, mix)
			if (lw[0]^rw[0])&0xffffff != 0 || l.idx[0] >= r.idx[0] {
				return false
			}
			up = append(up, beamElem{BeamCombine(lw, rw, next), append(append([]uint32(nil), l.idx...), r.idx...)})
		}
		rows = up
	}
	for _, x := range rows[0].w {
		if x != 0 {
			return false
		}
	}
	return true
}
