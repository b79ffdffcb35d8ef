package ref

import "encoding/binary"

// Equi holds Equihash parameters.
type Equi struct {
	N, K  int
	Pers  string
	Twist bool
}

// Bits is a bit string, most significant bit first, one byte per bit.
type Bits []byte

func toBits(b []byte) Bits {
	out := make(Bits, 0, 8*len(b))
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			out = append(out, x>>uint(i)&1)
		}
	}
	return out
}

// C is the collision length.
func (p *Equi) C() int { return p.N / (p.K + 1) }

// SolLen is the length of an encoded solution in bytes.
func (p *Equi) SolLen() int { return (1 << uint(p.K)) * (p.C() + 1) / 8 }

// Block is the list of the byte strings one hash call yields, one per index.
func (p *Equi) Block(header []byte, g uint32) [][]byte {
	per := 512 / p.N
	bytes := (p.N + 7) / 8
	pers := append([]byte(p.Pers), 0, 0, 0, 0, 0, 0, 0, 0)
	binary.LittleEndian.PutUint32(pers[len(p.Pers):], uint32(p.N))
	binary.LittleEndian.PutUint32(pers[len(p.Pers)+4:], uint32(p.K))
	one := func(g uint32) []byte {
		var gb [4]byte
		binary.LittleEndian.PutUint32(gb[:], g)
		return Blake2b(append(append([]byte(nil), header...), gb[:]...), pers, per*bytes)
	}
	var h []byte
	if p.Twist {
		var sum [16]uint32
		for x := g / 16 * 16; ; x++ {
			for i, w := range words(one(x)) {
				sum[i] += w
			}
			if x == g {
				break
			}
		}
		h = unwords(sum[:])
		for i := 15; i < 64; i += 16 {
			h[i] &= 0xf8
		}
	} else {
		h = one(g)
	}
	var out [][]byte
	for i := 0; i < per; i++ {
		out = append(out, h[i*bytes:i*bytes+bytes])
	}
	return out
}

// Row is the n bit hash of an index.
func (p *Equi) Row(header []byte, idx uint32) Bits {
	per := uint32(512 / p.N)
	return toBits(p.Block(header, idx/per)[idx%per])[:p.N]
}

// Decode splits an encoded solution into its indices.
func (p *Equi) Decode(soln []byte) []uint32 {
	bits := toBits(soln)
	var out []uint32
	w := p.C() + 1
	for i := 0; i+w <= len(bits); i += w {
		var v uint32
		for _, b := range bits[i : i+w] {
			v = v<<1 | uint32(b)
		}
		out = append(out, v)
	}
	return out
}

// Encode packs indices.
func (p *Equi) Encode(idx []uint32) []byte {
	w := p.C() + 1
	out := make([]byte, len(idx)*w/8)
	for i, v := range idx {
		for b := 0; b < w; b++ {
			if v>>uint(w-1-b)&1 != 0 {
				pos := i*w + b
				if pos/8 < len(out) {
					out[pos/8] |= 0x80 >> uint(pos%8)
				}
			}
		}
	}
	return out
}

// Verify decides a solution from the definition.
func (p *Equi) Verify(header, soln []byte) bool {
	if len(soln) != p.SolLen() {
		return false
	}
	return p.VerifyIndices(header, p.Decode(soln))
}

// VerifyIndices decides a list of 2^k indices.
func (p *Equi) VerifyIndices(header []byte, idx []uint32) bool {
	if len(idx) != 1<<uint(p.K) {
		return false
	}
	rows := make([]Bits, len(idx))
	for i, x := range idx {
		rows[i] = p.Row(header, x)
	}
	return VerifyTree(p.C(), idx, rows)
}

// VerifyTree checks Wagner's conditions on given rows.
func VerifyTree(c int, idx []uint32, rows []Bits) bool {
	seen := map[uint32]bool{}
	for _, x := range idx {
		if seen[x] {
			return false
		}
		seen[x] = true
	}
	n := len(rows[0])
	for size, lvl := 2, 1; size <= len(idx); size, lvl = size*2, lvl+1 {
		for lo := 0; lo < len(idx); lo += size {
			if idx[lo] >= idx[lo+size/2] {
				return false
			}
			// the XOR of the whole subtree is zero on its first lvl*c bits (all n at the root)
			upto := lvl * c
			if size == len(idx) {
				upto = n
			}
			for b := 0; b < upto; b++ {
				var x byte
				for _, r := range rows[lo : lo+size] {
					x ^= r[b]
				}
				if x != 0 {
					return false
				}
			}
		}
	}
	return true
}
