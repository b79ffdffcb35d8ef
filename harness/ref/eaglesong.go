package ref

import "math/bits"

// The constants of the Eaglesong specification.
var (
	esMatrix = [16]string{ // [k][j]
		"1111010111110001",
		"0111101011111001",
		"0011110101111101",
		"0001111010111111",
		"1111101010101110",
		"1000100010100111",
		"1011000110100010",
		"1010110100100001",
		"0101011010010001",
		"0010101101001001",
		"0001010110100101",
		"0000101011010011",
		"1111000010011000",
		"0111100001001100",
		"0011110000100110",
		"1110101111100011",
	}
	esRot    = [16][2]int{{2, 4}, {13, 22}, {4, 19}, {3, 14}, {27, 31}, {3, 8}, {17, 26}, {3, 12}, {18, 22}, {12, 18}, {4, 7}, {4, 31}, {12, 27}, {7, 17}, {7, 8}, {1, 13}}
	esInject [43 * 16]uint32
)

func init() {
	seed := "The various ways in which the knowledge on which people base their plan is" +
		" communicated to them is the crucial problem for any theory explaining the economic" +
		" process, and the problem of what is the best way to utilizing knowledge initially " +
		"dispersed among all the people is at least one of the main problems of economic policy" +
		" - or of designing an efficient economic system."
	copy(esInject[:], words(sponge(136, 0x1f, []byte(seed), 4*len(esInject)))) // SHAKE256
}

func esPermute(s *[16]uint32) {
	for r := 0; r < 43; r++ {
		var t [16]uint32
		for j := range t {
			for k := range s {
				if esMatrix[k][j] == '1' {
					t[j] ^= s[k]
				}
			}
		}
		for j := range t {
			t[j] = t[j] ^ bits.RotateLeft32(t[j], esRot[j][0]) ^ bits.RotateLeft32(t[j], esRot[j][1]) ^ esInject[16*r+j]
		}
		for j := 0; j < 16; j += 2 {
			a := bits.RotateLeft32(t[j]+t[j+1], 8)
			b := bits.RotateLeft32(t[j+1], 24)
			t[j], t[j+1] = a, a+b
		}
		*s = t
	}
}

// Eaglesong is the 256 bit Eaglesong digest: rate 256, delimiter 6.
func Eaglesong(msg []byte) []byte {
	pad := append(append([]byte(nil), msg...), 0x06)
	// the delimiter directly follows the input in its big-endian word, which is
	// filled from the low end: a last partial word is right-aligned
	var s [16]uint32
	for off := 0; off < len(pad); off += 32 {
		for j := 0; j < 8; j++ {
			var w uint32
			for k := 0; k < 4; k++ {
				if p := off + 4*j + k; p < len(pad) {
					w = w<<8 | uint32(pad[p])
				}
			}
			s[j] ^= w
		}
		esPermute(&s)
	}
	out := make([]byte, 32)
	for i := range out {
		out[i] = byte(s[i/4] >> (8 * uint(i%4)))
	}
	return out
}
