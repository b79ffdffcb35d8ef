//go:build go1.23

// C22: hash building blocks equal their definitions on every input shape.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"syscall"

	"github.com/sencha-dev/powkit/internal/common/bitutil"
	"github.com/sencha-dev/powkit/internal/common/convutil"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// bitsCase is a bit string with the given bits set (and optionally inverted, or filled first).
type bitsCase struct {
	Set  []int
	Inv  bool
	Fill uint64 // seed of the content the bits are flipped in; 0: zeros
}

func (c bitsCase) bytes(n int) []byte {
	b := make([]byte, n)
	if c.Fill != 0 {
		r := hx.Rng(c.Fill)
		b = r.Bytes(n)
	}
	for _, i := range c.Set {
		b[i/8] ^= 1 << uint(i%8)
	}
	if c.Inv {
		for i := range b {
			b[i] = ^b[i]
		}
	}
	return b
}

// weight2 enumerates every bit string of weight at most 2 of n bits, their
// complements up to weight 1, and fills with up to one flipped bit.
func weight2(n int, pairs bool, fills int) func(func(bitsCase) bool) {
	return func(yield func(bitsCase) bool) {
		for _, inv := range []bool{false, true} {
			if !yield(bitsCase{Inv: inv}) {
				return
			}
			for i := 0; i < n; i++ {
				if !yield(bitsCase{Set: []int{i}, Inv: inv}) {
					return
				}
			}
		}
		for f := 1; f <= fills; f++ {
			if !yield(bitsCase{Fill: uint64(f)}) {
				return
			}
			for i := 0; i < n; i++ {
				if !yield(bitsCase{Set: []int{i}, Fill: uint64(f)}) {
					return
				}
			}
		}
		if pairs {
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					if !yield(bitsCase{Set: []int{i, j}}) {
						return
					}
				}
			}
		}
	}
}

// guarded is memory between two inaccessible pages.
type guarded struct{ mem []byte }

func newGuarded(pages int) *guarded {
	ps := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, (pages+2)*ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(m[:ps], syscall.PROT_NONE)
	syscall.Mprotect(m[(pages+1)*ps:], syscall.PROT_NONE)
	return &guarded{m[ps : (pages+1)*ps]}
}

type xorCase struct {
	N, Extra int // length of the shorter and excess of the longer operand
	Longer   int // 0 neither, 1 a, 2 b
	Offs     [3]int
	End      bool   // operands end at the end of their page
	Alias    string // "", "a", "b", "ab": dst is a, b; a is b
}

type xorMem struct{ g [3]*guarded }

func evalXor(w *hx.W, c xorCase) (bool, error) {
	if w.Local == nil {
		w.Local = &xorMem{[3]*guarded{newGuarded(3), newGuarded(3), newGuarded(3)}}
	}
	m := w.Local.(*xorMem)
	lens := [3]int{c.N, c.N, c.N}
	if c.Longer > 0 {
		lens[c.Longer] += c.Extra
	} else if c.Extra > 0 {
		lens[0] += c.Extra
	}
	var s [3][]byte
	var whole [3][]byte
	for i := range s {
		whole[i] = m.g[i].mem
		off := c.Offs[i]
		if c.End {
			off = len(whole[i]) - lens[i] - c.Offs[i]
			if i > 0 || c.Longer == 0 {
				// the operand's last byte is the last accessible one, up to the offset
				off = len(whole[i]) - lens[i]
			}
		}
		s[i] = whole[i][off : off+lens[i] : off+lens[i]]
		r := hx.Rng(uint64(i + 1))
		for j := range whole[i] {
			whole[i][j] = byte(r.Next())
		}
	}
	switch c.Alias {
	case "a":
		s[0] = s[1]
		whole[0] = whole[1]
	case "b":
		s[0] = s[2]
		whole[0] = whole[2]
	case "ab":
		s[2], whole[2] = s[1], whole[1]
	case "all":
		s[2], whole[2] = s[1], whole[1]
		s[0], whole[0] = s[1], whole[1]
	}
	a, b := append([]byte(nil), s[1]...), append([]byte(nil), s[2]...)
	before := append([]byte(nil), whole[0]...)
	n := bitutil.XORBytes(s[0], s[1], s[2])
	if n != c.N {
		return true, fmt.Errorf("returned %d, want %d", n, c.N)
	}
	start := 0
	if len(s[0]) > 0 {
		start = int(uintptrOf(s[0]) - uintptrOf(whole[0]))
	}
	for i := 0; i < n; i++ {
		before[start+i] = a[i] ^ b[i]
	}
	if !bytes.Equal(before, whole[0]) {
		for i := range before {
			if before[i] != whole[0][i] {
				return true, fmt.Errorf("byte %d relative to the destination: got %02x, want %02x", i-start, whole[0][i], before[i])
			}
		}
	}
	if c.Alias == "" && (!bytes.Equal(a, s[1]) || !bytes.Equal(b, s[2])) {
		return true, fmt.Errorf("operand changed")
	}
	return n > 0, nil
}

type msgCase struct {
	Kind string
	N    int // message length
	P    int // personalisation length
	Out  int
	Fill int
}

func evalMsg(w *hx.W, c msgCase) (bool, error) {
	rg := hx.Rng(c.N*31 + c.P + 1)
	msg, per := make([]byte, c.N), make([]byte, c.P)
	if c.Fill > 0 {
		msg, per = rg.Bytes(c.N), rg.Bytes(c.P)
	}
	m0, p0 := append([]byte(nil), msg...), append([]byte(nil), per...)
	var got, want []byte
	switch c.Kind {
	case "keccak256":
		got, want = crypto.Keccak256(msg), ref.Keccak256(msg)
	case "keccak512":
		got, want = crypto.Keccak512(msg), ref.Keccak512(msg)
	case "blake2b256":
		got, want = crypto.Blake2b256(msg), ref.Blake2b256(msg)
	case "blake2b":
		got, want = crypto.Blake2b(msg, per, c.Out), ref.Blake2b(msg, per, c.Out)
	case "cshake256":
		got, want = crypto.CShake256(msg, per, c.Out), ref.CShake256(msg, per, c.Out)
	}
	if !bytes.Equal(msg, m0) || !bytes.Equal(per, p0) {
		return true, fmt.Errorf("argument changed")
	}
	return true, hx.EqBytes(c.Kind, got, want)
}

func main() { hx.Main("C22", "exploration", run) }

func run(r *hx.Run) {
	thorough := r.Thorough()
	r.Assume("inputs outside the enumerated shapes behave as those in them: contents are exhaustive only up to the stated weight")

	hx.Explore(r, hx.Suite[bitsCase]{
		Name: "keccakf800", Rule: "all 800-bit states of weight <= 2, complements of weight <= 1, filled states with <= 1 flipped bit, each permuted 3 times in a row",
		Gen: weight2(800, true, hx.Pick(r, 3, 40)),
		Eval: func(w *hx.W, c bitsCase) (bool, error) {
			b := c.bytes(100)
			var x, y [25]uint32
			for i := range x {
				x[i] = binary.LittleEndian.Uint32(b[4*i:])
			}
			y = x
			for i := 0; i < 3; i++ {
				crypto.KeccakF800(&x)
				ref.KeccakF800(&y)
				if x != y {
					return true, fmt.Errorf("application %d: got %x, want %x", i, x, y)
				}
			}
			return true, nil
		}})

	hx.Explore(r, hx.Suite[bitsCase]{
		Name: "siphash", Rule: "all key+nonce bit strings (320 bits) of weight <= 2, complements, filled ones with <= 1 flipped bit: state after every operation, node and block functions under every mask width",
		Gen: weight2(320, true, hx.Pick(r, 3, 40)),
		Eval: func(w *hx.W, c bitsCase) (bool, error) {
			b := c.bytes(40)
			var k [4]uint64
			for i := range k {
				k[i] = binary.LittleEndian.Uint64(b[8*i:])
			}
			nonce := binary.LittleEndian.Uint64(b[32:])
			h := crypto.NewSipHasher(k[0], k[1], k[2], k[3])
			s := ref.Sip(k)
			step := func(what string) error {
				if g, want := h.XorLanes(), s.Xor(); g != want {
					return fmt.Errorf("%s: got %x, want %x", what, g, want)
				}
				return nil
			}
			for i := 0; i < 2; i++ {
				h.SipRound()
				s.Round()
				if err := step("SipRound"); err != nil {
					return true, err
				}
				h.Hash24(nonce)
				s.Hash(2, 4, nonce)
				if err := step("Hash24"); err != nil {
					return true, err
				}
				h.Hash48(nonce + 1)
				s.Hash(4, 8, nonce+1)
				if err := step("Hash48"); err != nil {
					return true, err
				}
			}
			for bitsN := uint(0); bitsN <= 64; bitsN += 1 {
				mask := uint64(1)<<bitsN - 1
				for uv := uint64(0); uv < 2; uv++ {
					if g, want := crypto.SipNode24(mask, k, nonce, uv), ref.SipNode(mask, k, nonce, uv); g != want {
						return true, fmt.Errorf("SipNode24 mask %x side %d: got %x, want %x", mask, uv, g, want)
					}
					if g, want := crypto.SipNode24Legacy(mask, k, nonce, uv), ref.SipNodeLegacy(mask, k, nonce, uv); g != want {
						return true, fmt.Errorf("SipNode24Legacy mask %x side %d: got %x, want %x", mask, uv, g, want)
					}
				}
			}
			return true, nil
		}})

	type blockCase struct {
		Keys bitsCase
		Base uint64
	}
	hx.Explore(r, hx.Suite[blockCase]{
		Name: "sipblock48", Rule: "keys of weight <= 1 and filled keys x block bases, all 64 edges of each block",
		Gen: func(yield func(blockCase) bool) {
			bases := []uint64{0, 1, 2, 1 << 10, 1<<23 - 1, 1<<24 - 1, 1 << 25, 1<<26 - 1, 1 << 57, 1<<58 - 1}
			weight2(256, false, hx.Pick(r, 1, 8))(func(k bitsCase) bool {
				for _, b := range bases {
					if !yield(blockCase{k, b}) {
						return false
					}
				}
				return true
			})
		},
		Eval: func(w *hx.W, c blockCase) (bool, error) {
			b := c.Keys.bytes(32)
			var k [4]uint64
			for i := range k {
				k[i] = binary.LittleEndian.Uint64(b[8*i:])
			}
			for e := c.Base * 64; ; e++ {
				if g, want := crypto.SipBlock48(k, e), ref.SipBlock48(k, e); g != want {
					return true, fmt.Errorf("edge %d: got %x, want %x", e, g, want)
				}
				w.Add(1, 1)
				if e%64 == 63 {
					break
				}
			}
			return true, nil
		}})

	hx.Explore(r, hx.Suite[bitsCase]{
		Name: "xoshiro256pp", Rule: "all 256-bit states of weight <= 2, complements, filled ones with <= 1 flipped bit; 16 outputs each",
		Gen: weight2(256, true, hx.Pick(r, 5, 100)),
		Eval: func(w *hx.W, c bitsCase) (bool, error) {
			b := c.bytes(32)
			var k [4]uint64
			for i := range k {
				k[i] = binary.LittleEndian.Uint64(b[8*i:])
			}
			h := crypto.NewXoshiro256PlusPlusHasher(k[0], k[1], k[2], k[3])
			s := ref.Xoshiro(k)
			for i := 0; i < 16; i++ {
				if g, want := h.Next(), s.Next(); g != want {
					return true, fmt.Errorf("output %d: got %x, want %x", i, g, want)
				}
			}
			return true, nil
		}})

	var vals []uint64
	for i := 0; i <= 64; i++ {
		v := uint64(1)<<uint(i) - 1
		vals = append(vals, v, v+1, v+2, ^v, v*0x5555)
	}
	type pair struct{ A, B uint64 }
	hx.Explore(r, hx.Suite[pair]{
		Name: "fnv", Rule: "all pairs of 325 boundary words",
		Gen: func(yield func(pair) bool) {
			for _, a := range vals {
				for _, b := range vals {
					if !yield(pair{a, b}) {
						return
					}
				}
			}
		},
		Eval: func(w *hx.W, c pair) (bool, error) {
			a, b := uint32(c.A), uint32(c.B)
			if g, want := crypto.Fnv1(a, b), ref.Fnv1(a, b); g != want {
				return true, fmt.Errorf("Fnv1: got %x, want %x", g, want)
			}
			if g, want := crypto.Fnv1a(a, b), ref.Fnv1a(a, b); g != want {
				return true, fmt.Errorf("Fnv1a: got %x, want %x", g, want)
			}
			if g, want := crypto.Fnv1Uint64(c.A, c.B), ref.Fnv1U64(c.A, c.B); g != want {
				return true, fmt.Errorf("Fnv1Uint64: got %x, want %x", g, want)
			}
			return true, nil
		}})

	type fnvHashCase struct{ N, Extra int }
	hx.Explore(r, hx.Suite[fnvHashCase]{
		Name: "fnvhash", Rule: "all mix lengths 0..130, data of the same length or longer",
		Gen: func(yield func(fnvHashCase) bool) {
			for n := 0; n <= 130; n++ {
				for _, x := range []int{0, 1, 16} {
					if !yield(fnvHashCase{n, x}) {
						return
					}
				}
			}
		},
		Eval: func(w *hx.W, c fnvHashCase) (bool, error) {
			rg := hx.Rng(c.N)
			mix := make([]uint32, c.N+2)
			data := make([]uint32, c.N+c.Extra)
			for i := range mix {
				mix[i] = uint32(rg.Next())
			}
			for i := range data {
				data[i] = uint32(rg.Next())
			}
			want := append([]uint32(nil), mix...)
			d0 := append([]uint32(nil), data...)
			for i := 0; i < c.N; i++ {
				want[i] = ref.Fnv1(want[i], data[i])
			}
			crypto.FnvHash(mix[:c.N], data)
			if err := hx.EqWords("mix", mix, want); err != nil {
				return true, err
			}
			return c.N > 0, hx.EqWords("data", data, d0)
		}})

	type hasherCase struct {
		Wide   bool // Keccak-512
		Prev   int  // length hashed before with the same hasher, -1: none
		N      int
		Layout string // separate, inplace, prefix (dest within longer data), after (dest overlaps the end)
		Slack  int
	}
	hx.Explore(r, hx.Suite[hasherCase]{
		Name: "hasher", Rule: "reusable Keccak-256/512 hashers: every input length 0..300 x layouts of destination and input x earlier use with every length class",
		Gen: func(yield func(hasherCase) bool) {
			for _, wide := range []bool{false, true} {
				for n := 0; n <= 300; n++ {
					for _, lay := range []string{"separate", "inplace", "tail"} {
						for _, prev := range []int{-1, 0, 1, 32, 64, 71, 72, 73, 135, 136, 137, 144, 272} {
							for _, slack := range []int{0, 7} {
								if !yield(hasherCase{wide, prev, n, lay, slack}) {
									return
								}
							}
						}
					}
				}
			}
		},
		Eval: func(w *hx.W, c hasherCase) (bool, error) {
			size, mk, rf := 32, crypto.NewKeccak256Hasher, ref.Keccak256
			if c.Wide {
				size, mk, rf = 64, crypto.NewKeccak512Hasher, ref.Keccak512
			}
			h := mk()
			rg := hx.Rng(c.N + 1)
			if c.Prev >= 0 {
				in := rg.Bytes(c.Prev)
				out := make([]byte, size)
				h(out, in)
				if err := hx.EqBytes("earlier digest", out, rf(in)); err != nil {
					return true, err
				}
			}
			total := c.N + size + c.Slack + 16
			mem := rg.Bytes(total)
			data := mem[8 : 8+c.N]
			var at int
			switch c.Layout {
			case "separate":
				at = 8 + c.N
			case "inplace":
				at = 8
			case "tail":
				at = 8 + c.N/2
			}
			want := append([]byte(nil), mem...)
			copy(want[at:], rf(data))
			end := at + size + c.Slack
			if end > total {
				end = total
			}
			h(mem[at:end], data)
			return true, hx.EqBytes("memory around the digest", mem, want)
		}})

	hx.Explore(r, hx.Suite[msgCase]{
		Name: "digests", Rule: "Keccak-256/512, BLAKE2b-256 (every message length 0..1300 and around the powers of two to 65536), personalised BLAKE2b (lengths x personalisations 0..16 x digest sizes 1..64), cSHAKE256 (lengths x customisations 0..128 x outputs 0..300)",
		Gen: func(yield func(msgCase) bool) {
			var long []int
			for sh := 11; sh <= hx.Pick(r, 16, 20); sh++ {
				for d := -4; d <= 4; d++ {
					long = append(long, 1<<uint(sh)+d)
				}
			}
			for _, n := range long {
				if !yield(msgCase{"blake2b", n, 16, 50, 1}) || !yield(msgCase{"cshake256", n, 15, 32, 1}) {
					return
				}
			}
			for _, k := range []string{"keccak256", "keccak512", "blake2b256"} {
				for n := 0; n <= hx.Pick(r, 1300, 5000); n++ {
					for f := 0; f < 2; f++ {
						if !yield(msgCase{k, n, 0, 0, f}) {
							return
						}
					}
				}
				for _, n := range long {
					if !yield(msgCase{k, n, 0, 0, 1}) {
						return
					}
				}
			}
			ns := []int{0, 1, 2, 63, 64, 65, 127, 128, 129, 135, 136, 137, 144, 200, 255, 256, 257, 271, 272, 273, 400}
			for _, n := range ns {
				for p := 0; p <= 16; p++ {
					for out := 1; out <= 64; out++ {
						if !yield(msgCase{"blake2b", n, p, out, 1}) {
							return
						}
					}
				}
				for p := 0; p <= 128; p += hx.Pick(r, 3, 1) {
					for out := 0; out <= 300; out += hx.Pick(r, 17, 1) {
						if !yield(msgCase{"cshake256", n, p, out, 1}) {
							return
						}
					}
				}
			}
			for n := 0; n <= 1300; n++ {
				for _, p := range []int{0, 8, 15, 16} {
					if !yield(msgCase{"blake2b", n, p, 50, 1}) {
						return
					}
					if !yield(msgCase{"cshake256", n, p, 32, 1}) {
						return
					}
				}
			}
		},
		Eval: evalMsg})

	// 129 bytes make the encoded names fill a block exactly; see known_findings.txt
	hx.Explore(r, hx.Suite[msgCase]{
		Name: "cshake-fullblock", Rule: "the customisation length whose encoding fills a block exactly",
		Gen:  func(yield func(msgCase) bool) { yield(msgCase{"cshake256", 0, 129, 32, 0}) },
		Eval: evalMsg})
	hx.Explore(r, hx.Suite[xorCase]{
		Name: "xor", Rule: "operands between inaccessible pages: lengths 0..80 x all alignments mod 16 of destination and operands; lengths 0..1200 and around 4096 x alignment classes; unequal lengths; exact aliasing; operands ending at a page end",
		Gen: func(yield func(xorCase) bool) {
			for n := 0; n <= 80; n++ {
				step := hx.Pick(r, 3, 1)
				for a := 0; a < 16; a += step {
					for b := 0; b < 16; b += step {
						for d := 0; d < 16; d += step {
							if !yield(xorCase{N: n, Offs: [3]int{d, a, b}}) {
								return
							}
						}
					}
				}
			}
			var lens []int
			for n := 0; n <= 1200; n++ {
				lens = append(lens, n)
			}
			for n := 4000; n <= 4200; n++ {
				lens = append(lens, n)
			}
			for _, n := range lens {
				for _, al := range []string{"", "a", "b", "ab", "all"} {
					for _, o := range [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {8, 0, 8}, {3, 5, 7}, {16, 16, 16}} {
						for _, end := range []bool{false, true} {
							if !yield(xorCase{N: n, Offs: o, Alias: al, End: end}) {
								return
							}
						}
					}
				}
				for _, x := range []int{1, 8, 16, 17} {
					for l := 0; l <= 2; l++ {
						for _, end := range []bool{false, true} {
							if !yield(xorCase{N: n, Extra: x, Longer: l, End: end}) {
								return
							}
						}
					}
				}
			}
		},
		Eval: evalXor})

	type shortCase struct {
		N, Dst int // lengths of both operands and of the destination
		Off    int
	}
	hx.Explore(r, hx.Suite[shortCase]{
		Name: "xor-short", Rule: "destinations shorter than both operands, every pair of lengths up to 70 and around 4096, three alignments: a panic, and no byte after the destination changes",
		Gen: func(yield func(shortCase) bool) {
			for _, base := range []int{0, 4060} {
				for n := base + 1; n <= base+70; n++ {
					for d := base; d < n; d++ {
						for _, off := range []int{0, 1, 8} {
							if !yield(shortCase{n, d, off}) {
								return
							}
						}
					}
				}
			}
		},
		Eval: func(w *hx.W, c shortCase) (bool, error) {
			rng := hx.Rng(uint64(c.N))
			mem := rng.Bytes(c.Off + c.N + 100)
			before := append([]byte(nil), mem...)
			a, b := rng.Bytes(c.N), rng.Bytes(c.N)
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				bitutil.XORBytes(mem[c.Off:c.Off+c.Dst], a, b)
				return false
			}()
			for i := range mem {
				if (i < c.Off || i >= c.Off+c.Dst) && mem[i] != before[i] {
					return true, fmt.Errorf("byte %d after a destination of %d was overwritten", i-c.Off-c.Dst, c.Dst)
				}
			}
			if !panicked {
				return true, fmt.Errorf("no panic though the destination has %d bytes and the operands %d", c.Dst, c.N)
			}
			return true, nil
		},
	})

	type convCase struct {
		N   int
		Big bool
	}
	hx.Explore(r, hx.Suite[convCase]{
		Name: "conversions", Rule: "word/byte conversions, all lengths 0..300, both byte orders",
		Gen: func(yield func(convCase) bool) {
			for n := 0; n <= 300; n++ {
				if !yield(convCase{n, false}) || !yield(convCase{n, true}) {
					return
				}
			}
		},
		Eval: func(w *hx.W, c convCase) (bool, error) {
			rg := hx.Rng(c.N + 1)
			buf := rg.Bytes(c.N)
			var ord binary.ByteOrder = binary.LittleEndian
			if c.Big {
				ord = binary.BigEndian
			}
			at := func(b []byte, i, n int) (v uint64) {
				for j := 0; j < n; j++ {
					if c.Big {
						v = v<<8 | uint64(b[i+j])
					} else {
						v |= uint64(b[i+j]) << (8 * uint(j))
					}
				}
				return
			}
			ws := convutil.BytesToUint32Array(buf, ord)
			if len(ws) != c.N/4 {
				return true, fmt.Errorf("%d words from %d bytes", len(ws), c.N)
			}
			for i := range ws {
				if uint64(ws[i]) != at(buf, 4*i, 4) {
					return true, fmt.Errorf("word %d is %x", i, ws[i])
				}
			}
			if err := hx.EqBytes("back", convutil.Uint32ArrayToBytes(ws, ord), buf[:c.N/4*4]); err != nil {
				return true, err
			}
			if c.N >= 8 {
				if v := at(buf, 0, 8); at(convutil.Uint64ToBytes(v, ord), 0, 8) != v || len(convutil.Uint64ToBytes(v, ord)) != 8 {
					return true, fmt.Errorf("Uint64ToBytes")
				}
				if v := at(buf, 0, 4); at(convutil.Uint32ToBytes(uint32(v), ord), 0, 4) != v || len(convutil.Uint32ToBytes(uint32(v), ord)) != 4 {
					return true, fmt.Errorf("Uint32ToBytes")
				}
			}
			return c.N > 0, nil
		}})
	_ = thorough
}
