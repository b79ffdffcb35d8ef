//go:build go1.23

package pk

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

// Args are the arguments of any operation.
type Args struct {
	A hx.Hex   // header, message or input
	B hx.Hex   // encoded solution
	E []uint64 // edges
	X uint64   // height or timestamp
	Y uint64   // nonce
}

// Place is where a caller keeps the arguments it reuses.
type Place struct {
	A, B []byte
	E    []uint64
}

// Clone copies the arguments into buffers with a guarded tail.
func (a Args) Clone() (Args, func() error) { return a.CloneIn(nil) }

// CloneIn does so into the buffers of earlier calls.
func (a Args) CloneIn(at *Place) (Args, func() error) {
	if at == nil {
		at = new(Place)
	}
	grow := func(at *[]byte, b []byte) (hx.Hex, func(string) error) {
		if b == nil {
			return nil, func(string) error { return nil }
		}
		if cap(*at) < len(b)+96 {
			*at = make([]byte, len(b)+96)
		}
		full := (*at)[:len(b)+96]
		copy(full, b)
		for i := len(b); i < len(full); i++ {
			full[i] = byte(0xa5 + i*7)
		}
		want := append([]byte(nil), full...)
		return full[:len(b)], func(n string) error {
			if !bytes.Equal(full, want) {
				for i := range full {
					if full[i] != want[i] {
						return fmt.Errorf("the call changed its argument %s at offset %d of %d", n, i, len(b))
					}
				}
			}
			return nil
		}
	}
	out := a
	var ga, gb func(string) error
	out.A, ga = grow(&at.A, a.A)
	out.B, gb = grow(&at.B, a.B)
	var full, want []uint64
	if a.E != nil {
		if cap(at.E) < len(a.E)+8 {
			at.E = make([]uint64, 0, len(a.E)+8)
		}
		full = append(append(at.E[:0], a.E...), 1, 2, 3, 4, 5, 6, 7, 8)
		want = append([]uint64(nil), full...)
		out.E = full[:len(a.E)]
	}
	return out, func() error {
		if err := ga("header"); err != nil {
			return err
		}
		if err := gb("solution"); err != nil {
			return err
		}
		for i := range full {
			if full[i] != want[i] {
				return fmt.Errorf("the call changed its argument edges at %d of %d", i, len(a.E))
			}
		}
		return nil
	}
}

// Result of an operation: either bytes or a verdict.
type Result struct {
	Out [][]byte
	OK  bool
	Err error
}

// Same compares with what the reference says: verdict operations may reject with false or an error.
func (r Result) Same(want Result) error {
	if len(want.Out) == 0 {
		if (r.OK && r.Err == nil) != want.OK {
			return fmt.Errorf("verdict (%v, %v), want %v", r.OK, r.Err, want.OK)
		}
		return nil
	}
	if r.Err != nil {
		return fmt.Errorf("error %w", r.Err)
	}
	for i := range want.Out {
		if !bytes.Equal(r.Out[i], want.Out[i]) {
			return fmt.Errorf("output %d is %x, want %x", i, r.Out[i], want.Out[i])
		}
	}
	return nil
}

// Op is one operation on one configured client.
type Op struct {
	Name  string
	Algo  string
	New   func() any
	Call  func(client any, a Args) Result
	Ref   func(a Args) Result
	Base  Args
	LenA  int // fixed length of A, or -1
	LenB  int // fixed length of B, or -1 (0: there is none)
	LenE  int // fixed length of E (0: there is none)
	HasX  bool
	HasY  bool
	Xs    []uint64 // values of X that matter
	Valid []Args   // further arguments (valid solutions)
}

func bytesOut(b []byte, err error) Result { return Result{Out: [][]byte{b}, Err: err} }

func dagOp(a *Algo, name string, c ref.Chain) Op {
	return Op{
		Name: name, Algo: a.Name, LenA: 32, HasX: true, HasY: true,
		New: func() any { return a.New(Config(c, "")) },
		Call: func(cl any, x Args) Result {
			out, err := a.Call(cl, x.A, x.X, x.Y)
			return Result{Out: out, Err: err}
		},
		Ref:  func(x Args) Result { return Result{Out: a.Ref(c, x.A, x.X, x.Y)} },
		Base: Args{A: fill(32, 1), X: 5, Y: 0x1122334455667788},
		Xs:   []uint64{5, 6, 8, 9, 0, 15, 25, 55, 105},
	}
}

func fill(n int, seed uint64) []byte { r := hx.Rng(seed); return r.Bytes(n) }

// Ops lists every operation: the shipped clients where they are cheap, and other
// parameters next to them.
func Ops() (out []Op) {
	ta, tb := Tiny("T", 4096), Tiny("T", 4096)
	tb.CacheInit, tb.Parents = 1<<11, 3
	for _, a := range []*Algo{EthashAlgo, KawpowAlgo, FiropowAlgo, OctopusAlgo} {
		x, y := ta, tb
		x.Mix, y.Mix, x.L1Words, y.L1Words = a.Mix, a.Mix, a.L1, a.L1
		x.Parents = 2
		out = append(out, dagOp(a, a.Name, x), dagOp(a, a.Name+"-other", y))
	}
	for _, p := range [][2]uint32{{32, 26}, {32, 20}, {7, 26}, {32, 10}} {
		p := p
		out = append(out, Op{
			Name: fmt.Sprintf("autolykos2-%d-%d", p[0], p[1]), Algo: "autolykos2", LenA: 32, HasX: true, HasY: true,
			New: func() any { return autolykos2.New(p[0], p[1]) },
			Call: func(cl any, x Args) Result {
				return bytesOut(cl.(*autolykos2.Client).Compute(x.A, x.X, x.Y))
			},
			Ref:  func(x Args) Result { return bytesOut(ref.Autolykos2(int(p[0]), uint(p[1]), x.A, x.X, x.Y), nil) },
			Base: Args{A: fill(32, 1), X: 614399, Y: 12549},
			Xs:   []uint64{614399, 614400, 665600, 0, 4198400, 1<<32 - 1},
		})
	}
	out[len(out)-4].New = func() any { return autolykos2.NewErgo() }
	out = append(out, Op{
		Name: "heavyhash", Algo: "heavyhash", LenA: 32, HasX: true, HasY: true,
		New: func() any { return heavyhash.NewKaspa() },
		Call: func(cl any, x Args) Result {
			return bytesOut(cl.(*heavyhash.Client).Compute(x.A, int64(x.X), x.Y))
		},
		Ref:  func(x Args) Result { b, _ := ref.HeavyHash(x.A, int64(x.X), x.Y); return bytesOut(b, nil) },
		Base: Args{A: fill(32, 1), X: 1656000000000, Y: 77},
		Xs:   []uint64{1656000000000, 1656000000001, 0, 1<<64 - 1},
	})
	out = append(out, Op{
		Name: "eaglesong", Algo: "eaglesong", LenA: -1,
		New:  func() any { return eaglesong.NewNervos() },
		Call: func(cl any, x Args) Result { return bytesOut(cl.(*eaglesong.Client).Compute(x.A), nil) },
		Ref:  func(x Args) Result { return bytesOut(ref.Eaglesong(x.A), nil) },
		Base: Args{A: fill(48, 1)},
	})
	for i, name := range []string{"aeternity", "", "cortex"} {
		if name == "" {
			continue
		}
		i := i
		op := Op{
			Name: name, Algo: "cuckoo", LenA: -1, LenE: 42,
			New: func() any {
				if i == 0 {
					return cuckoo.NewAeternity()
				}
				return cuckoo.NewCortex()
			},
			Call: func(cl any, x Args) Result {
				ok, err := cl.(*cuckoo.Client).Verify(x.A, x.E)
				return Result{OK: ok, Err: err}
			},
			Ref: func(x Args) Result { return Result{OK: cuckooRef(i, x.A, x.E)} },
		}
		for _, v := range Vectors("cuckoo") {
			if v[0] != strconv.Itoa(i) {
				continue
			}
			var e []uint64
			for _, s := range v[2:] {
				n, err := strconv.ParseUint(strings.Trim(s, "[]"), 10, 64)
				if err != nil {
					panic(err)
				}
				e = append(e, n)
			}
			op.Valid = append(op.Valid, Args{A: hx.UnHex(v[1]), E: e})
		}
		op.Base = op.Valid[0]
		out = append(out, op)
	}
	out = append(out, Op{
		Name: "beam", Algo: "beamhashiii", LenA: 40, LenB: 104,
		New: func() any { return beamhashiii.NewBeam() },
		Call: func(cl any, x Args) Result {
			ok, err := cl.(*beamhashiii.Client).Verify(x.A, x.B)
			return Result{OK: ok, Err: err}
		},
		Ref: func(x Args) Result { return Result{OK: ref.BeamVerify(x.A, x.B)} },
	})
	b := &out[len(out)-1]
	for _, v := range Vectors("beam") {
		b.Valid = append(b.Valid, Args{A: hx.UnHex(v[0]), B: hx.UnHex(v[1])})
	}
	b.Base = b.Valid[0]
	seen := map[string]int{}
	for _, v := range Vectors("equihash") {
		n, _ := strconv.Atoi(v[0])
		k, _ := strconv.Atoi(v[1])
		p := ref.Equi{N: n, K: k, Pers: v[2], Twist: v[3] == "true"}
		if k == 3 {
			continue
		}
		name := fmt.Sprintf("equihash-%d-%d", n, k)
		a := Args{A: hx.UnHex(v[4]), B: hx.UnHex(v[5])}
		if i, ok := seen[name]; ok {
			if len(out[i].Valid) < 3 {
				out[i].Valid = append(out[i].Valid, a)
			}
			continue
		}
		seen[name] = len(out)
		out = append(out, Op{
			Name: name, Algo: "equihash", LenA: -1, LenB: p.SolLen(),
			New: func() any { return EquihashClient(n, k, p.Pers, p.Twist) },
			Call: func(cl any, x Args) Result {
				ok, err := cl.(*equihash.Client).Verify(x.A, x.B)
				return Result{OK: ok, Err: err}
			},
			Ref:   func(x Args) Result { return Result{OK: p.Verify(x.A, x.B)} },
			Base:  a,
			Valid: []Args{a},
		})
	}
	return
}

// EquihashClient is the shipped client for its parameters, or one built from them.
func EquihashClient(n, k int, pers string, twist bool) *equihash.Client {
	switch [2]int{n, k} {
	case [2]int{125, 4}:
		return equihash.NewFlux()
	case [2]int{144, 5}:
		return equihash.NewBitcoinGold()
	case [2]int{192, 7}:
		return equihash.NewZClassic()
	case [2]int{200, 9}:
		return equihash.NewZCash()
	case [2]int{210, 9}:
		return equihash.NewAion()
	}
	return equihash.New(uint32(n), uint32(k), pers, twist)
}

// cuckooRef decides Aeternity (0) and Cortex (2) proofs.
func cuckooRef(variant int, header []byte, edges []uint64) bool {
	h := ref.Blake2b256(header)
	var k [4]uint64
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	if variant == 0 {
		const m = 1<<29 - 1
		return ref.CycleOK(m, 42, edges, func(e uint64) [2]uint64 {
			return [2]uint64{ref.SipNodeLegacy(m, k, e, 0), ref.SipNodeLegacy(m, k, e, 1)}
		})
	}
	const m = 1<<30 - 1
	return ref.CycleOK(m, 42, edges, func(e uint64) [2]uint64 {
		x := ref.SipBlock48(k, e)
		return [2]uint64{x & m, x >> 32 & m}
	})
}

// Variants are inputs of an operation that agree with its base in all but one
// respect, so that anything remembered from one call to the next under too short
// a name shows. The malformed ones come last.
func (o *Op) Variants() (out []Args, bad []Args) {
	flip := func(b hx.Hex, i int) hx.Hex {
		c := append(hx.Hex(nil), b...)
		c[i] ^= 1
		return c
	}
	with := func(f func(a *Args)) Args { a := o.Base; f(&a); return a }
	out = append(out, o.Base)
	n := len(o.Base.A)
	for _, i := range []int{0, 7, 8, n / 2, n - 1} {
		if i < n {
			out = append(out, with(func(a *Args) { a.A = flip(a.A, i) }))
		}
	}
	for _, x := range o.Xs {
		if x != o.Base.X {
			out = append(out, with(func(a *Args) { a.X = x }))
		}
	}
	if o.HasY {
		for _, y := range []uint64{1, 1 << 32, 1 << 63} {
			out = append(out, with(func(a *Args) { a.Y ^= y }))
		}
	}
	if m := len(o.Base.B); m > 0 {
		for _, i := range []int{0, 8, m / 2, m - 5, m - 1} {
			out = append(out, with(func(a *Args) { a.B = flip(a.B, i) }))
		}
	}
	if m := len(o.Base.E); m > 0 {
		for _, i := range []int{0, m / 2, m - 1} {
			out = append(out, with(func(a *Args) { a.E = append([]uint64(nil), a.E...); a.E[i]++ }))
		}
		out = append(out, with(func(a *Args) {
			a.E = append([]uint64(nil), a.E...)
			a.E[0], a.E[1] = a.E[1], a.E[0]
		}))
	}
	for i, v := range o.Valid {
		if i > 0 {
			out = append(out, v, with(func(a *Args) { a.A = v.A }))
		}
	}
	if o.LenA < 0 {
		out = append(out, with(func(a *Args) { a.A = a.A[:n-1] }), with(func(a *Args) { a.A = append(append(hx.Hex(nil), a.A...), 0) }),
			with(func(a *Args) { a.A = nil }))
		if o.LenB == 0 && o.LenE == 0 {
			for _, l := range []int{31, 32, 33, 64, 200} {
				out = append(out, with(func(a *Args) { a.A = fill(l, 1) }))
			}
		}
	} else {
		for _, l := range []int{0, o.LenA - 1, o.LenA + 1} {
			bad = append(bad, with(func(a *Args) { a.A = fill(l, 1) }))
		}
		bad = append(bad, with(func(a *Args) { a.A = nil }))
	}
	if o.LenB > 0 {
		for _, l := range []int{0, o.LenB - 1, o.LenB + 1} {
			bad = append(bad, with(func(a *Args) { a.B = fill(l, 1) }))
		}
	}
	if o.LenE > 0 {
		bad = append(bad, with(func(a *Args) { a.E = a.E[:o.LenE-1] }), with(func(a *Args) { a.E = nil }))
	}
	return
}
