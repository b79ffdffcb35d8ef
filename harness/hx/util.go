//go:build go1.23

package hx

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/fnv"
)

// Hex is a byte string shown as hex in cases.
type Hex []byte

// MarshalText writes hex.
func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }

// UnmarshalText reads hex.
func (h *Hex) UnmarshalText(b []byte) error {
	v, err := hex.DecodeString(string(b))
	*h = v
	return err
}

// UnHex decodes hex or panics.
func UnHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// EqBytes compares results.
func EqBytes(what string, got, want []byte) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s: got %x, want %x", what, got, want)
	}
	return nil
}

// EqWords compares words.
func EqWords(what string, got, want []uint32) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: got %d words, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("%s: word %d of %d: got %08x, want %08x", what, i, len(got), got[i], want[i])
		}
	}
	return nil
}

// Hash of anything that fmt prints in a fixed order.
func Hash(a ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%q", a)
	return h.Sum64()
}

// Rng is a small deterministic generator (splitmix64) for filling case content.
type Rng uint64

// Next is the next word.
func (r *Rng) Next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Bytes fills n bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Next() >> 32)
	}
	return b
}

// Try runs f and turns a panic into an error.
func Try(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

// BitsCase is a bit string: filled content (0: zeros) with the given bits flipped, possibly inverted.
type BitsCase struct {
	Set  []int  `json:",omitempty"`
	Inv  bool   `json:",omitempty"`
	Fill uint64 `json:",omitempty"`
}

// Bytes builds the n byte string.
func (c BitsCase) Bytes(n int) []byte {
	b := make([]byte, n)
	if c.Fill != 0 {
		r := Rng(c.Fill)
		b = r.Bytes(n)
	}
	for _, i := range c.Set {
		b[i/8] ^= 1 << uint(i%8)
	}
	if c.Inv {
		for i := range b {
			b[i] = ^b[i]
		}
	}
	return b
}

// Weight enumerates the n bit strings of weight at most 1 (2 if pairs), the
// complements of weight at most 1, and fills with at most one bit flipped.
func Weight(n int, pairs bool, fills int) []BitsCase {
	var out []BitsCase
	for _, inv := range []bool{false, true} {
		out = append(out, BitsCase{Inv: inv})
		for i := 0; i < n; i++ {
			out = append(out, BitsCase{Set: []int{i}, Inv: inv})
		}
	}
	for f := 1; f <= fills; f++ {
		out = append(out, BitsCase{Fill: uint64(f)})
		for i := 0; i < n; i++ {
			out = append(out, BitsCase{Set: []int{i}, Fill: uint64(f)})
		}
	}
	if pairs {
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				out = append(out, BitsCase{Set: []int{i, j}})
			}
		}
	}
	return out
}

// Words64 enumerates the boundary values of a 64 bit argument: 0, every power of
// two, one less, all ones, and their complements.
func Words64() []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	add(0)
	for i := uint(0); i < 64; i++ {
		add(1 << i)
		add(1<<i - 1)
		add(1<<i + 1)
		add(^(uint64(1) << i))
	}
	add(^uint64(0))
	add(0x0123456789abcdef)
	add(0xfedcba9876543210)
	return out
}

// Each turns a list into a generator.
func Each[T any](l []T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for _, v := range l {
			if !yield(v) {
				return
			}
		}
	}
}
