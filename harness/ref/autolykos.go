package ref

import (
	"encoding/binary"
	"math/big"
)

// AutolykosN is the table size at a height.
func AutolykosN(exp uint, height uint64) uint64 {
	n := uint64(1) << exp
	if height > 4198400 {
		height = 4198400
	}
	for h := uint64(614400); h <= height; h += 51200 {
		n = n / 100 * 105
	}
	return n
}

var autolykosM []byte

func init() {
	for i := uint64(0); i < 1024; i++ {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], i)
		autolykosM = append(autolykosM, b[:]...)
	}
}

// Autolykos2 is Ergo's hash.
func Autolykos2(k int, exp uint, msg []byte, height, nonce uint64) []byte {
	n := AutolykosN(exp, height)
	cat := func(parts ...[]byte) []byte {
		var out []byte
		for _, p := range parts {
			out = append(out, p...)
		}
		return out
	}
	be4 := func(v uint32) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], v); return b[:] }
	var nb [8]byte
	binary.BigEndian.PutUint64(nb[:], nonce)
	hb := be4(uint32(height))
	pre := Blake2b256(cat(msg, nb[:]))
	i := binary.BigEndian.Uint64(pre[24:]) % n
	f := Blake2b256(cat(be4(uint32(i)), hb, autolykosM))[1:]
	ext := Blake2b256(cat(f, msg, nb[:]))
	ext = append(ext, ext[:3]...)
	sum := new(big.Int)
	for j := 0; j < k; j++ {
		idx := uint64(binary.BigEndian.Uint32(ext[j:])) % n
		e := Blake2b256(cat(be4(uint32(idx)), hb, autolykosM))[1:]
		sum.Add(sum, new(big.Int).SetBytes(e))
	}
	out := make([]byte, 32)
	b := sum.Bytes()
	copy(out[32-len(b):], b)
	return Blake2b256(out)
}
