//go:build go1.23

// solve searches, offline, for the valid and nearly valid solutions kept in pk/solutions.txt.
// usage: solve equihash|beam ARGS...; it prints lines "equihash n k pers twist header solution" or "beam header solution".
package main

import (
	"fmt"
	"os"
	"strconv"

	"github.com/sencha-dev/powkit/internal/vh/eqs"
	"github.com/sencha-dev/powkit/internal/vh/hx"
	"github.com/sencha-dev/powkit/internal/vh/ref"
)

func main() {
	arg := func(i int) int {
		n, err := strconv.Atoi(os.Args[i])
		if err != nil {
			panic(err)
		}
		return n
	}
	switch os.Args[1] {
	case "equihash": // n k pers twist seed near
		p := &ref.Equi{N: arg(2), K: arg(3), Pers: os.Args[4], Twist: os.Args[5] == "true"}
		rng := hx.Rng(arg(6))
		header := rng.Bytes(140)
		rows := eqs.Rows(p, header)
		limit := 3 << uint(p.C()+1) / 2
		valid := 0
		for try := 0; valid == 0; try++ {
			if try > 0 {
				header = rng.Bytes(140)
				rows = eqs.Rows(p, header)
			}
			for _, l := range eqs.Solve(p, rows, eqs.Relax{}, false, limit, 4) {
				fmt.Fprintln(os.Stderr, p.N, p.K, "valid:", p.VerifyIndices(header, l))
				fmt.Printf("equihash %d %d %s %v %x %x\n", p.N, p.K, p.Pers, p.Twist, header, p.Encode(l))
				valid++
			}
		}
		if os.Args[7] != "true" {
			return
		}
		for r := 1; r <= p.K+1; r++ {
			for _, d := range []uint32{1, 1 << uint(p.C()-1)} {
				for _, l := range eqs.Solve(p, rows, eqs.Relax{Round: r, Diff: d, Must: true}, false, limit, 1) {
					fmt.Fprintln(os.Stderr, p.N, p.K, "near", r, d, p.VerifyIndices(header, l))
					fmt.Printf("equihash %d %d %s %v %x %x\n", p.N, p.K, p.Pers, p.Twist, header, p.Encode(l))
				}
			}
		}
	case "beam": // seed
		rng := hx.Rng(arg(2))
		header, extra := rng.Bytes(40), rng.Bytes(4)
		for r := 0; r <= 6; r++ {
			for _, d := range []uint32{1, 1 << 23} {
				max := 4
				if r > 0 {
					max = 1
				}
				for _, l := range eqs.Beam(header, extra, eqs.Relax{Round: r, Diff: d, Must: true}, 3<<25/2, max) {
					s := ref.BeamEncode(l, extra)
					fmt.Fprintln(os.Stderr, "beam", r, d, ref.BeamVerify(header, s))
					fmt.Printf("beam %x %x\n", header, s)
				}
				if r == 0 {
					break
				}
			}
		}
	}
}
