// Command toy runs the functions of lib on examples and prints what they do.
package main

import (
	"encoding/json"
	"math/rand"
	"os"

	"toy/lib"
)

type Case struct {
	Fn       string
	Dst, Src []int
	N, K     int
	OutDst   []int
	OutSrc   []int
	R        int
	B        bool
}

func ints(b []byte) []int {
	r := []int{}
	for _, c := range b {
		r = append(r, int(c))
	}
	return r
}

func main() {
	rng := rand.New(rand.NewSource(1))
	var out []Case
	for name, f := range lib.All {
		for i := 0; i < 60; i++ {
			gen := func() []byte {
				n := rng.Intn(9)
				if i%10 == 9 {
					n = 8
				}
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(rng.Intn(6))
					if rng.Intn(3) == 0 {
						b[i] = byte(rng.Intn(256))
					}
				}
				return b
			}
			d, s := gen(), gen()
			c := Case{Fn: name, Dst: ints(d), Src: ints(s), N: rng.Intn(9), K: rng.Intn(14) - 3}
			c.R, c.B = f(d[:len(d):len(d)], s[:len(s):len(s)], c.N, c.K)
			c.OutDst, c.OutSrc = ints(d), ints(s)
			out = append(out, c)
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
