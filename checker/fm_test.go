package main

import (
	"math/big"
	"math/rand"
	"testing"
)

func TestFMAgrees(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	names := []string{"a", "b", "c", "d", "e"}
	mis, inf := 0, 0
	for n := 0; n < 20000; n++ {
		var cs, ne []*lin
		allInt := rng.Intn(2) == 0
		k := 2 + rng.Intn(6)
		for i := 0; i < k; i++ {
			l := &lin{v: map[string]*big.Rat{}, c: big.NewRat(int64(rng.Intn(9)-4), 1), isInt: allInt}
			if !allInt {
				l.strict = rng.Intn(3) == 0
				l.c = big.NewRat(int64(rng.Intn(9)-4), int64(1+rng.Intn(3)))
			}
			for _, x := range names {
				if rng.Intn(2) == 0 {
					y := big.NewRat(int64(rng.Intn(7)-3), 1)
					if y.Sign() != 0 {
						l.v[x] = y
					}
				}
			}
			if rng.Intn(6) == 0 && len(ne) < 2 {
				l.ne = true
				ne = append(ne, l)
			} else {
				cs = append(cs, l)
			}
		}
		r, ok := infNeFast(cs, ne)
		q := infNe(cs, ne)
		if !ok {
			t.Log("range")
		}
		if q {
			inf++
		}
		if ok && r != q {
			mis++
		}
	}
	t.Logf("mismatch %d infeasible %d", mis, inf)
}
