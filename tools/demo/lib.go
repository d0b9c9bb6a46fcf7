package main

import (
	"fmt"
	"math/big"
	"os"

	"fast-ksw/ring"
)

func fail(f string, a ...interface{}) { fmt.Printf("FAIL "+f+"\n", a...); os.Exit(1) }

// primes returns n primes = 1 mod m with exactly the given number of bits, other than those to avoid.
func primes(bits int, m uint64, n int, avoid ...uint64) (out []uint64) {
	for x := (uint64(1)<<uint(bits)-2)/m*m + 1; len(out) < n; x -= m {
		skip := x>>uint(bits) != 0
		for _, a := range avoid {
			skip = skip || a == x
		}
		if !skip && new(big.Int).SetUint64(x).ProbablyPrime(10) {
			out = append(out, x)
		}
	}
	return
}

func product(m []uint64) *big.Int {
	p := big.NewInt(1)
	for _, x := range m {
		p.Mul(p, new(big.Int).SetUint64(x))
	}
	return p
}

// ints reads the coefficients of p (in the coefficient domain, not in Montgomery form) as centered integers.
func ints(p *ring.Poly, moduli []uint64) []*big.Int {
	moduli = moduli[:len(p.Coeffs)]
	Q := product(moduli)
	half := new(big.Int).Rsh(Q, 1)
	out := make([]*big.Int, len(p.Coeffs[0]))
	for j := range out {
		v := new(big.Int)
		for i, q := range moduli {
			qi := new(big.Int).SetUint64(q)
			h := new(big.Int).Div(Q, qi)
			inv := new(big.Int).ModInverse(h, qi)
			t := new(big.Int).SetUint64(p.Coeffs[i][j])
			t.Mul(t, inv).Mod(t, qi).Mul(t, h)
			v.Add(v, t)
		}
		v.Mod(v, Q)
		if v.Cmp(half) > 0 {
			v.Sub(v, Q)
		}
		out[j] = v
	}
	return out
}

func maxAbs(v []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}
