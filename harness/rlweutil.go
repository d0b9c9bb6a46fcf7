package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

type rlweOpts struct {
	minLogN, maxLogN int
	minQ, maxQ       int
	minP, maxP       int
	lo, hi           int // modulus sizes
	types            []ring.Type
}

var rlweCache sync.Map

// getRLWE builds (and caches) a parameter set.
func getRLWE(logN int, q, p []uint64, t ring.Type) rlwe.Parameters {
	k := fmt.Sprint(logN, q, p, t)
	if v, ok := rlweCache.Load(k); ok {
		return v.(rlwe.Parameters)
	}
	params, err := rlwe.NewParameters(logN, q, p, 1<<uint(logN-1), rlwe.DefaultSigma, t)
	if err != nil {
		panic(fmt.Sprintf("parameter construction refused valid parameters logN=%d q=%v p=%v %v: %v", logN, q, p, typeName(t), err))
	}
	rlweCache.Store(k, params)
	return params
}

// randRLWE draws a parameter set. Half of the draws have all moduli of about one size, the others mixed sizes.
func (c *Case) randRLWE(o rlweOpts) rlwe.Parameters {
	if o.types == nil {
		o.types = []ring.Type{ring.Standard, ring.ConjugateInvariant}
	}
	t := o.types[c.R.Intn(len(o.types))]
	if c.Large {
		o.maxQ, o.maxP = maxInt(o.minQ, minInt(o.maxQ, 3)), maxInt(o.minP, minInt(o.maxP, 2))
		o.lo = maxInt(o.lo, 28)
		o.hi = maxInt(o.lo, o.hi)
	}
	// now and then many more moduli than usual, over a small degree
	wide := !c.Large && o.maxQ >= 4 && o.minLogN <= 6 && c.R.Intn(24) == 0
	if wide {
		o.maxLogN = minInt(o.maxLogN, maxInt(o.minLogN, 5))
		o.minQ, o.maxQ = 7, 20
		if o.maxP > o.minP {
			o.minP, o.maxP = 3, 9
		}
	}
	logN := c.logN(o.minLogN, o.maxLogN)
	nq := o.minQ + c.R.Intn(o.maxQ-o.minQ+1)
	np := o.minP + c.R.Intn(o.maxP-o.minP+1)
	l, h := o.lo, o.hi
	if c.R.Intn(2) == 0 {
		l = o.lo + c.R.Intn(o.hi-o.lo+1)
		h = l + 3
		if h > o.hi {
			l, h = o.hi-3, o.hi
		}
		if l < o.lo {
			l = o.lo
		}
	} else if o.hi == 61 && c.R.Intn(5) == 0 { // the largest moduli
		l = 60
	}
	var ps []uint64
	if wide {
		ps = widePrimes(c.R, nq+np, nthRootOf(1<<uint(logN), t), l, h, nil)
	} else {
		ps = pickPrimes(c.R, nq+np, nthRootOf(1<<uint(logN), t), l, h)
	}
	return getRLWE(logN, ps[:nq], ps[nq:], t)
}

func describe(p rlwe.Parameters) string {
	return fmt.Sprintf("%s logN=%d Q=%v P=%v", typeName(p.RingType()), p.LogN(), p.Q(), p.P())
}

// ---- deep comparison -----------------------------------------------------------

func samePoly(a, b *ring.Poly) bool {
	if a == nil || b == nil {
		return a == b
	}
	return eqCoeffs(a.Coeffs, b.Coeffs) && a.IsNTT == b.IsNTT && a.IsMForm == b.IsMForm
}

func sameQP(a, b rlwe.PolyQP) bool { return samePoly(a.Q, b.Q) && samePoly(a.P, b.P) }

func sameSwk(a, b *rlwe.SwitchingKey) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.Value) != len(b.Value) {
		return false
	}
	for i := range a.Value {
		if !sameQP(a.Value[i][0], b.Value[i][0]) || !sameQP(a.Value[i][1], b.Value[i][1]) {
			return false
		}
	}
	return true
}

func sameRlk(a, b *rlwe.RelinearizationKey) bool {
	if len(a.Keys) != len(b.Keys) {
		return false
	}
	for i := range a.Keys {
		if !sameSwk(a.Keys[i], b.Keys[i]) {
			return false
		}
	}
	return true
}

func sameRtks(a, b *rlwe.RotationKeySet) bool {
	if len(a.Keys) != len(b.Keys) {
		return false
	}
	for g, k := range a.Keys {
		o, ok := b.Keys[g]
		if !ok || !sameSwk(k, o) {
			return false
		}
	}
	return true
}

func sameCt(a, b *rlwe.Ciphertext) bool {
	if len(a.Value) != len(b.Value) {
		return false
	}
	for i := range a.Value {
		if !samePoly(a.Value[i], b.Value[i]) {
			return false
		}
	}
	return true
}

// snapPoly is an independent deep copy.
func snapPoly(p *ring.Poly) *ring.Poly {
	if p == nil {
		return nil
	}
	return &ring.Poly{Coeffs: copyCoeffs(p), IsNTT: p.IsNTT, IsMForm: p.IsMForm}
}
func snapQP(p rlwe.PolyQP) rlwe.PolyQP { return rlwe.PolyQP{Q: snapPoly(p.Q), P: snapPoly(p.P)} }
func snapSwk(k *rlwe.SwitchingKey) *rlwe.SwitchingKey {
	o := &rlwe.SwitchingKey{}
	for _, v := range k.Value {
		o.Value = append(o.Value, [2]rlwe.PolyQP{snapQP(v[0]), snapQP(v[1])})
	}
	return o
}
func snapCt(ct *rlwe.Ciphertext) *rlwe.Ciphertext {
	o := &rlwe.Ciphertext{}
	for _, v := range ct.Value {
		o.Value = append(o.Value, snapPoly(v))
	}
	return o
}

// ---- random objects --------------------------------------------------------------

func flags(rg *rand.Rand, p *ring.Poly) *ring.Poly {
	p.IsNTT = rg.Intn(2) == 0
	p.IsMForm = rg.Intn(2) == 0
	return p
}

func (c *Case) randPolyFlags(N int, moduli []uint64) *ring.Poly {
	return flags(c.R, randPoly(c.R, N, moduli))
}

func (c *Case) randQP(p rlwe.Parameters, levelQ, levelP int) (o rlwe.PolyQP) {
	o.Q = c.randPolyFlags(p.N(), p.Q()[:levelQ+1])
	if p.PCount() > 0 && levelP >= 0 {
		o.P = c.randPolyFlags(p.N(), p.P()[:levelP+1])
	}
	return
}

func (c *Case) randSwk(p rlwe.Parameters) *rlwe.SwitchingKey {
	k := &rlwe.SwitchingKey{}
	n := 1 + c.R.Intn(4)
	for i := 0; i < n; i++ {
		k.Value = append(k.Value, [2]rlwe.PolyQP{c.randQP(p, p.QCount()-1, p.PCount()-1), c.randQP(p, p.QCount()-1, p.PCount()-1)})
	}
	return k
}

// ternary draws a polynomial with coefficients in {-1,0,1}.
func ternary(rg *rand.Rand, N int) []int64 {
	v := make([]int64, N)
	for i := range v {
		v[i] = int64(rg.Intn(3) - 1)
	}
	return v
}

func setInts(p *ring.Poly, moduli []uint64, v []int64) {
	for i := range p.Coeffs {
		q := moduli[i]
		for j, x := range v {
			if x >= 0 {
				p.Coeffs[i][j] = uint64(x) % q
			} else {
				p.Coeffs[i][j] = (q - uint64(-x)%q) % q
			}
		}
	}
}

func maxAbs(v []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}

// dirty fills a polynomial with arbitrary words.
func dirty(rg *rand.Rand, p *ring.Poly) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = rg.Uint64()
		}
	}
}
