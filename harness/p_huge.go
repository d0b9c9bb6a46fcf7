package main

import (
	"math"
	"math/big"
	"math/bits"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// The largest degrees: oracles that are too slow to cover every coefficient look at a sample of them.

// sample draws k indices below n, both ends included.
func (c *Case) sample(n, k int) []int {
	v := []int{0, n - 1, n / 2}
	for len(v) < k {
		v = append(v, c.R.Intn(n))
	}
	return v
}

// hugeTransform compares transforms with evaluations at some of their points.
func (c *Case) hugeTransform() {
	t := ring.Type(c.Idx & 1)
	logN := 13 + c.Idx/2%5
	if t == ring.ConjugateInvariant && logN > 16 {
		logN = 16
	}
	N := 1 << uint(logN)
	lo := 30 + c.R.Intn(30)
	R := getRing(N, pickPrimes(c.R, 1, nthRootOf(N, t), lo, minInt(lo+4, 61)), t)
	q := R.Modulus[0]
	c.Feature("N=%d type=%s qbits=%d", N, typeName(t), bits.Len64(q))
	mono, pts := make([]uint64, N), make([]uint64, N)
	mono[1] = 1
	R.NTTSingle(0, mono, pts)
	seen := make(map[uint64]bool, N)
	for _, x := range pts {
		seen[x] = true
		if t == ring.Standard {
			for i := 0; i < logN; i++ {
				x = mulMod(x, x, q)
			}
			if x != q-1 {
				c.Fatal("points-root", "evaluation point is not a root of X^%d+1 mod %d", N, q)
			}
		} else {
			for i := 0; i <= logN; i++ { // T_2n = T_n^2-2
				x = subMod(mulMod(x, x, q), 2, q)
			}
			if x != q-2 {
				c.Fatal("points-root", "evaluation point is not of the form w+1/w")
			}
		}
	}
	c.Check(len(seen) == N, "points-distinct", "%d distinct points of %d", len(seen), N)
	a := randPoly(c.R, N, R.Modulus)
	at := c.sample(N, 16)
	var xs []uint64
	for _, k := range at {
		xs = append(xs, pts[k])
	}
	want := evalRef(a.Coeffs[0], xs, q, t)
	o, l := R.NewPoly(), R.NewPoly()
	R.NTT(a, o)
	R.NTTLazy(a, l)
	for i, k := range at {
		c.Check(o.Coeffs[0][k] == want[i], "NTT", "N=%d q=%d point %d", N, q, k)
		c.lazyRange(l.Coeffs[0][k], want[i], q, "NTTLazy")
	}
	for k := range o.Coeffs[0] {
		c.Check(l.Coeffs[0][k]%q == o.Coeffs[0][k] && l.Coeffs[0][k] < 2*q, "NTTLazy", "lazy transform at %d", k)
	}
	R.InvNTT(o, l)
	c.Check(eqCoeffs(l.Coeffs, a.Coeffs), "roundtrip", "N=%d q=%d", N, q)
	c.Event(4 * N)
}

// hugeEncoder encodes and decodes with many slots and compares a sample with the definition.
func (c *Case) hugeEncoder() {
	t := ring.Type(c.R.Intn(2))
	c.Large, c.largeMin, c.largeMax = true, 12, 16
	rp := c.randRLWE(rlweOpts{minQ: 1, maxQ: 2, minP: 0, maxP: 1, lo: 45, hi: 61, types: []ring.Type{t}})
	max := rp.LogN() - 1
	if t == ring.ConjugateInvariant {
		max++
	}
	ls := max - c.R.Intn(3)
	p, err := ckks.NewParameters(rp, ls, math.Exp2(30))
	if err != nil {
		c.Fatal("parameters", "valid parameters refused: %v", err)
	}
	c.Feature("%s ls=%d", describe(rp), ls)
	slots, gap := 1<<uint(ls), embedGap(p, ls)
	ci := t == ring.ConjugateInvariant
	n := 2 * slots
	if ci {
		n = slots
	}
	gap = p.N() / n
	ecd := ckks.NewEncoder(p)
	v := c.slotVector(slots)
	if ci {
		for i := range v {
			v[i] = complex(real(v[i]), 0)
		}
	}
	mag := maxMag(v)
	scale := math.Exp2(30)
	w, five := slotRoots(slots), fivePow(slots)
	pt := ecd.EncodeNew(v, p.MaxLevel(), scale, ls)
	got := coef(pt.Value, p.RingQ(), p.MaxLevel(), true, false).centered()
	for k, x := range got {
		if k%gap != 0 && x.Sign() != 0 {
			c.Fatal("gap", "coefficient %d is not zero", k)
		}
	}
	for _, k := range c.sample(n, 24) {
		acc := 0.0
		for j := range v {
			acc += real(v[j] * w[(4*slots-five[j]*k%(4*slots))%(4*slots)])
		}
		f, _ := new(big.Float).SetInt(got[k*gap]).Float64()
		c.Check(math.Abs(f-acc/float64(slots)*scale) < 0.5+math.Exp2(-20)+scale*mag*math.Exp2(-43), "embed", "coefficient %d is %v instead of %v", k*gap, f, acc/float64(slots)*scale)
	}
	c.Event(p.N())
	back := ecd.Decode(pt, ls)
	c.Check(len(back) == slots, "size", "%d slots", len(back))
	tol := float64(n)/scale + mag*math.Exp2(-30)
	for j := range back {
		if d := back[j] - v[j]; !(math.Abs(real(d)) <= tol && math.Abs(imag(d)) <= tol) {
			c.Fatal("round-trip", "slot %d is %v instead of %v", j, back[j], v[j])
		}
	}
	// the plain and the unrolled transforms agree
	M := 4 * slots
	roots := append(append([]complex128{}, w...), w[0])
	rot := make([]int, 2*slots)
	copy(rot, five)
	x, y := append([]complex128{}, v...), append([]complex128{}, v...)
	inv := c.R.Intn(2) == 0
	if inv {
		ckks.SpecialiFFTVec(x, slots, M, rot, roots)
		ckks.SpecialiFFTUL8Vec(y, slots, M, rot, roots)
	} else {
		ckks.SpecialFFTVec(x, slots, M, rot, roots)
		ckks.SpecialFFTUL8Vec(y, slots, M, rot, roots)
	}
	for j := range x {
		if d := x[j] - y[j]; !(math.Abs(real(d))+math.Abs(imag(d)) <= mag*float64(slots)*math.Exp2(-44)) {
			c.Fatal("transforms", "value %d is %v and %v", j, x[j], y[j])
		}
	}
	// any polynomial, with a coefficient at every position
	ints := c.randInts(p.N(), gap, big.NewInt(1<<40), c.R.Intn(2) == 0)
	pt2 := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: fromInts(ints, p.Q(), t).poly(p.RingQ(), true, false)}, Scale: scale}
	dec := ecd.DecodeSlots(pt2, ls)
	size := 0.0
	co := make([]float64, n)
	for k := range co {
		co[k], _ = new(big.Float).SetInt(ints[k*gap]).Float64()
		co[k] /= scale
		if ci && k > 0 {
			co[k] *= 2
		}
		size += math.Abs(co[k])
	}
	for _, j := range c.sample(slots, 24) {
		var acc complex128
		for k, x := range co {
			z := w[five[j]*k%(4*slots)]
			if ci {
				z = complex(real(z), 0)
			}
			acc += complex(x, 0) * z
		}
		d := dec[j] - acc
		c.Check(math.Abs(real(d)) <= size*math.Exp2(-43) && math.Abs(imag(d)) <= size*math.Exp2(-43), "decode", "slot %d is %v instead of %v", j, dec[j], acc)
	}
	c.Event(2 * slots)
}
