package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// encParams draws CKKS parameters of any shape.
func (c *Case) encParams(maxLogN int, types []ring.Type) ckks.Parameters {
	c.largeMin, c.largeMax = 9, 11 // the reference embedding is quadratic
	rp := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: maxLogN, minQ: 1, maxQ: 6, minP: 0, maxP: 3, lo: 25, hi: 61, types: types})
	max := rp.LogN() - 1
	if rp.RingType() == ring.ConjugateInvariant {
		max++
	}
	p, err := ckks.NewParameters(rp, c.R.Intn(max+1), math.Exp2(20+20*c.R.Float64()))
	if err != nil {
		c.Fatal("parameters", "valid parameters refused: %v", err)
	}
	c.Feature("%s slots=%d", describe(rp), p.LogSlots())
	return p
}

// slotVector draws values: uniform in a disc, of widely different sizes, sparse, constant, or extremal.
func (c *Case) slotVector(n int) []complex128 {
	v := make([]complex128, n)
	mag := math.Exp2(float64(c.R.Intn(20) - 10))
	kind := c.R.Intn(5)
	k0 := complex(c.R.NormFloat64(), c.R.NormFloat64())
	for i := range v {
		switch kind {
		case 0, 1:
			v[i] = complex((2*c.R.Float64()-1)*mag, (2*c.R.Float64()-1)*mag)
		case 2:
			v[i] = complex(math.Exp2(float64(c.R.Intn(30)-25)), -math.Exp2(float64(c.R.Intn(30)-25)))
		case 3:
			v[i] = k0
		case 4:
			if c.R.Intn(4) == 0 {
				v[i] = complex(float64(c.R.Intn(7)-3), float64(c.R.Intn(7)-3))
			}
		}
	}
	return v
}

func maxMag(v []complex128) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Max(math.Abs(real(x)), math.Abs(imag(x))))
	}
	return m
}

// offGap reports whether a polynomial has a coefficient outside of the multiples of gap.
func (a rns) offGap(gap int) bool {
	for _, row := range a.v {
		for j, x := range row {
			if j%gap != 0 && x != 0 {
				return true
			}
		}
	}
	return false
}

func embedGap(p ckks.Parameters, logSlots int) int { return p.MaxSlots() >> uint(logSlots) }

func (c *Case) randScale(p ckks.Parameters, level int) float64 {
	logQ := 0.0
	for _, q := range p.Q()[:level+1] {
		logQ += math.Log2(float64(q))
	}
	s := math.Exp2(c.R.Float64() * math.Min(logQ+2, 900))
	switch c.R.Intn(4) {
	case 0:
		s = math.Exp2(math.Floor(math.Log2(s)))
	case 1:
		s = math.Exp2(15 + 30*c.R.Float64())
	}
	return s
}

func (c *Case) encodeCase() {
	maxLogN := 8
	if c.R.Intn(20) == 0 {
		maxLogN = 10
	}
	p := c.encParams(maxLogN, nil)
	R := p.RingQ()
	ecd := ckks.NewEncoder(p)
	type done struct {
		v     []complex128
		ls    int
		scale float64
		level int
		got   [][]uint64
	}
	var first *done
	for rep := 0; rep < 6; rep++ {
		if c.R.Intn(3) == 0 {
			old := ecd
			ecd = ecd.ShallowCopy()
			if c.R.Intn(2) == 0 {
				ecd = old
			}
		}
		ls := c.R.Intn(p.MaxLogSlots() + 1)
		if c.R.Intn(3) == 0 {
			ls = p.MaxLogSlots()
		}
		n := 1 << uint(ls)
		if c.R.Intn(2) == 0 {
			n = 1 + c.R.Intn(n)
		}
		v := c.slotVector(n)
		level := c.R.Intn(p.MaxLevel() + 1)
		scale := c.randScale(p, level)
		if rep == 5 {
			v, ls, level, scale = first.v, first.ls, first.level, first.scale
		}
		var arg interface{} = v
		floats := c.R.Intn(3) == 0 && rep != 0 && rep != 5
		if floats {
			f := make([]float64, len(v))
			for i := range f {
				f[i] = real(v[i])
				v[i] = complex(f[i], 0)
			}
			arg = f
		}
		keep := append([]complex128{}, v...)
		c.Feature("ls=%d n=%d level=%d log(scale)=%.1f floats=%v", ls, len(v), level, math.Log2(scale), floats)
		pt := ckks.NewPlaintext(p, level, scale)
		dirty(c.R, pt.Value)
		pt.Value.IsNTT = c.R.Intn(2) == 0
		mont := false
		switch c.R.Intn(6) {
		case 0:
			ecd.Encode(arg, pt, ls)
		case 1:
			ecd.EncodeSlots(arg, pt, ls)
		case 2:
			pt = ecd.EncodeNew(arg, level, scale, ls)
		case 3:
			pt = ecd.EncodeSlotsNew(arg, level, scale, ls)
		case 4:
			mont = c.R.Intn(2) == 0
			ecd.Embed(arg, ls, scale, mont, pt.Value)
		case 5:
			if p.PCount() == 0 {
				ecd.Encode(arg, pt, ls)
				break
			}
			mont = c.R.Intn(2) == 0
			lp := c.R.Intn(p.PCount())
			pp := ring.NewPoly(p.N(), lp+1)
			dirty(c.R, pp)
			ecd.Embed(arg, ls, scale, mont, rlwe.PolyQP{Q: pt.Value, P: pp})
			c.Check(pp.IsNTT, "domain", "P part not flagged NTT")
			c.holdPoly("embed-P", pp)
			rp := coef(pp, p.RingP(), lp, true, mont)
			want := embedReal(v, ls, scale, p.N(), p.RingType())
			c.near(rp, want, scale, maxMag(v), "embed-P")
			c.Check(!rp.offGap(embedGap(p, ls)), "gap-P", "coefficients between the slots' positions")
			c.Check(reducedPoly(pp, p.P()), "reduced-P", "not reduced")
		}
		for i := range keep {
			if keep[i] != v[i] {
				c.Fail("values-modified", "encoding changed the values")
			}
		}
		c.Check(pt.Value.IsNTT, "domain", "plaintext not flagged NTT")
		c.Check(pt.Level() == level && pt.Scale == scale, "level-scale", "level %d scale %v", pt.Level(), pt.Scale)
		got := coef(pt.Value, R, level, true, mont)
		want := embedReal(v, ls, scale, p.N(), p.RingType())
		c.near(got, want, scale, maxMag(v), "embed")
		c.Check(!got.offGap(embedGap(p, ls)), "gap", "coefficients between the slots' positions")
		c.Check(reducedPoly(pt.Value, p.Q()), "reduced", "plaintext not reduced")
		c.holdPoly("encode", pt.Value)
		if rep == 0 {
			first = &done{append([]complex128{}, v...), ls, scale, level, got.v}
		} else if rep == 5 {
			c.Check(eqCoeffs(first.got, got.v), "history", "the same values encode differently after other calls")
		}
	}
	bad, _, _ := c.Try(func() { ecd.Encode(make([]complex128, 1), ckks.NewPlaintext(p, 0, 1), p.MaxLogSlots()+1) })
	c.Check(bad, "accepts-slots", "more slots than the ring has were accepted")
	ls := c.R.Intn(p.MaxLogSlots() + 1)
	bad, _, _ = c.Try(func() { ecd.Encode(make([]complex128, 1<<uint(ls)+1), ckks.NewPlaintext(p, 0, 1), ls) })
	c.Check(bad, "accepts-values", "more values than slots were accepted")
}

// near compares an encoding with its reference within the error of float64 transforms.
func (c *Case) near(got rns, want []float64, scale, mag float64, sig string) {
	slack := floatSlack(scale, mag)
	if small4(slack, prodBig(got.m)) {
		v := make([]*big.Float, len(want))
		for i, x := range want {
			v[i] = new(big.Float).SetPrec(1100).SetFloat64(x)
		}
		lim := big.NewFloat(0.5 + math.Exp2(-20) + scale*mag*math.Exp2(-44))
		d := diffReal(got, v)
		c.Check(d.Cmp(lim) <= 0, sig, "encoding is %.6g away from the scaled embedding, more than %.6g", d, lim)
		c.Event(len(want))
	} else {
		c.Count("beyond_modulus", 1)
	}
}

// randInts draws integer coefficients at the multiples of gap (all of them when noise is set).
func (c *Case) randInts(N, gap int, bound *big.Int, noise bool) []*big.Int {
	v := make([]*big.Int, N)
	kind := c.R.Intn(3)
	for i := range v {
		v[i] = new(big.Int)
		if i%gap != 0 && !noise {
			continue
		}
		b := bound
		if kind == 1 {
			b = new(big.Int).Rsh(bound, uint(c.R.Intn(bound.BitLen())))
		}
		if b.Sign() == 0 || (kind == 2 && c.R.Intn(3) > 0) {
			continue
		}
		v[i].Rand(c.R, b)
		if c.R.Intn(2) == 0 {
			v[i].Neg(v[i])
		}
	}
	return v
}

func (c *Case) decodeCase() {
	p := c.encParams(8, nil)
	R := p.RingQ()
	ecd := ckks.NewEncoder(p)
	for rep := 0; rep < 5; rep++ {
		if c.R.Intn(3) == 0 {
			ecd = ecd.ShallowCopy()
		}
		ls := c.R.Intn(p.MaxLogSlots() + 1)
		level := c.R.Intn(p.MaxLevel() + 1)
		scale := c.randScale(p, level)
		bound := new(big.Int).Rsh(prodBig(p.Q()[:level+1]), 1)
		bound.Sub(bound, big.NewInt(2))
		if bound.BitLen() > 950 { // beyond, the coefficients are no float64
			bound.SetBit(new(big.Int), 950, 1)
		}
		if c.R.Intn(2) == 0 {
			bound.Rsh(bound, uint(c.R.Intn(bound.BitLen()-1)))
		}
		ints := c.randInts(p.N(), embedGap(p, ls), bound, c.R.Intn(2) == 0)
		ntt := c.R.Intn(2) == 0
		pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: fromInts(ints, p.Q()[:level+1], p.RingType()).poly(R, ntt, false)}, Scale: scale}
		keep := snapPoly(pt.Value)
		c.Feature("ls=%d level=%d log(scale)=%.1f ntt=%v", ls, level, math.Log2(scale), ntt)
		if c.R.Intn(4) == 0 {
			got := ecd.DecodeCoeffs(pt)
			if c.R.Intn(2) == 0 {
				got = ecd.DecodeCoeffsPublic(pt, 0)
			}
			c.Check(len(got) == p.N(), "coeffs-size", "%d coefficients", len(got))
			holdSlice(c, "decode-coeffs", got)
			for i := range got {
				f, _ := new(big.Float).SetInt(ints[i]).Float64()
				if !(math.Abs(got[i]-f/scale) <= math.Abs(f/scale)*math.Exp2(-50)) {
					c.Fail("coeffs", "coefficient %d is %v instead of %v", i, got[i], f/scale)
					break
				}
			}
			c.Event(len(got))
		} else {
			var got []complex128
			switch c.R.Intn(4) {
			case 0:
				got = ecd.Decode(pt, ls)
			case 1:
				got = ecd.DecodeSlots(pt, ls)
			case 2:
				got = ecd.DecodePublic(pt, ls, 0)
			case 3:
				got = ecd.DecodeSlotsPublic(pt, ls, 0)
			}
			holdSlice(c, "decode", got)
			want, size := slotValues(ints, ls, scale, p.N(), p.RingType())
			if c.Check(len(got) == len(want), "size", "%d slots", len(got)) {
				c.closeSlots(got, want, size, "decode")
			}
		}
		c.Check(samePoly(keep, pt.Value) && pt.Scale == scale, "plaintext-modified", "decoding changed the plaintext")
	}
	// integers that are embedded slots come back exactly
	ls := c.R.Intn(p.MaxLogSlots() + 1)
	level := c.R.Intn(p.MaxLevel() + 1)
	ints := c.randInts(p.N(), embedGap(p, ls), big.NewInt(1<<22), false)
	scale := math.Exp2(float64(c.R.Intn(40)))
	v := ecd.Decode(&ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: fromInts(ints, p.Q()[:level+1], p.RingType()).poly(R, true, false)}, Scale: scale}, ls)
	back := coef(ecd.EncodeNew(v, level, scale, ls).Value, R, level, true, false)
	c.Check(diffBig(back, ints).Sign() == 0, "round-trip", "decoding and encoding integers (ls=%d scale=%v) changes them by %v", ls, scale, diffBig(back, ints))
}

func (c *Case) coeffsCase() {
	p := c.encParams(9, nil)
	ecd := ckks.NewEncoder(p)
	for rep := 0; rep < 5; rep++ {
		n := 1 + c.R.Intn(p.N())
		if c.R.Intn(2) == 0 {
			n = p.N()
		}
		level := c.R.Intn(p.MaxLevel() + 1)
		scale := c.randScale(p, level)
		v := make([]float64, n)
		want := make([]*big.Int, p.N())
		lim := 0.0
		for i := range want {
			want[i] = new(big.Int)
		}
		kind := c.R.Intn(3)
		for i := range v {
			switch kind {
			case 0:
				v[i] = c.R.NormFloat64()
			case 1:
				v[i] = (2*c.R.Float64() - 1) * math.Exp2(float64(c.R.Intn(62)-20)) / scale
			case 2: // around the words where the representation changes
				v[i] = math.Exp2(float64(58+c.R.Intn(9))) * (1 + float64(c.R.Intn(3)-1)*math.Exp2(-52)) / scale
				if c.R.Intn(2) == 0 {
					v[i] = -v[i]
				}
			}
			x := v[i] * scale
			want[i] = roundFloat(x)
			if a := math.Abs(x); a >= 1<<51 { // x+0.5 is itself rounded
				lim = math.Max(lim, a*math.Exp2(-52))
			}
		}
		keep := append([]float64{}, v...)
		c.Feature("n=%d level=%d log(scale)=%.1f kind=%d", n, level, math.Log2(scale), kind)
		pt := ckks.NewPlaintext(p, level, scale)
		dirty(c.R, pt.Value)
		pt.Value.IsNTT = c.R.Intn(2) == 0
		if c.R.Intn(3) == 0 {
			pt = ecd.EncodeCoeffsNew(v, level, scale)
		} else {
			ecd.EncodeCoeffs(v, pt)
		}
		c.Check(pt.Value.IsNTT && pt.Level() == level && pt.Scale == scale, "meta", "flag, level or scale")
		c.holdPoly("encode-coeffs", pt.Value)
		c.Check(reducedPoly(pt.Value, p.Q()), "reduced", "plaintext not reduced")
		for i := range v {
			if v[i] != keep[i] {
				c.Fail("values-modified", "encoding changed the values")
				break
			}
		}
		got := coef(pt.Value, p.RingQ(), level, true, false)
		slack := roundFloat(lim)
		if small4(new(big.Int).Add(slack, big.NewInt(1)), prodBig(p.Q()[:level+1])) {
			d := diffBig(got, want)
			c.Check(d.Cmp(slack) <= 0, "coeffs", "coefficients are %v away from the scaled values, more than %v", d, slack)
			c.Event(p.N())
		}
	}
	bad, _, _ := c.Try(func() { ecd.EncodeCoeffs(make([]float64, p.N()+1), ckks.NewPlaintext(p, 0, 1)) })
	c.Check(bad, "accepts-values", "more values than coefficients were accepted")
}

// publicNoise decodes with noise and returns the integers that were added.
func (c *Case) publicNoise(p ckks.Parameters, ecd ckks.Encoder, sigma float64) []int64 {
	level := c.R.Intn(p.MaxLevel() + 1)
	scale := math.Exp2(float64(c.R.Intn(20)))
	ints := c.randInts(p.N(), 1, big.NewInt(1<<20), true)
	pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: fromInts(ints, p.Q()[:level+1], p.RingType()).poly(p.RingQ(), true, false)}, Scale: scale}
	keep := snapPoly(pt.Value)
	var e []int64
	coeffs := c.R.Intn(3)
	if coeffs == 0 {
		for i, x := range ecd.DecodeCoeffsPublic(pt, sigma) {
			e = append(e, int64(math.Round(x*scale))-ints[i].Int64())
		}
	} else {
		var got []complex128
		if coeffs == 1 {
			got = ecd.DecodePublic(pt, p.MaxLogSlots(), sigma)
		} else {
			got = ecd.DecodeSlotsPublic(pt, p.MaxLogSlots(), sigma)
		}
		for i, x := range embed(c, got, p.MaxLogSlots(), scale, p.N(), p.RingType()) {
			e = append(e, new(big.Int).Sub(x, ints[i]).Int64())
		}
	}
	c.Check(samePoly(keep, pt.Value), "plaintext-modified", "decoding changed the plaintext")
	return e
}

func init() {
	register("C01", "one case = parameters (ring type, degree, moduli), an encoder with a history, values, slots, level, scale and receiver; plaintexts are compared with the schoolbook canonical embedding; distinct = parameters x slots x level x scale x input kind",
		func(r *Run) {
			r.Cases("encode", 8000, 25000, func(c *Case) { c.encodeCase() })
			r.Cases("decode", 10000, 25000, func(c *Case) { c.decodeCase() })
			r.Cases("coeffs", 8000, 25000, func(c *Case) { c.coeffsCase() })
			r.Cases("public", 2000, 3000, func(c *Case) {
				p := c.encParams(8, nil)
				ecd := ckks.NewEncoder(p)
				sigma := 3 + 20*c.R.Float64()
				B := int64(math.Sqrt(2*math.Pi) * sigma)
				c.Feature("sigma=%.2f", sigma)
				var last []int64
				for rep := 0; rep < 3; rep++ {
					e := c.publicNoise(p, ecd, sigma)
					zero, same := true, last != nil
					for i, x := range e {
						c.Check(x >= -B && x <= B, "bound", "noise %d exceeds %d (sigma %v)", x, B, sigma)
						zero = zero && x == 0
						same = same && last[i] == x
					}
					c.Check(!zero && !same, "noise", "no fresh noise was added")
					last = e
				}
			})
			r.Cases("public-law", 24, 60, func(c *Case) {
				p := c.encParams(9, nil)
				ecd := ckks.NewEncoder(p)
				sigma := 6 + 20*c.R.Float64()
				c.Feature("sigma=%.2f", sigma)
				n, sum, sq := 0.0, 0.0, 0.0
				for n < 40000 {
					for _, x := range c.publicNoise(p, ecd, sigma) {
						n++
						sum += float64(x)
						sq += float64(x * x)
					}
				}
				// truncation at 2.5 sigma lowers the deviation to 0.95 sigma
				sd := math.Sqrt(sq / n)
				c.Check(sd > 0.89*sigma && sd < 1.01*sigma && math.Abs(sum/n) < 0.05*sigma, "law", "noise of deviation %v and mean %v instead of %v", sd, sum/n, sigma)
				c.Event(int(n))
			})
			r.Cases("largest", 24, 400, func(c *Case) { c.hugeEncoder() })
			r.Cases("big", 2500, 4000, func(c *Case) { c.bigEncoderCase() })
			r.Cases("transforms", 4000, 6000, func(c *Case) { c.transformCase() })
		})
}

// bigRoot returns exp(2*pi*i*t/n) for n a power of two, by half angles.
func bigRoots(n int, prec uint) (cs, sn []*big.Float) {
	f := func(x float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(x) }
	cs, sn = make([]*big.Float, n), make([]*big.Float, n)
	// the generator: angle pi -> pi/2 -> ...
	gc, gs := f(-1), f(0)
	for m := 2; m < n; m *= 2 {
		nc := f(0).Add(f(1), gc)
		nc.Sqrt(nc.Quo(nc, f(2)))
		ns := f(0).Sub(f(1), gc)
		ns.Sqrt(ns.Quo(ns, f(2)))
		gc, gs = nc, ns
	}
	cs[0], sn[0] = f(1), f(0)
	for t := 1; t < n; t++ {
		a, b := cs[t-1], sn[t-1]
		cs[t] = f(0).Sub(f(0).Mul(a, gc), f(0).Mul(b, gs))
		sn[t] = f(0).Add(f(0).Mul(a, gs), f(0).Mul(b, gc))
	}
	return
}

func (c *Case) bigEncoderCase() {
	p := c.encParams(6, []ring.Type{ring.Standard})
	R := p.RingQ()
	prec := []int{60, 100, 128, 200, 333}[c.R.Intn(5)]
	ecd := ckks.NewEncoderBigComplex(p, prec)
	ref := uint(prec + 100)
	f := func(x float64) *big.Float { return new(big.Float).SetPrec(ref).SetFloat64(x) }
	var firstOut [][]uint64
	var firstV []*ring.Complex
	var firstL, firstLS int
	var firstS float64
	for rep := 0; rep < 4; rep++ {
		if c.R.Intn(3) == 0 {
			ecd = ecd.ShallowCopy()
		}
		ls := c.R.Intn(p.MaxLogSlots() + 1)
		n := 1 << uint(ls)
		level := c.R.Intn(p.MaxLevel() + 1)
		scale := c.randScale(p, level)
		vals := c.slotVector(n)
		v := make([]*ring.Complex, n)
		for i := range v {
			v[i] = ring.NewComplex(ring.NewFloat(real(vals[i]), prec), ring.NewFloat(imag(vals[i]), prec))
			if c.R.Intn(2) == 0 { // more digits than a float64 has
				v[i].Real().Quo(v[i].Real(), ring.NewFloat(3, prec))
				v[i].Imag().Quo(v[i].Imag(), ring.NewFloat(7, prec))
			}
		}
		if rep == 3 {
			v, ls, level, scale = firstV, firstLS, firstL, firstS
			n = 1 << uint(ls)
		}
		c.Feature("prec=%d ls=%d level=%d log(scale)=%.1f", prec, ls, level, math.Log2(scale))
		keep := fmt.Sprint(v)
		kv := make([][2]string, n)
		for i := range v {
			kv[i] = [2]string{v[i].Real().Text('p', 0), v[i].Imag().Text('p', 0)}
		}
		_ = keep
		var pt *ckks.Plaintext
		if c.R.Intn(2) == 0 {
			pt = ecd.EncodeNew(v, level, scale, ls)
		} else {
			pt = ckks.NewPlaintext(p, level, scale)
			dirty(c.R, pt.Value)
			pt.Value.IsNTT = c.R.Intn(2) == 0
			ecd.Encode(v, pt, ls)
		}
		for i := range v {
			if kv[i] != [2]string{v[i].Real().Text('p', 0), v[i].Imag().Text('p', 0)} {
				c.Fail("big/values-modified", "encoding changed the values")
				break
			}
		}
		c.Check(pt.Value.IsNTT && pt.Level() == level && pt.Scale == scale, "big/meta", "flag, level or scale")
		c.holdPoly("big/encode", pt.Value)
		c.Check(reducedPoly(pt.Value, p.Q()), "big/reduced", "plaintext not reduced")
		// reference embedding
		cs, sn := bigRoots(4*n, ref)
		five := fivePow(n)
		want := make([]*big.Float, p.N())
		size := f(0)
		for j := range v {
			size.Add(size, f(0).Abs(v[j].Real()))
			size.Add(size, f(0).Abs(v[j].Imag()))
		}
		gap := p.N() / (2 * n)
		for k := 0; k < 2*n; k++ {
			acc := f(0)
			for j := range v {
				t := five[j] * k % (4 * n)
				acc.Add(acc, f(0).Add(f(0).Mul(v[j].Real(), cs[t]), f(0).Mul(v[j].Imag(), sn[t])))
			}
			acc.Mul(acc, f(scale))
			acc.Quo(acc, f(float64(n)))
			want[k*gap] = acc
		}
		sl := f(0).Mul(size, f(scale))
		sl.SetMantExp(sl, -(prec - 16))
		slack := roundBig(f(0).Add(sl, f(1)))
		got := coef(pt.Value, R, level, true, false)
		if small4(slack, prodBig(p.Q()[:level+1])) {
			lim := f(0).Add(sl, f(0.5+math.Exp2(-20)))
			d := diffReal(got, want)
			c.Check(d.Cmp(lim) <= 0, "big/embed", "encoding is %.6g away from the scaled embedding, more than %.6g", d, lim)
			c.Event(p.N())
		}
		c.Check(!got.offGap(gap), "big/gap", "coefficients between the slots' positions")
		if rep == 0 {
			firstOut, firstV, firstL, firstLS, firstS = got.v, v, level, ls, scale
		} else if rep == 3 {
			c.Check(eqCoeffs(firstOut, got.v), "big/history", "the same values encode differently after other calls")
		}
		// decoding
		bound := new(big.Int).Rsh(prodBig(p.Q()[:level+1]), 1)
		bound.Sub(bound, big.NewInt(2))
		if bound.BitLen() > 950 { // beyond, the coefficients are no float64
			bound.SetBit(new(big.Int), 950, 1)
		}
		ints := c.randInts(p.N(), gap, bound, c.R.Intn(2) == 0)
		pt = &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: fromInts(ints, p.Q()[:level+1], ring.Standard).poly(R, c.R.Intn(2) == 0, false)}, Scale: scale}
		kp := snapPoly(pt.Value)
		var out []*ring.Complex
		if c.R.Intn(2) == 0 {
			out = ecd.Decode(pt, ls)
		} else {
			out = ecd.DecodePublic(pt, ls, 0)
		}
		c.Check(samePoly(kp, pt.Value), "big/plaintext-modified", "decoding changed the plaintext")
		if !c.Check(len(out) == n, "big/size", "%d slots", len(out)) {
			continue
		}
		text := bigText(out)
		c.holdFunc(&out[0], "big/decode", func() bool { return bigText(out) == text })
		total := f(0)
		for k := 0; k < 2*n; k++ {
			total.Add(total, f(0).Abs(f(0).SetInt(ints[k*gap])))
		}
		total.Quo(total, f(scale))
		tol := f(0).SetMantExp(total, -(prec - 16))
		for j := 0; j < n; j++ {
			re, im := f(0), f(0)
			for k := 0; k < 2*n; k++ {
				t := five[j] * k % (4 * n)
				x := f(0).SetInt(ints[k*gap])
				re.Add(re, f(0).Mul(x, cs[t]))
				im.Add(im, f(0).Mul(x, sn[t]))
			}
			re.Quo(re, f(scale))
			im.Quo(im, f(scale))
			d0, d1 := f(0).Sub(re, out[j].Real()), f(0).Sub(im, out[j].Imag())
			if d0.Abs(d0).Cmp(tol) > 0 || d1.Abs(d1).Cmp(tol) > 0 {
				c.Fail("big/decode", "slot %d is off by %v, %v, more than %v", j, d0, d1, tol)
				break
			}
			c.Event(1)
		}
		// public decoding adds bounded noise
		if ls == p.MaxLogSlots() && rep == 1 {
			sigma := 3 + 10*c.R.Float64()
			sc := math.Exp2(10)
			ints := c.randInts(p.N(), 1, big.NewInt(1<<20), true)
			pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: fromInts(ints, p.Q()[:level+1], ring.Standard).poly(R, true, false)}, Scale: sc}
			var w []complex128
			for _, x := range ecd.DecodePublic(pt, ls, sigma) {
				w = append(w, x.Float64())
			}
			zero := true
			B := int64(math.Sqrt(2*math.Pi)*sigma + 0.5)
			for i, x := range embed(c, w, ls, sc, p.N(), ring.Standard) {
				e := new(big.Int).Sub(x, ints[i]).Int64()
				c.Check(e >= -B && e <= B, "big/public-bound", "noise %d exceeds %d", e, B)
				zero = zero && e == 0
			}
			c.Check(!zero, "big/public-noise", "no noise was added")
		}
	}
}

// bigText writes complex numbers exactly.
func bigText(v []*ring.Complex) string {
	var sb strings.Builder
	for _, x := range v {
		sb.WriteString(x.Real().Text('p', 0) + " " + x.Imag().Text('p', 0) + "\n")
	}
	return sb.String()
}

func roundBig(x *big.Float) *big.Int {
	h := new(big.Float).SetPrec(x.Prec()).SetFloat64(0.5)
	y := new(big.Float).SetPrec(x.Prec())
	if x.Sign() < 0 {
		y.Sub(x, h)
	} else {
		y.Add(x, h)
	}
	v, _ := y.Int(nil)
	return v
}

// transformCase checks the exported transforms and error measures.
func (c *Case) transformCase() {
	logM := 3 + c.R.Intn(9)
	M := 1 << uint(logM)
	rot := make([]int, M>>1)
	x := 1
	for i := 0; i < M>>2; i++ {
		rot[i] = x
		x = x * 5 & (M - 1)
	}
	roots := make([]complex128, M+1)
	for i := range roots {
		s, co := math.Sincos(2 * math.Pi * float64(i%M) / float64(M))
		roots[i] = complex(co, s)
	}
	max := logM - 2
	ls := c.R.Intn(max + 1)
	n := 1 << uint(ls)
	size := n
	if size < 8 {
		size = 8
	}
	if c.R.Intn(2) == 0 && M>>2 >= size {
		size = M >> 2
	}
	v := c.slotVector(size)
	in := append([]complex128{}, v...)
	inv, unrolled := c.R.Intn(2) == 0, ls >= 4 && c.R.Intn(2) == 0
	c.Feature("M=%d n=%d inv=%v unrolled=%v size=%d", M, n, inv, unrolled, size)
	w, five := slotRoots(n), fivePow(n)
	want := make([]complex128, n)
	sum := 0.0
	for _, z := range in[:n] {
		sum += math.Abs(real(z)) + math.Abs(imag(z))
	}
	for k := 0; k < n; k++ {
		var acc complex128
		for j := 0; j < n; j++ {
			if inv {
				acc += in[j] * w[(4*n-five[j]*k%(4*n))%(4*n)]
			} else {
				acc += in[j] * w[five[k]*j%(4*n)]
			}
		}
		if inv {
			acc /= complex(float64(n), 0)
		}
		want[k] = acc
	}
	switch {
	case inv && unrolled:
		ckks.SpecialiFFTUL8Vec(v, n, M, rot, roots)
	case inv:
		ckks.SpecialiFFTVec(v, n, M, rot, roots)
	case unrolled:
		ckks.SpecialFFTUL8Vec(v, n, M, rot, roots)
	default:
		ckks.SpecialFFTVec(v, n, M, rot, roots)
	}
	c.closeSlots(v[:n], want, sum, "transform")

	// error measures
	p := c.encParams(8, nil)
	ecd := ckks.NewEncoder(p)
	l2 := c.R.Intn(p.MaxLogSlots() + 1)
	a, b := c.slotVector(1<<uint(l2)), c.slotVector(1<<uint(l2))
	ecd.Decode(ckks.NewPlaintext(p, 0, 1), c.R.Intn(p.MaxLogSlots()+1))
	var slot, cf []float64
	diff := make([]complex128, len(a))
	for i := range a {
		diff[i] = a[i] - b[i]
		slot = append(slot, real(diff[i]), imag(diff[i]))
	}
	for k := 0; k < len(a); k++ {
		var acc complex128
		w, five := slotRoots(len(a)), fivePow(len(a))
		for j := range diff {
			acc += diff[j] * w[(4*len(a)-five[j]*k%(4*len(a)))%(4*len(a))]
		}
		acc /= complex(float64(len(a)), 0)
		cf = append(cf, real(acc), imag(acc))
	}
	scale := math.Exp2(float64(c.R.Intn(40)))
	dev := func(v []float64) float64 {
		m, e := 0.0, 0.0
		for _, x := range v {
			m += x / float64(len(v))
		}
		for _, x := range v {
			e += (x - m) * (x - m) / float64(len(v))
		}
		return math.Sqrt(e) * scale
	}
	mag := 0.0
	for _, x := range slot {
		mag += math.Abs(x) * scale
	}
	tol := mag*math.Exp2(-24) + 1e-300
	ws, wc := dev(slot), dev(cf)
	gs, gc := ecd.GetErrSTDSlotDomain(a, b, scale), ecd.GetErrSTDCoeffDomain(a, b, scale)
	// vectors of any length: the measures do not depend on what the encoder did before
	few := 1 + c.R.Intn(len(a))
	new1, new2 := ckks.NewEncoder(p), ckks.NewEncoder(p)
	c.Check(ecd.GetErrSTDCoeffDomain(a[:few], b[:few], scale) == new1.GetErrSTDCoeffDomain(a[:few], b[:few], scale) &&
		ecd.GetErrSTDSlotDomain(a[:few], b[:few], scale) == new2.GetErrSTDSlotDomain(a[:few], b[:few], scale), "std-history", "the deviation of %d values depends on earlier calls", few)
	c.Check(math.Abs(gs-ws) <= tol, "std-slots", "deviation %v instead of %v", gs, ws)
	c.Check(math.Abs(gc-wc) <= tol, "std-coeffs", "deviation %v instead of %v (%d slots)", gc, wc, len(a))
	c.Check(math.Abs(ckks.StandardDeviation(slot, scale)-ws) <= tol, "std", "deviation")

	// sparse NTT: coefficients of a polynomial in X^gap
	R := p.RingQ()
	level := c.R.Intn(p.MaxLevel() + 1)
	nn := 2 << uint(l2)
	if p.RingType() == ring.ConjugateInvariant {
		nn = 1 << uint(l2)
	}
	gap := p.N() / nn
	q := randPoly(c.R, p.N(), p.Q()[:level+1])
	full := newRNS(p.N(), p.Q()[:level+1], p.RingType())
	for i := range full.v {
		for j := 0; j < nn; j++ {
			full.v[i][j*gap] = q.Coeffs[i][j]
		}
	}
	mont := c.R.Intn(2) == 0
	ckks.NttAndMontgomeryLvl(level, l2, R, mont, q)
	c.Check(eqCoeffs(q.Coeffs, full.poly(R, true, mont).Coeffs), "sparse-ntt", "transform of a polynomial in X^%d (mont=%v)", gap, mont)
	// rescaling constants of switching keys: Montgomery form of 1/P
	if p.PCount() > 0 {
		P := prodBig(p.P())
		for i, x := range ckks.GenSwitchkeysRescalingParams(p.Q(), p.P()) {
			c.Check(mulMod(invMontRef(x, p.Q()[i]), modU(P, p.Q()[i]), p.Q()[i]) == 1, "rescale-constants", "constant %d is not the inverse of P", i)
		}
	}
}
