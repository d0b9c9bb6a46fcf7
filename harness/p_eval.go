package main

import (
	"math"
	"math/big"
	"strings"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// evalParams draws CKKS parameters for exact component arithmetic.
func (c *Case) evalParams(maxLogN, minP int, types []ring.Type) ckks.Parameters {
	lo := 25
	if c.R.Intn(2) == 0 {
		lo = 45
	}
	rp := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: maxLogN, minQ: 1, maxQ: 6, minP: minP, maxP: minP + 2, lo: lo, hi: 61, types: types})
	p, err := ckks.NewParameters(rp, rp.LogN()-1, math.Exp2(30))
	if err != nil {
		c.Fatal("parameters", "valid parameters refused: %v", err)
	}
	c.Feature("%s", describe(rp))
	return p
}

// operand is a library operand with the oracle's view of it.
type operand struct {
	op    ckks.Operand
	ct    *ckks.Ciphertext // nil for a plaintext
	level int
	scale float64
	v     []rns
	snap  *rlwe.Ciphertext
}

func view(p ckks.Parameters, op ckks.Operand) *operand {
	o := &operand{op: op, level: op.Level(), scale: op.ScalingFactor()}
	if ct, ok := op.(*ckks.Ciphertext); ok {
		o.ct = ct
	}
	for _, x := range op.El().Value {
		o.v = append(o.v, coef(x, p.RingQ(), o.level, true, false))
	}
	o.snap = snapCt(op.El())
	return o
}

func (o *operand) deg() int { return len(o.v) - 1 }

// comp is the i-th component up to level (zero beyond the degree).
func (o *operand) comp(i, level int) rns {
	if i < len(o.v) {
		return o.v[i].upto(level + 1)
	}
	return newRNS(len(o.v[0].v[0]), o.v[0].m[:level+1], o.v[0].t)
}

func (o *operand) untouched() bool {
	return sameCt(o.snap, o.op.El()) && o.op.ScalingFactor() == o.scale
}

// randOperand draws a ciphertext (or a plaintext for degree 0 when asked) with residues of any kind.
func (c *Case) randOperand(p ckks.Parameters, degree, level int, scale float64) *operand {
	var op ckks.Operand
	if degree == 0 && c.R.Intn(3) > 0 {
		op = ckks.NewPlaintext(p, level, scale)
	} else {
		op = ckks.NewCiphertext(p, degree, level, scale)
	}
	for _, x := range op.El().Value {
		if c.R.Intn(4) == 0 {
			fillPoly(c.R, x, p.Q())
		} else {
			for i := range x.Coeffs {
				for j := range x.Coeffs[i] {
					x.Coeffs[i][j] = c.R.Uint64() % p.Q()[i]
				}
			}
		}
	}
	return view(p, op)
}

// randReceiver is a dirty ciphertext.
func (c *Case) randReceiver(p ckks.Parameters, degree, level int) *ckks.Ciphertext {
	ct := ckks.NewCiphertext(p, degree, level, math.Exp2(float64(c.R.Intn(80))))
	for _, v := range ct.Value {
		dirty(c.R, v)
		for i := range v.Coeffs {
			if c.R.Intn(2) == 0 {
				for j := range v.Coeffs[i] {
					v.Coeffs[i][j] %= p.Q()[i]
				}
			}
		}
	}
	return ct
}

// result compares a ciphertext with the expected components, level and scale.
func (c *Case) result(p ckks.Parameters, out *ckks.Ciphertext, want []rns, level int, scale float64, noMod bool, sig string) bool {
	if !c.Check(out.Degree() == len(want)-1, sig+"/degree", "result of degree %d instead of %d", out.Degree(), len(want)-1) ||
		!c.Check(out.Level() == level, sig+"/level", "result at level %d instead of %d", out.Level(), level) {
		return false
	}
	c.Check(out.Scale == scale, sig+"/scale", "scale %v instead of %v", out.Scale, scale)
	for i := range want {
		x := out.Value[i]
		if !c.Check(len(x.Coeffs) == level+1, sig+"/level", "component %d at level %d instead of %d", i, len(x.Coeffs)-1, level) {
			return false
		}
		c.Check(x.IsNTT, sig+"/domain", "component %d not flagged NTT", i)
		got := coef(x, p.RingQ(), level, true, false)
		c.Event(p.N() * (level + 1))
		if !eqCoeffs(got.v, want[i].v) {
			c.Fail(sig, "component %d of %d differs from the exact result", i, len(want))
			return false
		}
		if noMod {
			for k, q := range want[i].m {
				for _, y := range x.Coeffs[k] {
					if y >= 2*q {
						c.Fail(sig+"/range", "component %d exceeds twice the modulus", i)
					}
				}
			}
		} else {
			// negation represents zero by the modulus
			neg := strings.HasPrefix(sig, "Sub") || sig == "Neg"
			for k, q := range want[i].m {
				for _, y := range x.Coeffs[k] {
					if y >= q && !(neg && y == q) {
						c.Fail(sig+"/reduced", "component %d is not reduced", i)
						return false
					}
				}
			}
		}
	}
	return true
}

func minInt(a ...int) int {
	m := a[0]
	for _, x := range a {
		if x < m {
			m = x
		}
	}
	return m
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (c *Case) anyLevel(p ckks.Parameters) int { return c.R.Intn(p.MaxLevel() + 1) }

// pickOut draws a receiver for a result of the given degree: none (nil), a dirty one of at least that degree and at
// most maxDeg, or one of the operands.
func (c *Case) pickOut(p ckks.Parameters, degree, maxDeg int, ops ...*operand) *ckks.Ciphertext {
	switch c.R.Intn(4) {
	case 0:
		return nil
	case 1:
		for _, o := range ops {
			if o.ct != nil && o.deg() >= degree && o.deg() <= maxDeg && c.R.Intn(len(ops)) == 0 {
				return o.ct
			}
		}
	}
	return c.randReceiver(p, degree+c.R.Intn(maxDeg-degree+1), c.anyLevel(p))
}

func outLevel(level int, out *ckks.Ciphertext) int {
	if out != nil && out.Level() < level {
		return out.Level()
	}
	return level
}

// operandsKept checks the operands that are not the receiver.
func (c *Case) operandsKept(out *ckks.Ciphertext, sig string, ops ...*operand) {
	var mem []*ring.Poly
	for i, o := range ops {
		if o.ct == nil || o.ct != out {
			c.Check(o.untouched(), sig+"/operand-modified", "operand %d changed", i)
			if i == 0 || o.op != ops[0].op {
				mem = append(mem, o.op.El().Value...)
			}
		}
	}
	if out != nil {
		c.Check(!shared(append(mem, out.Value...)...), sig+"/shared-memory", "the result shares memory with an operand or within itself")
		c.holdCt(sig, out)
	}
}

// awkwardRatio draws a scale smaller than the given one by a factor that is not an integer, and the integer part of the factor.
func (c *Case) awkwardRatio(s float64) (m int64, smaller float64) {
	m = 1 + int64(c.R.Intn(1<<uint(1+c.R.Intn(20))))
	smaller = s / (float64(m) + 0.01 + 0.98*c.R.Float64())
	return
}

// addCase runs one addition or subtraction.
func (c *Case) addCase(p ckks.Parameters, ev ckks.Evaluator) {
	d0, d1 := c.R.Intn(3), c.R.Intn(3)
	if d0+d1 == 0 {
		d0 = 1
	}
	s0 := math.Exp2(float64(20 + c.R.Intn(40)))
	s1 := s0
	k := 1.0
	switch c.R.Intn(5) {
	case 0:
		k = float64(2 + c.R.Intn(9))
		if c.R.Intn(2) == 0 {
			k = math.Exp2(float64(1 + c.R.Intn(45)))
		}
		s1 = s0 * k
	case 1: // a ratio that is not an integer
		var m int64
		s1 = math.Exp2(float64(45 + c.R.Intn(15)))
		m, s0 = c.awkwardRatio(s1)
		k = float64(m)
	case 2: // scales that differ by a rounding error or less than a factor of two
		s1 = s0 * (1 + c.R.Float64()*math.Exp2(-float64(2+c.R.Intn(40))))
	}
	a := c.randOperand(p, d0, c.anyLevel(p), s0)
	b := c.randOperand(p, d1, c.anyLevel(p), s1)
	fa, fb := new(big.Int).SetInt64(int64(k)), big.NewInt(1)
	if c.R.Intn(2) == 0 {
		a, b = b, a
		fa, fb = fb, fa
	}
	if c.R.Intn(12) == 0 && a.ct != nil && a.deg() > 0 {
		b, fa, fb = a, big.NewInt(1), big.NewInt(1)
	}
	deg := maxInt(a.deg(), b.deg())
	out := c.pickOut(p, deg, 2, a, b)
	level := outLevel(minInt(a.level, b.level), out)
	scale := math.Max(a.scale, b.scale)
	op := c.R.Intn(4)
	var want []rns
	for i := 0; i <= deg; i++ {
		x, y := a.comp(i, level).scale(fa), b.comp(i, level).scale(fb)
		if op%2 == 0 {
			want = append(want, x.add(y))
		} else {
			want = append(want, x.sub(y))
		}
	}
	sig := []string{"Add", "Sub", "AddNoMod", "SubNoMod"}[op]
	c.Feature("%s deg %d,%d level %d,%d->%d k=%v alias=%v%v", sig, a.deg(), b.deg(), a.level, b.level, level, k, out != nil && out == a.ct, out != nil && out == b.ct)
	if out == nil {
		out = []func(x, y ckks.Operand) *ckks.Ciphertext{ev.AddNew, ev.SubNew, ev.AddNoModNew, ev.SubNoModNew}[op](a.op, b.op)
	} else {
		[]func(x, y ckks.Operand, z *ckks.Ciphertext){ev.Add, ev.Sub, ev.AddNoMod, ev.SubNoMod}[op](a.op, b.op, out)
	}
	c.result(p, out, want, level, scale, op >= 2, sig)
	c.operandsKept(out, sig, a, b)
	if op >= 2 {
		red := ev.ReduceNew(out)
		c.result(p, red, want, level, scale, false, "ReduceNew")
		c.holdCt("ReduceNew", red)
		c.Check(!shared(append(append([]*ring.Poly{}, red.Value...), out.Value...)...), "ReduceNew/shared-memory", "the result shares memory with the operand")
		other := c.randReceiver(p, deg, c.anyLevel(p))
		lo := outLevel(level, other)
		c.Check(ev.Reduce(out, other) == nil, "Reduce/error", "refused")
		var low []rns
		for i := range want {
			low = append(low, want[i].upto(lo+1))
		}
		c.result(p, other, low, lo, scale, false, "Reduce")
		c.holdCt("Reduce", other)
		c.Check(ev.Reduce(out, out) == nil, "Reduce/error", "refused")
		c.result(p, out, want, level, scale, false, "Reduce")
		c.holdCt("Reduce", out)
	}
}

// mulCase runs one product without relinearization (or with a plaintext operand).
func (c *Case) mulCase(p ckks.Parameters, ev ckks.Evaluator) {
	d0, d1 := 1, c.R.Intn(2)
	if d1 == 0 && c.R.Intn(2) == 0 {
		d0, d1 = d1, d0
	}
	a := c.randOperand(p, d0, c.anyLevel(p), math.Exp2(float64(20+c.R.Intn(30))))
	b := c.randOperand(p, d1, c.anyLevel(p), math.Exp2(float64(20+c.R.Intn(30))))
	andAdd := c.R.Intn(2) == 0
	inPlace := 0
	if andAdd && c.R.Intn(4) == 0 { // accumulate into an operand: the scale of the other one is the factor of the accumulator
		f := 1.0
		if c.R.Intn(2) == 0 {
			f = float64(1 + c.R.Intn(1<<uint(c.R.Intn(21))))
		}
		if inPlace = 1; d0 == 0 || (d1 == 1 && c.R.Intn(2) == 0) {
			inPlace = 2
			a = c.randOperand(p, d0, a.level, f)
		} else {
			b = c.randOperand(p, d1, b.level, f)
		}
	}
	if c.R.Intn(6) == 0 && d0 == 1 {
		if b = a; inPlace == 1 {
			a = c.randOperand(p, 1, a.level, float64(1+c.R.Intn(1<<uint(c.R.Intn(21)))))
			b = a
		}
	}
	deg := a.deg() + b.deg()
	relin := deg == 1 && c.R.Intn(2) == 0
	maxDeg := 2
	out := c.pickOut(p, maxInt(a.deg(), b.deg()), maxDeg, a, b)
	if andAdd {
		out = c.randReceiver(p, deg, c.anyLevel(p))
		if deg == 2 && c.R.Intn(3) == 0 {
			out = c.randReceiver(p, 1, c.anyLevel(p))
		}
		for _, v := range out.Value {
			for i := range v.Coeffs {
				for j := range v.Coeffs[i] {
					v.Coeffs[i][j] %= p.Q()[i]
				}
			}
		}
		if inPlace == 1 {
			out = a.ct
		} else if inPlace == 2 {
			out = b.ct
		}
	}
	scale := a.scale * b.scale
	level := outLevel(minInt(a.level, b.level), out)
	var want []rns
	for i := 0; i <= deg; i++ {
		var w rns
		for j := 0; j <= i; j++ {
			if j <= a.deg() && i-j <= b.deg() {
				x := a.comp(j, level).mul(b.comp(i-j, level))
				if w.v == nil {
					w = x
				} else {
					w = w.add(x)
				}
			}
		}
		want = append(want, w)
	}
	sig := "Mul"
	if andAdd {
		sig = "MulAndAdd"
		f := float64(1 + c.R.Intn(1<<uint(c.R.Intn(21))))
		if c.R.Intn(3) == 0 {
			f = 1
		}
		if inPlace != 0 {
			f = scale / out.Scale
		} else {
			out.Scale = scale / f
		}
		if inPlace != 0 {
		} else if f > 1 { // a ratio a little off the integer on either side
			out.Scale *= 1 + math.Exp2(-30)*(2*c.R.Float64()-1)
		}
		if inPlace == 0 && f == 1 && c.R.Intn(2) == 0 { // a larger receiver scale that is within a rounding error
			out.Scale = scale * (1 + math.Exp2(-40))
			scale = out.Scale
		}
		o := view(p, out)
		for i := range want {
			want[i] = want[i].add(o.comp(i, level).scale(big.NewInt(int64(f))))
		}
		c.Feature("f=%v in-place=%d", f, inPlace)
	}
	c.Feature("%s deg %d,%d->%d level %d,%d->%d square=%v", sig, a.deg(), b.deg(), deg, a.level, b.level, level, a == b)
	switch {
	case andAdd && relin:
		ev.MulRelinAndAdd(a.op, b.op, out)
	case andAdd:
		ev.MulAndAdd(a.op, b.op, out)
	case out == nil && relin:
		out = ev.MulRelinNew(a.op, b.op)
	case out == nil:
		out = ev.MulNew(a.op, b.op)
	case relin:
		ev.MulRelin(a.op, b.op, out)
	default:
		ev.Mul(a.op, b.op, out)
	}
	c.result(p, out, want, level, scale, false, sig)
	c.operandsKept(out, sig, a, b)
}

// half multiplies by X^(N/2), the imaginary unit of the slots.
func (a rns) half() rns {
	N := len(a.v[0])
	o := newRNS(N, a.m, a.t)
	for i, q := range a.m {
		for j, x := range a.v[i] {
			if j < N/2 {
				o.v[i][j+N/2] = x
			} else {
				o.v[i][j-N/2] = subMod(0, x, q)
			}
		}
	}
	return o
}

// gauss multiplies by re + im*X^(N/2).
func (a rns) gauss(re, im *big.Int) rns {
	o := a.scale(re)
	if im.Sign() != 0 {
		o = o.add(a.half().scale(im))
	}
	return o
}

// randConst draws a constant and its exact real and imaginary parts.
func (c *Case) randConst(t ring.Type, q []uint64) (k interface{}, re, im float64) {
	if c.R.Intn(10) == 0 { // zero in one channel only
		x := q[c.R.Intn(len(q))]
		if c.R.Intn(2) == 0 && x < 1<<50 {
			x *= uint64(1 + c.R.Intn(3))
		}
		switch c.R.Intn(5) {
		case 0:
			return x, float64(x), 0
		case 1:
			return -int64(x), -float64(x), 0
		case 2:
			return -int(x), -float64(x), 0
		case 3:
			return -float64(x), -float64(x), 0
		}
		re, im = float64(c.R.Intn(3)-1), float64(x)*float64(1-2*c.R.Intn(2))
		k = complex(re, im)
		if t == ring.ConjugateInvariant {
			im = 0
		}
		return
	}
	f := func() float64 {
		switch c.R.Intn(6) {
		case 0:
			return float64(c.R.Intn(9) - 4)
		case 1:
			return c.R.NormFloat64() * math.Exp2(float64(c.R.Intn(30)))
		case 2:
			return math.Floor(c.R.NormFloat64() * math.Exp2(float64(c.R.Intn(50))))
		case 3:
			return math.Exp2(float64(c.R.Intn(60)-30)) * float64(1-2*c.R.Intn(2))
		}
		return 2*c.R.Float64() - 1
	}
	switch c.R.Intn(7) {
	case 0:
		x := c.R.Uint64() >> uint(c.R.Intn(64))
		k, re = x, float64(x)
	case 1:
		x := int64(c.R.Uint64()) >> uint(c.R.Intn(64))
		k, re = x, float64(x)
	case 2:
		x := int(c.R.Uint64()) >> uint(c.R.Intn(64))
		k, re = x, float64(x)
	case 3:
		re = f()
		k = re
	default:
		re, im = f(), f()
		if c.R.Intn(4) == 0 {
			re = 0
		}
		k = complex(re, im)
		if t == ring.ConjugateInvariant {
			im = 0
		}
	}
	return
}

func isInt(x float64) bool { return x == math.Trunc(x) }

// exactConst is x*scale as an integer, with the tolerance of one rounding and float64 products.
func exactConst(x, scale float64) (v, tol *big.Int) {
	f := new(big.Float).SetPrec(400).SetFloat64(x)
	f.Mul(f, new(big.Float).SetPrec(400).SetFloat64(scale))
	v = roundBig(f)
	tol = new(big.Int).Rsh(new(big.Int).Abs(v), 50)
	if tol.Sign() > 0 || !isInt(x*scale) {
		tol.Add(tol, big.NewInt(1))
	}
	return
}

// constOperand is a random operand one component of which is the constant polynomial 1.
func (c *Case) constOperand(p ckks.Parameters, degree, level int, scale float64) (*operand, int) {
	o := c.randOperand(p, degree, level, scale)
	u := c.R.Intn(degree + 1)
	one := newRNS(p.N(), p.Q()[:level+1], p.RingType())
	for i := range one.v {
		one.v[i][0] = 1
	}
	o.op.El().Value[u].Coeffs = one.poly(p.RingQ(), true, false).Coeffs
	return view(p, o.op), u
}

// multiplier reads the constant re + im*X^(N/2) off a component that must equal it.
func (c *Case) multiplier(x rns, t ring.Type, sig string) (re, im *big.Int) {
	N := len(x.v[0])
	v := x.centered()
	for j := range v {
		if j != 0 && j != N/2 && v[j].Sign() != 0 {
			c.Fatal(sig+"/shape", "multiplication by a constant moved coefficient 0 to coefficient %d", j)
		}
	}
	c.Event(N)
	re, im = v[0], v[N/2]
	if t == ring.ConjugateInvariant && im.Sign() != 0 {
		c.Fatal(sig+"/shape", "imaginary part in the conjugate-invariant ring")
	}
	return
}

// nearMod checks |a-b| <= tol modulo the product of the moduli.
func (c *Case) nearMod(a, b, tol *big.Int, m []uint64, sig, what string) {
	Q := prodBig(m)
	if !small4(tol, Q) {
		return
	}
	d := new(big.Int).Sub(a, b)
	d.Mod(d, Q)
	if new(big.Int).Lsh(d, 1).Cmp(Q) > 0 {
		d.Sub(d, Q)
	}
	c.Check(d.CmpAbs(tol) <= 0, sig, "%s is %v instead of %v (tolerance %v)", what, a, b, tol)
}

func (c *Case) constCase(p ckks.Parameters, ev ckks.Evaluator) {
	t := p.RingType()
	k, re, im := c.randConst(t, p.Q())
	deg := c.R.Intn(3)
	scale := math.Exp2(float64(10 + c.R.Intn(50)))
	if c.R.Intn(2) == 0 {
		scale *= 1 + c.R.Float64()
	}
	a, u := c.constOperand(p, deg, c.anyLevel(p), scale)
	op := c.R.Intn(4)
	if a.ct == nil {
		a.ct = &ckks.Ciphertext{Ciphertext: a.op.El(), Scale: scale}
		a.op = a.ct
	}
	out := c.pickOut(p, deg, deg, a)
	if op == 0 && out != nil && out != a.ct && c.R.Intn(4) == 0 {
		out = c.randReceiver(p, deg, c.anyLevel(p))
	}
	level := outLevel(a.level, out)
	c.Feature("const%d %T re=%v im=%v deg=%d level %d->%d alias=%v", op, k, re, im, deg, a.level, level, out == a.ct)
	switch op {
	case 0: // AddConst
		if out == nil {
			out = ev.AddConstNew(a.ct, k)
		} else {
			ev.AddConst(a.ct, k, out)
		}
		c.operandsKept(out, "AddConst", a)
		kr, tr := exactConst(re, scale)
		ki, ti := exactConst(im, scale)
		if out.Degree() == deg && out.Level() == level {
			add := coef(out.Value[0], p.RingQ(), level, true, false).sub(a.comp(0, level))
			gr, gi := c.multiplier(add, t, "AddConst")
			c.nearMod(gr, kr, tr, p.Q()[:level+1], "AddConst/value", "real part")
			c.nearMod(gi, ki, ti, p.Q()[:level+1], "AddConst/value", "imaginary part")
			a.v[0] = a.comp(0, level).add(add)
		}
		var want []rns
		for i := 0; i <= deg; i++ {
			want = append(want, a.comp(i, level))
		}
		c.result(p, out, want, level, scale, false, "AddConst")
	case 1, 2: // MultByConst, ScaleUp is the same with a change of scale
		f := 1.0
		if !isInt(re) || !isInt(im) {
			f = float64(p.Q()[level])
		} else if cc, ok := k.(complex128); ok && t == ring.ConjugateInvariant && !isInt(imag(cc)) {
			f = float64(p.Q()[level])
		}
		if out == nil {
			out = ev.MultByConstNew(a.ct, k)
		} else {
			ev.MultByConst(a.ct, k, out)
		}
		c.operandsKept(out, "MultByConst", a)
		kr, tr := exactConst(re, f)
		ki, ti := exactConst(im, f)
		if !c.Check(out.Degree() == deg && out.Level() == level, "MultByConst/level", "degree %d level %d instead of %d, %d", out.Degree(), out.Level(), deg, level) {
			return
		}
		gr, gi := c.multiplier(coef(out.Value[u], p.RingQ(), level, true, false), t, "MultByConst")
		c.nearMod(gr, kr, tr, p.Q()[:level+1], "MultByConst/value", "real part")
		c.nearMod(gi, ki, ti, p.Q()[:level+1], "MultByConst/value", "imaginary part")
		var want []rns
		for i := 0; i <= deg; i++ {
			want = append(want, a.comp(i, level).gauss(gr, gi))
		}
		c.result(p, out, want, level, scale*f, false, "MultByConst")
	case 3: // MultByConstAndAdd
		out = c.randReceiver(p, deg, c.anyLevel(p))
		level = outLevel(a.level, out)
		for _, v := range out.Value {
			for i := range v.Coeffs {
				for j := range v.Coeffs[i] {
					v.Coeffs[i][j] %= p.Q()[i]
				}
			}
		}
		f := 1.0
		whole := isInt(re) && isInt(im)
		if cc, ok := k.(complex128); ok && !isInt(imag(cc)) {
			whole = false
		}
		if !whole {
			f = float64(p.Q()[level])
		}
		target := scale * f
		m := int64(1)
		switch c.R.Intn(3) {
		case 0: // the receiver has the scale of the product
			out.Scale = target
		case 1: // a smaller one
			m = 1 << uint(1+c.R.Intn(30))
			out.Scale = target / float64(m)
			if c.R.Intn(2) == 0 {
				m, out.Scale = c.awkwardRatio(target)
			}
		case 2: // a larger one
			g := math.Exp2(float64(1 + c.R.Intn(20)))
			if c.R.Intn(2) == 0 {
				g = 1 + c.R.Float64()*g
			}
			out.Scale = target * g
			g = out.Scale / target
			f *= g
			target = out.Scale
		}
		o := view(p, out)
		ev.MultByConstAndAdd(a.ct, k, out)
		c.operandsKept(out, "MultByConstAndAdd", a)
		if !c.Check(out.Degree() == deg && out.Level() == level, "MultByConstAndAdd/level", "degree %d level %d instead of %d, %d", out.Degree(), out.Level(), deg, level) {
			return
		}
		base := o.comp(u, level).scale(big.NewInt(m))
		gr, gi := c.multiplier(coef(out.Value[u], p.RingQ(), level, true, false).sub(base), t, "MultByConstAndAdd")
		kr, tr := exactConst(re, f)
		ki, ti := exactConst(im, f)
		c.nearMod(gr, kr, tr, p.Q()[:level+1], "MultByConstAndAdd/value", "real part")
		c.nearMod(gi, ki, ti, p.Q()[:level+1], "MultByConstAndAdd/value", "imaginary part")
		var want []rns
		for i := 0; i <= deg; i++ {
			want = append(want, o.comp(i, level).scale(big.NewInt(m)).add(a.comp(i, level).gauss(gr, gi)))
		}
		c.result(p, out, want, level, target, false, "MultByConstAndAdd")
	}
}

// randInteger draws an integer of one of the types the evaluator takes.
func (c *Case) randInteger(q []uint64) (x interface{}, v *big.Int) {
	if c.R.Intn(6) == 0 { // zero in some channels only
		v = bigU(q[c.R.Intn(len(q))])
		switch k := c.R.Intn(3); {
		case k == 0:
			return v.Uint64(), v
		case k == 1:
			return -v.Int64(), v.Neg(v)
		}
		v.Mul(v, bigU(q[c.R.Intn(len(q))]))
		v.Mul(v, big.NewInt(int64(c.R.Intn(7)-3)))
		return new(big.Int).Set(v), v
	}
	sh := uint(c.R.Intn(64))
	switch c.R.Intn(3) {
	case 0:
		u := c.R.Uint64() >> sh
		return u, bigU(u)
	case 1:
		i := int64(c.R.Uint64()) >> sh
		if c.R.Intn(6) == 0 {
			i = 0
		}
		return i, big.NewInt(i)
	}
	b := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(1+c.R.Intn(200))))
	if c.R.Intn(2) == 0 {
		b.Neg(b)
	}
	return b, new(big.Int).Set(b)
}

type moreOps interface {
	MulByPow2New(ct0 *ckks.Ciphertext, pow2 int) *ckks.Ciphertext
	MulByPow2(ct0 *ckks.Ciphertext, pow2 int, ctOut *ckks.Ciphertext)
	RescaleNew(ct0 *ckks.Ciphertext, threshold float64) (*ckks.Ciphertext, error)
}

// unaryCase runs the operations that multiply by integers and units.
func (c *Case) unaryCase(p ckks.Parameters, ev ckks.Evaluator) {
	t := p.RingType()
	deg := c.R.Intn(3)
	a := c.randOperand(p, deg, c.anyLevel(p), math.Exp2(float64(c.R.Intn(60))))
	if a.ct == nil {
		a.ct = &ckks.Ciphertext{Ciphertext: a.op.El(), Scale: a.scale}
		a.op = a.ct
	}
	out := c.pickOut(p, deg, deg, a)
	level := outLevel(a.level, out)
	re, im := big.NewInt(1), big.NewInt(0)
	scale := a.scale
	op := c.R.Intn(7)
	if t == ring.ConjugateInvariant && op <= 1 {
		bad, _, _ := c.Try(func() { []func(*ckks.Ciphertext) *ckks.Ciphertext{ev.MultByiNew, ev.DivByiNew}[op](a.ct) })
		c.Check(bad, "i/accepted", "the imaginary unit was accepted in the conjugate-invariant ring")
		return
	}
	name := []string{"MultByi", "DivByi", "Neg", "MultByGaussianInteger", "MultByGaussianIntegerAndAdd", "ScaleUp", "MulByPow2"}[op]
	c.Feature("%s deg=%d level %d->%d alias=%v", name, deg, a.level, level, out == a.ct)
	var add *operand
	switch op {
	case 0:
		re, im = big.NewInt(0), big.NewInt(1)
		if out == nil {
			out = ev.MultByiNew(a.ct)
		} else {
			ev.MultByi(a.ct, out)
		}
	case 1:
		re, im = big.NewInt(0), big.NewInt(-1)
		if out == nil {
			out = ev.DivByiNew(a.ct)
		} else {
			ev.DivByi(a.ct, out)
		}
	case 2:
		re = big.NewInt(-1)
		if out == nil {
			out = ev.NegNew(a.ct)
		} else {
			ev.Neg(a.ct, out)
		}
	case 3, 4:
		var x, y interface{}
		x, re = c.randInteger(p.Q())
		y, im = c.randInteger(p.Q())
		if t == ring.ConjugateInvariant {
			im = big.NewInt(0)
		}
		c.Feature("%T %T", x, y)
		if out == nil || op == 4 {
			out = c.randReceiver(p, deg, c.anyLevel(p))
			level = outLevel(a.level, out)
		}
		if op == 3 {
			ev.MultByGaussianInteger(a.ct, x, y, out)
		} else {
			for _, v := range out.Value {
				for i := range v.Coeffs {
					for j := range v.Coeffs[i] {
						v.Coeffs[i][j] %= p.Q()[i]
					}
				}
			}
			out.Scale = a.scale
			add = view(p, out)
			ev.MultByGaussianIntegerAndAdd(a.ct, x, y, out)
		}
	case 5:
		f := float64(c.R.Uint64() >> uint(13+c.R.Intn(51)))
		if c.R.Intn(2) == 0 {
			f = math.Exp2(float64(c.R.Intn(63)))
		}
		scale *= f
		b, _ := new(big.Float).SetFloat64(f).Int(nil)
		re = b
		if out == nil {
			out = ev.ScaleUpNew(a.ct, f)
		} else {
			ev.ScaleUp(a.ct, f, out)
		}
	case 6:
		m, ok := ev.(moreOps)
		if !ok {
			return
		}
		e := c.R.Intn(64)
		re = new(big.Int).Lsh(big.NewInt(1), uint(e))
		if out == nil {
			out = m.MulByPow2New(a.ct, e)
		} else {
			m.MulByPow2(a.ct, e, out)
		}
	}
	var want []rns
	for i := 0; i <= deg; i++ {
		w := a.comp(i, level).gauss(re, im)
		if add != nil {
			w = w.add(add.comp(i, level))
		}
		want = append(want, w)
	}
	c.result(p, out, want, level, scale, false, name)
	c.operandsKept(out, name, a)
}

func init() {
	register("C02", "one case = parameters, one evaluator and a history of operations on ciphertexts and plaintexts with arbitrary residues, degrees, levels, scales and receivers; every component of every result is compared with exact integer arithmetic; distinct = parameters x operation x degrees x levels x receiver",
		func(r *Run) {
			unit := func(name string, n int, fn func(c *Case, p ckks.Parameters, ev ckks.Evaluator)) {
				r.Cases(name, n, 15*n, func(c *Case) {
					p := c.evalParams(6, 0, nil)
					ev := ckks.NewEvaluator(p, rlwe.EvaluationKey{})
					for i := 0; i < 8; i++ {
						fn(c, p, ev)
					}
				})
			}
			unit("add", 8000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) { c.addCase(p, ev) })
			unit("multiply", 5000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) { c.mulCase(p, ev) })
			unit("constants", 8000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) { c.constCase(p, ev) })
			unit("integers", 8000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) { c.unaryCase(p, ev) })
			unit("mixed", 8000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) {
				switch c.R.Intn(4) {
				case 0:
					c.addCase(p, ev)
				case 1:
					c.mulCase(p, ev)
				case 2:
					c.constCase(p, ev)
				case 3:
					c.unaryCase(p, ev)
				}
			})
		})
}
