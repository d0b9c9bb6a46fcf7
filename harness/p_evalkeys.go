package main

import (
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// smallOperand is a ciphertext whose components are small integers (so that products by constants do not wrap).
func (c *Case) smallOperand(p ckks.Parameters, degree, level int, scale float64, bound *big.Int) (*operand, [][]*big.Int) {
	ct := ckks.NewCiphertext(p, degree, level, scale)
	var ints [][]*big.Int
	for i := range ct.Value {
		v := c.randInts(p.N(), 1, bound, true)
		ints = append(ints, v)
		ct.Value[i].Coeffs = fromInts(v, p.Q()[:level+1], p.RingType()).poly(p.RingQ(), true, false).Coeffs
	}
	return view(p, ct), ints
}

// rounded checks that out, at a lower level, is in divided by the dropped moduli and rounded.
func (c *Case) rounded(in, out rns, sig string) {
	n := len(out.m)
	D := prodBig(in.m[n:])
	e := in.sub(fromInts(out.centered(), in.m, in.t).scale(D)).maxAbs()
	lim := new(big.Int).Rsh(D, 1)
	lim.Add(lim, new(big.Int).Rsh(D, 20))
	lim.Add(lim, big.NewInt(1))
	c.Event(len(in.v[0]))
	c.Check(e.Cmp(lim) <= 0, sig, "quotient by %v is off by %v/%v", D, e, D)
}

func (c *Case) rescaleCase(p ckks.Parameters, ev ckks.Evaluator) {
	level := c.anyLevel(p)
	deg := c.R.Intn(3)
	if c.R.Intn(3) > 0 {
		deg = 1
	}
	base := math.Exp2(15 + 45*c.R.Float64())
	scale := base
	k := c.R.Intn(level + 2)
	for i := 0; i < k && i <= level && scale < 0x1p900; i++ {
		scale *= float64(p.Q()[level-i])
	}
	min := base * math.Exp2(4*c.R.Float64()-2)
	if c.R.Intn(4) == 0 { // exactly half of the minimum after one division: every operation on these numbers is exact
		min = math.Exp2(float64(20 + c.R.Intn(20)))
		scale = float64(p.Q()[level]) * (min / 2)
	}
	a := c.randOperand(p, deg, level, scale)
	if a.ct == nil {
		a.ct = &ckks.Ciphertext{Ciphertext: a.op.El(), Scale: scale}
		a.op = a.ct
	}
	wantScale, drop := scale, 0
	for level-drop > 0 && wantScale/float64(p.Q()[level-drop]) >= min/2 {
		wantScale /= float64(p.Q()[level-drop])
		drop++
	}
	final := level - drop
	var out *ckks.Ciphertext
	var err error
	how := c.R.Intn(3)
	c.Feature("deg=%d level=%d k=%d drop=%d how=%d", deg, level, k, drop, how)
	m, okNew := ev.(moreOps)
	switch {
	case how == 0 && okNew:
		out, err = m.RescaleNew(a.ct, min)
	case how == 1:
		lo := level - drop + c.R.Intn(p.MaxLevel()-level+drop+1)
		if drop == 0 { // a mere copy
			lo = c.anyLevel(p)
		}
		out = c.randReceiver(p, deg, lo)
		c.Feature("receiver=%d", lo)
		err = ev.Rescale(a.ct, min, out)
		if drop == 0 && lo < level {
			final = lo
		}
	default:
		out = a.ct
		err = ev.Rescale(a.ct, min, a.ct)
	}
	if level == 0 {
		c.Check(err != nil, "Rescale/level-0", "rescaling at level 0 was accepted")
		c.Check(a.untouched(), "Rescale/operand-modified", "the operand changed")
		return
	}
	if !c.Check(err == nil, "Rescale/refused", "refused: %v", err) {
		return
	}
	c.operandsKept(out, "Rescale", a)
	if !c.Check(out.Level() == final && out.Degree() == deg, "Rescale/level", "level %d degree %d instead of %d, %d (scale %v, min %v)", out.Level(), out.Degree(), final, deg, scale, min) {
		return
	}
	c.Check(math.Abs(out.Scale-wantScale) <= 1e-12*wantScale, "Rescale/scale", "scale %v instead of %v", out.Scale, wantScale)
	for i, x := range out.Value {
		c.Check(len(x.Coeffs) == final+1 && x.IsNTT, "Rescale/shape", "component %d at level %d", i, len(x.Coeffs)-1)
		c.Check(reducedPoly(x, p.Q()), "Rescale/reduced", "component %d is not reduced", i)
		got := coef(x, p.RingQ(), final, true, false)
		if drop == 0 {
			c.Check(eqCoeffs(got.v, a.v[i].upto(final+1).v), "Rescale/copy", "component %d changed although nothing was divided", i)
		} else {
			c.rounded(a.v[i], got, "Rescale/value")
		}
	}
	// refusals
	b := c.randOperand(p, 1, level, scale)
	o := c.randReceiver(p, 1, level)
	s := view(p, o)
	c.Check(ev.Rescale(b.ct, -base*float64(c.R.Intn(2)), o) != nil, "Rescale/accepts-min", "a non-positive minimum was accepted")
	b.ct.Scale, b.scale = 0, 0
	c.Check(ev.Rescale(b.ct, base, o) != nil, "Rescale/accepts-zero", "a zero scale was accepted")
	b.ct.Scale, b.scale = scale, scale
	c.Check(ev.Rescale(b.ct, min, c.randReceiver(p, 2, level)) != nil, "Rescale/accepts-degree", "a receiver of another degree was accepted")
	c.Check(s.untouched() && b.untouched(), "Rescale/error-modifies", "a refused call changed its arguments")
}

func (c *Case) setScaleCase(p ckks.Parameters, ev ckks.Evaluator) {
	if p.MaxLevel() == 0 {
		return
	}
	level := 1 + c.R.Intn(p.MaxLevel())
	q := float64(p.Q()[level])
	scale := math.Exp2(20 + 30*c.R.Float64())
	ratio := math.Exp2(-10 + 25*c.R.Float64())
	whole := c.R.Intn(3) == 0
	if whole {
		ratio = math.Exp2(float64(c.R.Intn(20)))
	}
	target := scale * ratio
	ratio = target / scale
	bound := prodBig(p.Q()[:level])
	bound.Rsh(bound, 18)
	if bound.BitLen() > 60 && c.R.Intn(2) == 0 {
		bound.SetUint64(1 << 60)
	}
	deg := 1 + c.R.Intn(2)
	a, ints := c.smallOperand(p, deg, level, scale, bound)
	c.Feature("set-scale level=%d whole=%v ratio=%.1f", level, whole, math.Log2(ratio))
	ev.SetScale(a.ct, target)
	want := level
	if !isInt(ratio) {
		want--
	}
	if !c.Check(a.ct.Level() == want && a.ct.Degree() == deg, "SetScale/level", "level %d instead of %d", a.ct.Level(), want) {
		return
	}
	c.Check(a.ct.Scale == target, "SetScale/scale", "scale %v instead of %v", a.ct.Scale, target)
	for i, x := range a.ct.Value {
		c.Check(reducedPoly(x, p.Q()), "SetScale/reduced", "not reduced")
		got := coef(x, p.RingQ(), want, true, false).centered()
		for j := range got {
			f := new(big.Float).SetPrec(400).SetInt(ints[i][j])
			f.Mul(f, new(big.Float).SetPrec(400).SetFloat64(ratio))
			d := new(big.Int).Sub(got[j], roundBig(f))
			tf := new(big.Float).SetPrec(100).SetInt(new(big.Int).Abs(ints[i][j]))
			tf.Mul(tf, big.NewFloat(0.51/q+ratio*math.Exp2(-48)))
			tol := roundBig(tf)
			tol.Add(tol, big.NewInt(2))
			if d.CmpAbs(tol) > 0 {
				c.Fail("SetScale/value", "coefficient %v times %v became %v", ints[i][j], ratio, got[j])
				return
			}
		}
		c.Event(p.N())
	}
}

func (c *Case) dropCase(p ckks.Parameters, ev ckks.Evaluator) {
	level := c.anyLevel(p)
	a := c.randOperand(p, 1+c.R.Intn(2), level, math.Exp2(40))
	n := c.R.Intn(level + 1)
	c.Feature("drop %d of %d", n, level)
	var out *ckks.Ciphertext
	if c.R.Intn(2) == 0 {
		out = ev.DropLevelNew(a.ct, n)
		c.Check(a.untouched(), "DropLevelNew/operand-modified", "the operand changed")
		for i := range out.Value { // the copy is independent
			c.Check(&out.Value[i].Coeffs[0][0] != &a.ct.Value[i].Coeffs[0][0], "DropLevelNew/alias", "the result shares memory with the operand")
		}
	} else {
		ev.DropLevel(a.ct, n)
		out = a.ct
	}
	var want []rns
	for i := 0; i <= a.deg(); i++ {
		want = append(want, a.comp(i, level-n))
	}
	c.result(p, out, want, level-n, math.Exp2(40), false, "DropLevel")
}

// keyedEval is an evaluator with keys and the oracle's view of the secrets.
type keyedEval struct {
	p        ckks.Parameters
	ev       ckks.Evaluator
	s, s2    rns
	rlk      *rlwe.RelinearizationKey
	rtks     *rlwe.RotationKeySet
	swk      *rlwe.SwitchingKey
	rots     []int
	snapR    *rlwe.RelinearizationKey
	snapT    *rlwe.RotationKeySet
	snapS    *rlwe.SwitchingKey
	hasConj  bool
	noAbsent bool
}

func (c *Case) keyedEval() *keyedEval {
	p := c.evalParams(6, 1, nil)
	rp, err := rlwe.NewParameters(p.LogN(), p.Q(), p.P(), 1+c.R.Intn(p.N()), 3.2, p.RingType())
	if err != nil {
		c.Fatal("params", "%v", err)
	}
	p, err = ckks.NewParameters(rp, p.LogSlots(), math.Exp2(30))
	if err != nil {
		c.Fatal("params", "%v", err)
	}
	k := &keyedEval{p: p}
	kg := ckks.NewKeyGenerator(p)
	sk, sk2 := kg.GenSecretKey(), kg.GenSecretKey()
	_, k.s = c.skRef(rp, sk, "key")
	_, k.s2 = c.skRef(rp, sk2, "key")
	k.rlk = kg.GenRelinearizationKey(sk, 1+c.R.Intn(2))
	for i := 0; i < 3; i++ {
		r := c.R.Intn(4*p.N()) - 2*p.N()
		if c.R.Intn(2) == 0 {
			r = 1 << uint(c.R.Intn(p.LogN()))
		}
		k.rots = append(k.rots, r)
	}
	k.hasConj = p.RingType() == ring.Standard
	k.rtks = kg.GenRotationKeysForRotations(k.rots, k.hasConj, sk)
	k.swk = kg.GenSwitchingKey(sk, sk2)
	k.ev = ckks.NewEvaluator(p, rlwe.EvaluationKey{Rlk: k.rlk, Rtks: k.rtks})
	k.snapR, k.snapT, k.snapS = snapRlk(k.rlk), snapRtks(k.rtks), snapSwk(k.swk)
	return k
}

func snapRlk(k *rlwe.RelinearizationKey) *rlwe.RelinearizationKey {
	o := &rlwe.RelinearizationKey{}
	for _, x := range k.Keys {
		o.Keys = append(o.Keys, snapSwk(x))
	}
	return o
}

func snapRtks(k *rlwe.RotationKeySet) *rlwe.RotationKeySet {
	o := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
	for g, x := range k.Keys {
		o.Keys[g] = snapSwk(x)
	}
	return o
}

func (c *Case) keysKept(k *keyedEval) {
	c.Check(sameRlk(k.snapR, k.rlk) && sameRtks(k.snapT, k.rtks) && sameSwk(k.snapS, k.swk), "keys-modified", "evaluation keys changed")
}

type hoistedOps interface {
	PermuteNTTHoisted(level int, c0, c1 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, cOut0, cOut1 *ring.Poly)
	RotateHoistedNoModDownNew(level int, rotations []int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP) map[int][2]rlwe.PolyQP
}

// opens compares what a degree-1 ciphertext opens to with the expected polynomial, within the key-switching noise.
func (c *Case) opens(k *keyedEval, out *ckks.Ciphertext, s, want rns, level int, scale float64, ntt bool, sig string) {
	if !c.Check(out.Degree() == 1, sig+"/degree", "degree %d", out.Degree()) || !c.Check(out.Level() == level, sig+"/level", "level %d instead of %d", out.Level(), level) {
		return
	}
	c.Check(out.Scale == scale, sig+"/scale", "scale %v instead of %v", out.Scale, scale)
	for i, x := range out.Value {
		c.Check(len(x.Coeffs) == level+1, sig+"/level", "component %d at level %d", i, len(x.Coeffs)-1)
		c.Check(x.IsNTT == ntt, sig+"/domain", "component %d flagged with the wrong domain", i)
		c.Check(reducedPoly(x, k.p.Q()), sig+"/reduced", "component %d is not reduced", i)
	}
	_, lim := kswNoise(k.p.Parameters, level, k.p.PCount()-1, false, k.p.HammingWeight())
	lim.Add(lim, big.NewInt(1))
	if !small4(lim, prodBig(k.p.Q()[:level+1])) {
		c.Count("noise_above_modulus", 1)
		return
	}
	e := phase(out.Ciphertext, k.p.RingQ(), level, s, ntt).sub(want).maxAbs()
	c.Event(k.p.N())
	c.Count("opened", 1)
	c.Check(e.Cmp(lim) <= 0, sig, "opens %v away from the exact result, more than %v", e, lim)
}

func (c *Case) switchCase(k *keyedEval) {
	p, ev, R := k.p, k.ev, k.p.RingQ()
	op := c.R.Intn(8)
	names := []string{"MulRelin", "MulRelinAndAdd", "Relinearize", "SwitchKeys", "Rotate", "Conjugate", "PermuteNTTHoisted", "RotateHoistedNoModDown"}
	sig := names[op]
	open := func(o *operand, level int) rns {
		acc := o.comp(o.deg(), level)
		for i := o.deg() - 1; i >= 0; i-- {
			acc = acc.mul(k.s.upto(level + 1)).add(o.comp(i, level))
		}
		return acc
	}
	sa := math.Exp2(float64(20 + c.R.Intn(30)))
	switch op {
	case 0, 1:
		a, b := c.randOperand(p, 1, c.anyLevel(p), sa), c.randOperand(p, 1, c.anyLevel(p), math.Exp2(float64(20+c.R.Intn(30))))
		if c.R.Intn(4) == 0 {
			b = a
		}
		out := c.pickOut(p, 1, 2, a, b)
		inPlace := op == 1 && c.R.Intn(4) == 0 // accumulate into an operand: the scale of the other one is the factor
		if inPlace {
			sq := b == a
			f := float64(1 + c.R.Intn(1<<uint(c.R.Intn(21))))
			if b = c.randOperand(p, 1, b.level, f); sq {
				a = b
			}
			out = a.ct
			if c.R.Intn(2) == 0 {
				a, b = b, a
			}
		} else if op == 1 {
			out = c.randReceiver(p, 1, c.anyLevel(p))
			for _, v := range out.Value {
				for i := range v.Coeffs {
					for j := range v.Coeffs[i] {
						v.Coeffs[i][j] %= p.Q()[i]
					}
				}
			}
		}
		level := outLevel(minInt(a.level, b.level), out)
		scale := a.scale * b.scale
		want := open(a, level).mul(open(b, level))
		c.Feature("%s levels %d,%d->%d square=%v alias=%v", sig, a.level, b.level, level, a == b, out != nil && (out == a.ct || out == b.ct))
		if op == 1 {
			f := int64(1 + c.R.Intn(1<<uint(c.R.Intn(21))))
			if inPlace {
				f = int64(scale / out.Scale)
			} else {
				out.Scale = scale / float64(f)
			}
			if !inPlace && f > 1 { // a ratio a little off the integer on either side
				out.Scale *= 1 + math.Exp2(-30)*(2*c.R.Float64()-1)
			}
			want = want.add(open(view(p, out), level).scale(big.NewInt(f)))
			ev.MulRelinAndAdd(a.op, b.op, out)
		} else if out == nil {
			out = ev.MulRelinNew(a.op, b.op)
		} else {
			ev.MulRelin(a.op, b.op, out)
		}
		c.operandsKept(out, sig, a, b)
		c.opens(k, out, k.s, want, level, scale, true, sig)
	case 2, 3:
		deg := 2
		if op == 3 {
			deg = 1
		}
		a := c.randOperand(p, deg, c.anyLevel(p), sa)
		out := c.pickOut(p, 1, 2, a)
		if op == 3 {
			out = c.pickOut(p, 1, 1, a)
		}
		level := outLevel(a.level, out)
		want := open(a, level)
		ntt := c.R.Intn(2) == 0
		c.Feature("%s level %d->%d ntt=%v alias=%v", sig, a.level, level, ntt, out == a.ct)
		if !ntt {
			for _, x := range a.ct.Value {
				R.InvNTTLvl(a.level, x, x)
				x.IsNTT = false
			}
			a.snap = snapCt(a.ct.Ciphertext)
		}
		s := k.s
		if op == 3 {
			s = k.s2
		}
		switch {
		case op == 2 && out == nil:
			out = ev.RelinearizeNew(a.ct)
		case op == 2:
			ev.Relinearize(a.ct, out)
		case out == nil:
			out = ev.SwitchKeysNew(a.ct, k.swk)
		default:
			ev.SwitchKeys(a.ct, k.swk, out)
		}
		c.operandsKept(out, sig, a)
		c.opens(k, out, s, want, level, a.scale, ntt, sig)
	case 4, 5:
		a := c.randOperand(p, 1, c.anyLevel(p), sa)
		out := c.pickOut(p, 1, 1, a)
		level := outLevel(a.level, out)
		g := uint64(1)
		rot := k.rots[c.R.Intn(len(k.rots))]
		if c.R.Intn(8) == 0 {
			rot = 0
		}
		if op == 5 {
			if !k.hasConj {
				bad, _, _ := c.Try(func() { ev.ConjugateNew(a.ct) })
				c.Check(bad, "Conjugate/accepted", "conjugation was accepted in the conjugate-invariant ring")
				return
			}
			g = R.NthRoot - 1
		} else {
			g = rotElt(p.Parameters, rot)
		}
		want := open(a, level).aut(g)
		if rot == 0 && op == 4 && out != nil && out != a.ct {
			// a copy at the level of the receiver
			level = minInt(a.level, out.Level())
		}
		c.Feature("%s %d level %d->%d alias=%v", sig, rot, a.level, level, out == a.ct)
		switch {
		case op == 5 && out == nil:
			out = ev.ConjugateNew(a.ct)
		case op == 5:
			ev.Conjugate(a.ct, out)
		case out == nil:
			out = ev.RotateNew(a.ct, rot)
		default:
			ev.Rotate(a.ct, rot, out)
		}
		c.operandsKept(out, sig, a)
		c.opens(k, out, k.s, want, level, a.scale, true, sig)
		// a rotation without its key is refused
		if absent := c.R.Intn(2 * p.N()); op == 4 {
			if _, ok := k.rtks.GetRotationKey(rotElt(p.Parameters, absent)); !ok && absent != 0 && !k.noAbsent {
				bad, _, _ := c.Try(func() { ev.RotateNew(a.ct, absent) })
				c.Check(bad, "Rotate/no-key", "rotation by %d without a key", absent)
			}
		}
	case 6, 7:
		h, ok := ev.(hoistedOps)
		if !ok {
			return
		}
		a := c.randOperand(p, 1, c.anyLevel(p), sa)
		level := c.R.Intn(a.level + 1)
		lp := p.PCount() - 1
		ks := ev.GetKeySwitcher()
		dec := ks.PoolDecompQP
		if c.R.Intn(2) == 0 {
			dec = make([]rlwe.PolyQP, p.QCount())
			for i := range dec {
				dec[i] = p.RingQP().NewPoly()
			}
		}
		ks.DecomposeNTT(level, lp, p.PCount(), a.ct.Value[1], dec)
		c.Feature("%s level %d of %d", sig, level, a.level)
		if op == 6 {
			for _, rot := range k.rots {
				out := c.randReceiver(p, 1, level)
				want := open(a, level).aut(rotElt(p.Parameters, rot))
				if rot == 0 {
					out = c.randReceiver(p, 1, a.level)
				}
				h.PermuteNTTHoisted(level, a.ct.Value[0], a.ct.Value[1], dec, rot, out.Value[0], out.Value[1])
				ev.DropLevel(out, out.Level()-level)
				c.opens(k, out, k.s, want, level, out.Scale, true, sig)
			}
			c.operandsKept(nil, sig, a)
			return
		}
		res := h.RotateHoistedNoModDownNew(level, append([]int{0}, k.rots...), a.ct.Value[0], dec)
		c.operandsKept(nil, sig, a)
		before, _ := kswNoise(p.Parameters, level, lp, false, p.HammingWeight())
		P := prodBig(p.P())
		for _, rot := range k.rots {
			if rot == 0 {
				continue
			}
			r, ok := res[rot]
			if !c.Check(ok, sig+"/missing", "no result for rotation %d", rot) {
				continue
			}
			c0, c1 := coefQP(r[0], p.Parameters, level, lp, true, false), coefQP(r[1], p.Parameters, level, lp, true, false)
			in := open(a, level).aut(rotElt(p.Parameters, rot))
			full := newRNS(p.N(), c0.m, c0.t)
			for j := 0; j <= level; j++ {
				w := modU(P, full.m[j])
				for t := range full.v[j] {
					full.v[j][t] = mulMod(in.v[j][t], w, full.m[j])
				}
			}
			e := c0.add(c1.mul(k.s.rowsFor(p.QCount(), level, lp))).sub(full).maxAbs()
			c.Event(p.N())
			if small4(before, prodBig(c0.m)) {
				c.Check(e.Cmp(before) <= 0, sig, "rotation %d over QP is off by %v, more than %v", rot, e, before)
			}
			for _, x := range r {
				c.Check(reducedPoly(&ring.Poly{Coeffs: x.Q.Coeffs[:level+1]}, p.Q()), sig+"/reduced", "Q part is not reduced")
				c.Check(reducedPoly(x.P, p.P()), sig+"/reduced", "P part is not reduced")
			}
		}
	}
}

func init() {
	register("C03", "one case = parameters, one evaluator and a history of level and scale operations on ciphertexts with arbitrary or small residues, scales and minimum scales, receivers; compared with exact integer rounding; distinct = parameters x operation x level x divisions",
		func(r *Run) {
			unit := func(name string, n int, fn func(c *Case, p ckks.Parameters, ev ckks.Evaluator)) {
				r.Cases(name, n, 15*n, func(c *Case) {
					p := c.evalParams(7, 0, nil)
					ev := ckks.NewEvaluator(p, rlwe.EvaluationKey{})
					for i := 0; i < 6; i++ {
						fn(c, p, ev)
					}
				})
			}
			unit("rescale", 24000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) { c.rescaleCase(p, ev) })
			unit("set-scale", 8000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) { c.setScaleCase(p, ev) })
			unit("drop", 5000, func(c *Case, p ckks.Parameters, ev ckks.Evaluator) { c.dropCase(p, ev) })
		})

	register("C04", "one case = parameters, secrets, evaluation keys and an evaluator with a history of relinearizations, rotations, conjugations and key switches on ciphertexts with arbitrary residues, levels and receivers; every result is opened with the secret and compared with the exact polynomial; distinct = parameters x operations x levels x receivers",
		func(r *Run) {
			r.Cases("switch", 8000, 60000, func(c *Case) {
				k := c.keyedEval()
				for i := 0; i < 8; i++ {
					c.switchCase(k)
				}
				c.keysKept(k)
			})
		})
}
