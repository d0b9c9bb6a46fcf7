package main

import (
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

// A misuse is a call outside the domain of an operation: it must panic or return an error.
type misuse struct {
	name string
	f    func() error
}

func (c *Case) refuses(list []misuse, n int, kept func() bool) {
	for i := 0; i < n && i < len(list); i++ {
		m := list[c.R.Intn(len(list))]
		c.misuse(m, kept)
	}
}

func (c *Case) misuse(m misuse, kept func() bool) {
	var err error
	c.Feature("%s", m.name)
	bad, _, _ := c.Try(func() { err = m.f() })
	c.Event(1)
	if bad {
		c.Count("panics", 1)
	} else {
		c.Count("errors", 1)
	}
	c.Check(bad || err != nil, m.name, "accepted")
	if kept != nil {
		c.Check(kept(), m.name+"/modifies", "the refused call changed an operand")
	}
}

func do(f func()) func() error { return func() error { f(); return nil } }

func (c *Case) misuseEval() {
	types := []ring.Type{ring.Standard, ring.ConjugateInvariant}
	p := c.evalParams(6, 1, types)
	ci := p.RingType() == ring.ConjugateInvariant
	kg := ckks.NewKeyGenerator(p)
	sk, sk2 := kg.GenSecretKey(), kg.GenSecretKey()
	rlk := kg.GenRelinearizationKey(sk, 1)
	rot := 1 + c.R.Intn(p.N()/2-1)
	rtks := kg.GenRotationKeysForRotations([]int{rot}, false, sk)
	swk := kg.GenSwitchingKey(sk, sk2)
	ev := ckks.NewEvaluator(p, rlwe.EvaluationKey{Rlk: rlk, Rtks: rtks})
	noKeys := ckks.NewEvaluator(p, rlwe.EvaluationKey{})

	level := c.R.Intn(p.MaxLevel() + 1)
	s := math.Exp2(20)
	lv := func() int { return c.R.Intn(p.MaxLevel() + 1) }
	a, b := c.randOperand(p, 1, level, s), c.randOperand(p, 1, lv(), s)
	pt := c.randOperand(p, 0, lv(), s)
	pt2 := c.randOperand(p, 0, lv(), s)
	d2, d3 := c.randOperand(p, 2, lv(), s), c.randOperand(p, 3, lv(), s)
	cf := c.randOperand(p, 1+c.R.Intn(2), lv(), s) // a component is not in the NTT domain
	cf.ct.Value[c.R.Intn(len(cf.ct.Value))].IsNTT = false
	cf = view(p, cf.ct)
	cfPt := c.randOperand(p, 0, lv(), s)
	cfPt.op.El().Value[0].IsNTT = false
	cfPt = view(p, cfPt.op)
	all := []*operand{a, b, pt, pt2, d2, d3, cf, cfPt}
	rlkSnap, swkSnap := snapSwk(rlk.Keys[0]), snapSwk(swk)
	rtk, _ := rtks.GetRotationKey(rotElt(p.Parameters, rot))
	rtkSnap := snapSwk(rtk)
	kept := func() bool {
		for _, o := range all {
			if !o.untouched() {
				return false
			}
		}
		return sameSwk(rlk.Keys[0], rlkSnap) && sameSwk(swk, swkSnap) && sameSwk(rtk, rtkSnap)
	}
	out := func(d int) *ckks.Ciphertext { return c.randReceiver(p, d, lv()) }

	var list []misuse
	add := func(name string, f func()) { list = append(list, misuse{name, do(f)}) }
	adde := func(name string, f func() error) { list = append(list, misuse{name, f}) }

	type bin struct {
		name string
		f    func(x, y ckks.Operand, o *ckks.Ciphertext)
		fn   func(x, y ckks.Operand) *ckks.Ciphertext
		mul  bool
	}
	bins := []bin{
		{"Add", ev.Add, ev.AddNew, false}, {"AddNoMod", ev.AddNoMod, ev.AddNoModNew, false},
		{"Sub", ev.Sub, ev.SubNew, false}, {"SubNoMod", ev.SubNoMod, ev.SubNoModNew, false},
		{"Mul", ev.Mul, ev.MulNew, true}, {"MulRelin", ev.MulRelin, ev.MulRelinNew, true},
		{"MulAndAdd", ev.MulAndAdd, nil, true}, {"MulRelinAndAdd", ev.MulRelinAndAdd, nil, true},
	}
	for _, x := range bins {
		x := x
		add(x.name+"/nil-left", func() { x.f(nil, b.op, out(2)) })
		add(x.name+"/nil-right", func() { x.f(a.op, nil, out(2)) })
		add(x.name+"/nil-receiver", func() { x.f(a.op, b.op, nil) })
		add(x.name+"/plaintexts", func() { x.f(pt.op, pt2.op, out(1)) })
		add(x.name+"/domain-left", func() { x.f(cf.op, b.op, out(2)) })
		add(x.name+"/domain-right", func() { x.f(a.op, cf.op, out(2)) })
		add(x.name+"/domain-plaintext", func() { x.f(a.op, cfPt.op, out(2)) })
		add(x.name+"/domain-plaintext-left", func() { x.f(cfPt.op, a.op, out(2)) })
		add(x.name+"/receiver-degree", func() { x.f(a.op, b.op, out(0)) })
		add(x.name+"/receiver-degree-plaintext", func() { x.f(a.op, pt.op, out(0)) })
		if x.mul {
			add(x.name+"/degree-left", func() { x.f(d2.op, b.op, out(3)) })
			add(x.name+"/degree-right", func() { x.f(a.op, d2.op, out(3)) })
			add(x.name+"/degree-plaintext", func() { x.f(d3.op, pt.op, out(3)) })
		} else {
			add(x.name+"/receiver-degree-2", func() { x.f(a.op, d2.op, out(1)) })
			add(x.name+"/receiver-degree-2-left", func() { x.f(d2.op, pt.op, out(1)) })
		}
		if x.fn != nil {
			add(x.name+"New/plaintexts", func() { x.fn(pt.op, pt2.op) })
			add(x.name+"New/domain", func() { x.fn(a.op, cf.op) })
			if x.mul {
				add(x.name+"New/degree", func() { x.fn(d2.op, b.op) })
			}
		}
	}
	add("MulRelin/no-key", func() { noKeys.MulRelinNew(a.op, b.op) })
	add("MulRelinAndAdd/no-key", func() { noKeys.MulRelinAndAdd(a.op, b.op, out(1)) })
	add("Relinearize/no-key", func() { noKeys.RelinearizeNew(d2.ct) })
	for _, o := range []*operand{a, d3} {
		o := o
		add("Relinearize/degree", func() { ev.Relinearize(o.ct, out(2)) })
		add("RelinearizeNew/degree", func() { ev.RelinearizeNew(o.ct) })
	}
	for _, o := range []*operand{d2, d3} {
		o := o
		add("Rotate/degree", func() { ev.Rotate(o.ct, rot, out(1)) })
		add("Rotate/degree-by-0", func() { ev.Rotate(o.ct, 0, out(1)) })
		add("RotateNew/degree", func() { ev.RotateNew(o.ct, rot) })
		add("SwitchKeys/degree", func() { ev.SwitchKeys(o.ct, swk, out(1)) })
		add("SwitchKeysNew/degree", func() { ev.SwitchKeysNew(o.ct, swk) })
		add("Conjugate/degree", func() { ev.Conjugate(o.ct, out(1)) })
	}
	for _, d := range []int{0, 2, 3} {
		d := d
		add("Rotate/receiver-degree", func() { ev.Rotate(a.ct, rot, out(d)) })
		add("SwitchKeys/receiver-degree", func() { ev.SwitchKeys(a.ct, swk, out(d)) })
		add("Conjugate/receiver-degree", func() { ev.Conjugate(a.ct, out(d)) })
		add("Neg/receiver-degree", func() { ev.Neg(a.ct, out(d)) })
		adde("Reduce/receiver-degree", func() error { return ev.Reduce(a.ct, out(d)) })
		adde("Rescale/receiver-degree", func() error {
			x := c.randReceiver(p, d, a.level)
			return ev.Rescale(a.ct, 1, x)
		})
	}
	add("Rotate/nil-keys", func() { noKeys.RotateNew(a.ct, rot) })
	add("Rotate/no-key", func() { ev.RotateNew(a.ct, rot-p.N()/2) }) // in the standard ring the period, in the other a different rotation
	if !ci {
		list = list[:len(list)-1]
	}
	absent := rot%(p.N()/2-1) + 1
	add("Rotate/no-key", func() { ev.RotateNew(a.ct, absent) })
	add("Conjugate/no-key", func() { ev.ConjugateNew(a.ct) })
	add("SwitchKeys/nil-key", func() { ev.SwitchKeysNew(a.ct, nil) })
	if h, ok := ev.(hoistedOps); ok {
		dec := ev.GetKeySwitcher().PoolDecompQP
		add("PermuteNTTHoisted/no-key", func() {
			o := out(1)
			h.PermuteNTTHoisted(0, a.ct.Value[0], a.ct.Value[1], dec, absent, o.Value[0], o.Value[1])
		})
	}
	for _, m := range []float64{0, -1, math.Inf(-1)} {
		m := m
		adde("Rescale/threshold", func() error {
			x := out(1)
			y := a.ct.CopyNew()
			return ev.Rescale(y, m, x)
		})
	}
	adde("Rescale/level-0", func() error {
		x := c.randOperand(p, 1, 0, s)
		return ev.Rescale(x.ct, 1, x.ct)
	})
	if p.MaxLevel() > 0 {
		adde("Rescale/not-ntt", func() error {
			x := c.randOperand(p, 1, p.MaxLevel(), math.Exp2(60))
			x.ct.Value[c.R.Intn(2)].IsNTT = false
			return ev.Rescale(x.ct, 1, x.ct)
		})
	}
	adde("Rescale/zero-scale", func() error {
		x := c.randOperand(p, 1, p.MaxLevel(), 0)
		return ev.Rescale(x.ct, 1, x.ct)
	})
	for _, k := range []interface{}{nil, float32(2), int32(3), uint32(1), int8(1), "1", true, complex64(1), big.NewInt(3), new(big.Float), []float64{1}} {
		k := k
		add("AddConst/type", func() { ev.AddConst(a.ct, k, out(1)) })
		add("AddConstNew/type", func() { ev.AddConstNew(a.ct, k) })
		add("MultByConst/type", func() { ev.MultByConst(a.ct, k, out(1)) })
		add("MultByConstNew/type", func() { ev.MultByConstNew(a.ct, k) })
		add("MultByConstAndAdd/type", func() { ev.MultByConstAndAdd(a.ct, k, out(1)) })
		if _, ok := k.(*big.Int); !ok {
			add("MultByGaussianInteger/type", func() { ev.MultByGaussianInteger(a.ct, k, int64(1), out(1)) })
			add("MultByGaussianIntegerAndAdd/type", func() { ev.MultByGaussianIntegerAndAdd(a.ct, k, int64(1), out(1)) })
			if !ci {
				add("MultByGaussianInteger/type-imaginary", func() { ev.MultByGaussianInteger(a.ct, int64(1), k, out(1)) })
				add("MultByGaussianIntegerAndAdd/type-imaginary", func() { ev.MultByGaussianIntegerAndAdd(a.ct, int64(1), k, out(1)) })
			}
		}
	}
	if ci {
		add("MultByi/conjugate-invariant", func() { ev.MultByi(a.ct, out(1)) })
		add("MultByiNew/conjugate-invariant", func() { ev.MultByiNew(a.ct) })
		add("DivByi/conjugate-invariant", func() { ev.DivByi(a.ct, out(1)) })
		add("DivByiNew/conjugate-invariant", func() { ev.DivByiNew(a.ct) })
		add("Conjugate/conjugate-invariant", func() { ev.Conjugate(a.ct, out(1)) })
		add("ConjugateNew/conjugate-invariant", func() { ev.ConjugateNew(a.ct) })
	}
	c.refuses(list, 60, kept)

	// the evaluator still works
	fresh := ckks.NewEvaluator(p, rlwe.EvaluationKey{Rlk: rlk, Rtks: rtks})
	same := func(sig string, f func(e ckks.Evaluator) *ckks.Ciphertext) {
		c.Check(sameCt(f(ev).El(), f(fresh).El()), sig+"/after-refusal", "an evaluator that refused calls computes something else than a new one")
	}
	same("MulRelin", func(e ckks.Evaluator) *ckks.Ciphertext { return e.MulRelinNew(a.op, b.op) })
	same("Rotate", func(e ckks.Evaluator) *ckks.Ciphertext { return e.RotateNew(a.ct, rot) })
	same("Add", func(e ckks.Evaluator) *ckks.Ciphertext { return e.AddNew(a.op, pt.op) })
	c.Check(kept(), "after-refusal/modifies", "operands changed")
}

func (c *Case) misuseEncode() {
	types := []ring.Type{ring.Standard, ring.ConjugateInvariant}
	p := c.evalParams(6, 1, types)
	ci := p.RingType() == ring.ConjugateInvariant
	ecd := ckks.NewEncoder(p)
	max := p.MaxLogSlots()
	level := c.R.Intn(p.MaxLevel() + 1)
	scale := math.Exp2(20)
	pt := ckks.NewPlaintext(p, level, scale)
	vals := func(n int) interface{} {
		if c.R.Intn(2) == 0 {
			v := make([]float64, n)
			for i := range v {
				v[i] = c.R.NormFloat64()
			}
			return v
		}
		v := make([]complex128, n)
		for i := range v {
			v[i] = complex(c.R.NormFloat64(), c.R.NormFloat64())
		}
		return v
	}
	ls := c.R.Intn(max + 1)
	var list []misuse
	add := func(name string, f func()) { list = append(list, misuse{name, do(f)}) }
	enc := func(name string, mk func() interface{}, logSlots int) {
		add("Encode/"+name, func() { ecd.Encode(mk(), pt, logSlots) })
		add("EncodeSlots/"+name, func() { ecd.EncodeSlots(mk(), pt, logSlots) })
		add("EncodeNew/"+name, func() { ecd.EncodeNew(mk(), level, scale, logSlots) })
		add("EncodeSlotsNew/"+name, func() { ecd.EncodeSlotsNew(mk(), level, scale, logSlots) })
		add("Embed/"+name, func() { ecd.Embed(mk(), logSlots, scale, true, p.RingQ().NewPoly()) })
	}
	enc("slots", func() interface{} { return vals(1) }, max+1)
	enc("negative-slots", func() interface{} { return vals(1) }, -1-c.R.Intn(2))
	enc("many-values", func() interface{} { return vals(1<<uint(ls) + 1 + c.R.Intn(3)) }, ls)
	enc("all-values", func() interface{} { return vals(1<<uint(max) + 1) }, max)
	for _, x := range []interface{}{nil, []int{1}, []complex64{1}, []float32{1}, 1.5, [2]float64{}, []*ring.Complex{}, "1"} {
		x := x
		enc("type", func() interface{} { return x }, ls)
	}
	for _, x := range []interface{}{nil, pt, p.RingQP().NewPoly().Q.Coeffs, 3, "x"} {
		x := x
		add("Embed/receiver", func() { ecd.Embed(vals(1), ls, scale, false, x) })
	}
	many := make([]float64, p.N()+1+c.R.Intn(3))
	add("EncodeCoeffs/many", func() { ecd.EncodeCoeffs(many, pt) })
	add("EncodeCoeffsNew/many", func() { ecd.EncodeCoeffsNew(many, level, scale) })
	for _, l := range []int{max + 1, max + 3, -1} {
		l := l
		add("Decode/slots", func() { ecd.Decode(pt, l) })
		add("DecodeSlots/slots", func() { ecd.DecodeSlots(pt, l) })
		add("DecodePublic/slots", func() { ecd.DecodePublic(pt, l, 0) })
		add("DecodeSlotsPublic/slots", func() { ecd.DecodeSlotsPublic(pt, l, 0) })
	}
	if !ci {
		big := ckks.NewEncoderBigComplex(p, 64)
		bv := func(n int) []*ring.Complex {
			v := make([]*ring.Complex, n)
			for i := range v {
				v[i] = ring.NewComplex(ring.NewFloat(c.R.NormFloat64(), 64), ring.NewFloat(c.R.NormFloat64(), 64))
			}
			return v
		}
		add("Big/many", func() { big.Encode(bv(1<<uint(ls)+1), pt, ls) })
		add("Big/few", func() { big.Encode(bv(1<<uint(ls)-1), pt, ls) })
		add("Big/slots", func() { big.Encode(bv(1<<uint(max+1)), pt, max+1) })
		add("Big/negative-slots", func() { big.Encode(bv(0), pt, -1) })
		add("Big/decode", func() { big.Decode(pt, max+1) })
		add("Big/decode-public", func() { big.DecodePublic(pt, max+1, 0) })
	}
	c.refuses(list, 40, nil)
	// the encoder still works
	v := vals(1 << uint(ls))
	c.Check(samePoly(ecd.EncodeNew(v, level, scale, ls).Value, ckks.NewEncoder(p).EncodeNew(v, level, scale, ls).Value), "Encode/after-refusal", "an encoder that refused calls encodes differently")
}

func (c *Case) misuseKeys() {
	types := []ring.Type{ring.Standard, ring.ConjugateInvariant}
	lo := 30 + c.R.Intn(20)
	rp := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 4, minP: 0, maxP: 2, lo: lo, hi: lo + 8, types: types})
	big, err := rlwe.NewParameters(rp.LogN()+1, pickPrimes(c.R, 2, nthRootOf(2*rp.N(), rp.RingType()), lo, lo+8), nil, 0, 3.2, rp.RingType())
	if err != nil {
		c.Fatal("parameters", "%v", err)
	}
	p, err := ckks.NewParameters(rp, 1, math.Exp2(20))
	if err != nil {
		c.Fatal("parameters", "%v", err)
	}
	c.Feature("%s", describe(rp))
	kg := rlwe.NewKeyGenerator(rp)
	sk, pk := kg.GenKeyPair()
	bsk, bpk := rlwe.NewKeyGenerator(big).GenKeyPair()
	var list []misuse
	add := func(name string, f func()) { list = append(list, misuse{name, do(f)}) }
	for _, k := range []interface{}{nil, 1, "key", *sk, *pk, bsk, bpk, kg, sk.Value, (*rlwe.SecretKey)(nil), (*rlwe.PublicKey)(nil)} {
		k := k
		add("NewEncryptor/key", func() { rlwe.NewEncryptor(rp, k) })
		add("ckks.NewEncryptor/key", func() { ckks.NewEncryptor(p, k) })
		add("Encryptor.WithKey/key", func() { rlwe.NewEncryptor(rp, sk).WithKey(k) })
		add("ckks.Encryptor.WithKey/key", func() { ckks.NewEncryptor(p, pk).WithKey(k) })
	}
	add("NewDecryptor/degree", func() { rlwe.NewDecryptor(rp, bsk) })
	add("ckks.NewDecryptor/degree", func() { ckks.NewDecryptor(p, bsk) })
	level := c.R.Intn(rp.MaxLevel() + 1)
	crp := randPoly(c.R, rp.N(), rp.Q()[:level+1])
	add("EncryptFromCRP/public-key", func() {
		rlwe.NewEncryptor(rp, pk).EncryptFromCRP(rlwe.NewPlaintext(rp, level), crp, rlwe.NewCiphertext(rp, 1, level))
	})
	add("ckks.EncryptFromCRP/public-key", func() {
		ckks.NewEncryptor(p, pk).EncryptFromCRP(ckks.NewPlaintext(p, level, 1), crp, ckks.NewCiphertext(p, 1, level, 1))
	})
	add("ckks.EncryptFromCRPNew/public-key", func() { ckks.NewEncryptor(p, pk).EncryptFromCRPNew(ckks.NewPlaintext(p, level, 1), crp) })
	if rp.PCount() == 0 {
		sk2 := kg.GenSecretKey()
		add("GenRelinearizationKey/no-P", func() { kg.GenRelinearizationKey(sk, 1) })
		add("GenSwitchingKey/no-P", func() { kg.GenSwitchingKey(sk, sk2) })
		add("GenRotationKeys/no-P", func() { kg.GenRotationKeysForRotations([]int{1}, false, sk) })
		add("GenRotationKeys/no-P", func() { kg.GenRotationKeys([]uint64{5}, sk) })
		if rp.RingType() == ring.Standard {
			add("GenSwitchingKeyForRowRotation/no-P", func() { kg.GenSwitchingKeyForRowRotation(sk) })
		}
	}
	if rp.RingType() == ring.ConjugateInvariant {
		add("GaloisElementForRowRotation/conjugate-invariant", func() { rp.GaloisElementForRowRotation() })
		add("GenSwitchingKeyForRowRotation/conjugate-invariant", func() { kg.GenSwitchingKeyForRowRotation(sk) })
		add("GenRotationKeys/conjugate-invariant", func() { kg.GenRotationKeysForRotations(nil, true, sk) })
	}
	s1, s2 := snapQP(sk.Value), snapQP(bsk.Value)
	p0, p1 := snapQP(pk.Value[0]), snapQP(pk.Value[1])
	c.refuses(list, 30, func() bool {
		return sameQP(sk.Value, s1) && sameQP(bsk.Value, s2) && sameQP(pk.Value[0], p0) && sameQP(pk.Value[1], p1)
	})
}

func (c *Case) misuseRing() {
	logN := 5 + c.R.Intn(3)
	N := 1 << uint(logN)
	Q := pickPrimes(c.R, 1+c.R.Intn(3), uint64(4*N), 30, 61)
	std := getRing(N, Q, ring.Standard)
	ci := getRing(N/2, Q, ring.ConjugateInvariant)
	L := len(Q) - 1
	a := randPoly(c.R, N, Q)
	h := randPoly(c.R, N/2, Q)
	h2 := randPoly(c.R, N/2, Q)
	a2 := randPoly(c.R, N, Q)
	snaps := []*ring.Poly{snapPoly(a), snapPoly(h)}
	var list []misuse
	add := func(name string, f func()) { list = append(list, misuse{name, do(f)}) }
	adde := func(name string, f func() error) { list = append(list, misuse{name, f}) }
	add("Unfold/degree", func() { std.UnfoldConjugateInvariantToStandard(L, a, a2) })
	add("Unfold/reversed", func() { std.UnfoldConjugateInvariantToStandard(L, a, h2) })
	add("Fold/degree", func() { ci.FoldStandardToConjugateInvariant(L, a, std.PermuteNTTIndex(5), a2) })
	add("Fold/half", func() { ci.FoldStandardToConjugateInvariant(L, h, std.PermuteNTTIndex(5), h2) })
	add("Pad/in-place", func() { ring.PadDefaultRingToConjuateInvariant(a, std, a) })
	add("Pad/degree", func() { ring.PadDefaultRingToConjuateInvariant(a, std, a2) })
	prng, err := utils.NewKeyedPRNG([]byte{byte(c.Idx), 1, 2})
	if err != nil {
		c.Fatal("prng", "%v", err)
	}
	add("Ternary/p=0", func() { ring.NewTernarySampler(prng, std, 0, false).Read(a2) })
	steps := uint64(1 + c.R.Intn(9))
	adde("SetClock/back", func() error {
		buf := make([]byte, 64)
		for i := uint64(0); i < steps; i++ {
			prng.Clock(buf)
		}
		return prng.SetClock(buf, prng.GetClock()-1)
	})
	for _, l := range []int{0, -3, 62, 70, 64} {
		l := l
		add("GenerateNTTPrimes/size", func() { ring.GenerateNTTPrimes(l, 2*N, 1) })
	}
	adde("NextNTTPrime/overflow", func() error {
		_, err := ring.NextNTTPrime(0x1fffffffffffffff&^uint64(2*N-1)|1, 2*N)
		return err
	})
	adde("PreviousNTTPrime/underflow", func() error {
		_, err := ring.PreviousNTTPrime(uint64(2*N)+1-uint64(c.R.Intn(2)*2*N), 2*N)
		return err
	})
	size, size32 := a.GetDataLen(true), a.GetDataLen32(true)
	adde("WriteTo/short", func() error { _, err := a.WriteTo(make([]byte, c.R.Intn(size))); return err })
	adde("WriteTo32/short", func() error { _, err := a.WriteTo32(make([]byte, c.R.Intn(size32))); return err })
	good, good32 := make([]byte, size), make([]byte, size32)
	if _, err := a.WriteTo(good); err != nil {
		c.Fail("WriteTo/refused", "%v", err)
	}
	if _, err := a.WriteTo32(good32); err != nil {
		c.Fail("WriteTo32/refused", "%v", err)
	}
	adde("DecodePolyNew/short", func() error { _, err := new(ring.Poly).DecodePolyNew(good[:c.R.Intn(size)]); return err })
	adde("DecodePolyNew32/short", func() error { _, err := new(ring.Poly).DecodePolyNew32(good32[:c.R.Intn(size32)]); return err })
	adde("UnmarshalBinary/short", func() error { return new(ring.Poly).UnmarshalBinary(good[:c.R.Intn(size)]) })
	body := N * len(Q) * 8
	adde("WriteCoeffs/short", func() error { _, err := a.WriteCoeffs(make([]byte, c.R.Intn(body))); return err })
	at := c.R.Intn(4)
	adde("WriteCoeffsTo/short", func() error {
		_, err := ring.WriteCoeffsTo(at, N, L+1, a.Coeffs, make([]byte, at+c.R.Intn(body)))
		return err
	})
	adde("WriteCoeffsTo32/short", func() error {
		_, err := ring.WriteCoeffsTo32(at, N, L+1, a.Coeffs, make([]byte, at+c.R.Intn(body/2)))
		return err
	})
	adde("DecodeCoeffs/short", func() error {
		_, err := ring.DecodeCoeffs(at, N, L+1, a2.Coeffs, make([]byte, at+c.R.Intn(body)))
		return err
	})
	adde("DecodeCoeffsNew/short", func() error {
		_, err := ring.DecodeCoeffsNew(at, N, L+1, make([][]uint64, L+1), make([]byte, at+c.R.Intn(body)))
		return err
	})
	adde("DecodeCoeffsNew32/short", func() error {
		_, err := ring.DecodeCoeffsNew32(at, N, L+1, make([][]uint64, L+1), make([]byte, at+c.R.Intn(body/2)))
		return err
	})
	for _, n := range []int{0, 1, 3, 7, N + 1, -N, 3 * N} {
		n := n
		adde("NewRing/degree", func() error { _, err := ring.NewRing(n, Q); return err })
		adde("NewRingConjugateInvariant/degree", func() error { _, err := ring.NewRingConjugateInvariant(n, Q); return err })
	}
	for name, m := range map[string][]uint64{"empty": {}, "nil": nil, "zero": {Q[0], 0}, "twice": {Q[0], Q[0]}, "composite": nil, "even": {Q[0] - 1}, "root": {Q[0], 0x1fffffffffe00001 + 2}} {
		if name == "composite" {
			m = []uint64{uint64(2*N+1) * uint64(2*N+1)} // congruent to 1
		}
		m := m
		adde("NewRing/moduli-"+name, func() error { _, err := ring.NewRing(N, m); return err })
	}
	c.refuses(list, 40, func() bool {
		return samePoly(a, snaps[0]) && samePoly(h, snaps[1])
	})
}

func (c *Case) misuseFast() {
	pl := c.fastLit(5, false)
	p := fckks.NewParametersFromLiteral(pl)
	kg := fckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair()
	rlk := kg.GenRelinKey(sk)
	rot := 1 + c.R.Intn(p.N()/2-1)
	rk := kg.GenRotKey(rot, sk)
	ev := fckks.NewEvaluator(p)
	s := p.DefaultScale()
	lv := func() int { return c.R.Intn(p.MaxLevel() + 1) }
	a, b, d2 := c.randOperand(p.Parameters, 1, lv(), s), c.randOperand(p.Parameters, 1, lv(), s), c.randOperand(p.Parameters, 2, lv(), s)
	cf := c.randOperand(p.Parameters, 1, lv(), s)
	cf.ct.Value[c.R.Intn(2)].IsNTT = false
	cf = view(p.Parameters, cf.ct)
	out := func(d int) *ckks.Ciphertext { return c.randReceiver(p.Parameters, d, lv()) }
	var list []misuse
	add := func(name string, f func()) { list = append(list, misuse{name, do(f)}) }
	add("fast.MulRelin/nil-key", func() { ev.MulRelinNew(a.ct, b.ct, nil) })
	add("fast.MulRelin/degree", func() { ev.MulRelin(a.ct, d2.ct, rlk, out(3)) })
	add("fast.MulRelinNew/degree", func() { ev.MulRelinNew(d2.ct, b.ct, rlk) })
	add("fast.MulRelin/domain", func() { ev.MulRelinNew(cf.ct, b.ct, rlk) })
	add("fast.MulRelin/domain-right", func() { ev.MulRelinNew(a.ct, cf.ct, rlk) })
	add("fast.Rotate/nil-key", func() { ev.RotateNew(a.ct, nil) })
	add("fast.SwitchKeys/nil-key", func() { ev.SwitchKeysNew(a.ct, [2]*frlwe.SwitchingKey{}) })
	add("fast.Rotate/receiver-degree", func() { ev.Rotate(a.ct, rk, out(0)) })
	add("fast.NewDecryptor/degree", func() {
		bad := rlwe.NewSecretKey(getRLWE(p.LogN()+1, pickPrimes(c.R, 1, uint64(4*p.N()), 40, 50), nil, ring.Standard))
		fckks.NewDecryptor(p, bad)
	})
	add("fast.Add/domain", func() { ev.AddNew(a.ct, cf.ct) })
	add("fast.Sub/domain", func() { ev.SubNew(cf.ct, a.ct) })
	add("fast.EncryptMsg/many", func() {
		m := fckks.NewMessage(p)
		m.Value = append(m.Value, make([]complex128, p.Slots()+1)...)
		fckks.NewEncryptor(p, pk).EncryptMsgNew(m)
	})
	ks := frlwe.NewKeySwitcher(frlweOf(pl))
	add("fast.KeySwitcher/domain", func() {
		x := randPoly(c.R, p.N(), p.Q())
		x.IsNTT = true
		o := p.RingQ()
		ks.SwitchKey(p.MaxLevel(), x, rlk.Value[0], rlk.Value[1], o.NewPoly(), o.NewPoly())
	})
	c.refuses(list, 14, func() bool { return a.untouched() && b.untouched() && d2.untouched() && cf.untouched() })
	f2 := fckks.NewEvaluator(p)
	c.Check(sameCt(ev.MulRelinNew(a.ct, b.ct, rlk).El(), f2.MulRelinNew(a.ct, b.ct, rlk).El()), "fast/after-refusal", "an evaluator that refused calls computes something else than a new one")
}

func init() {
	register("X01", "one case = objects of random parameters and a few dozen calls outside the documented domain of their operations (nil, wrong degree, wrong domain, absent key, wrong type, too many values, unsupported ring type, invalid key), each under panic interception: it must panic or return an error and leave operands and keys as they were, and the object must afterwards compute what a new one computes; distinct = parameters x calls",
		func(r *Run) {
			r.Cases("evaluator", 2500, 60000, func(c *Case) { c.misuseEval() })
			r.Cases("encoder", 1500, 40000, func(c *Case) { c.misuseEncode() })
			r.Cases("keys", 800, 20000, func(c *Case) { c.misuseKeys() })
			r.Cases("ring", 1500, 30000, func(c *Case) { c.misuseRing() })
			r.Cases("fast", 400, 8000, func(c *Case) { c.misuseFast() })
		})
}
