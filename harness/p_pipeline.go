package main

import (
	"math"
	"math/big"
	"math/cmplx"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// A pipeline follows the values a user expects in the slots through encoding, encryption, a history of homomorphic
// operations, decryption and decoding, with a worst-case bound on the error of every intermediate result.
type pipeline struct {
	c        *Case
	p        ckks.Parameters
	logSlots int
	ecd      ckks.Encoder
	encs     []ckks.Encryptor // public key, secret key
	dec      ckks.Decryptor
	dec2     ckks.Decryptor
	ev       ckks.Evaluator
	fast     *fckks.Evaluator // nil in the standard scheme
	frlk     *frlwe.RelinKey
	frtk     map[int]*frlwe.RotationKey
	swk      *rlwe.SwitchingKey
	rots     []int
	pool     []*tracked
	freshLim [2]float64 // noise of a fresh encryption
}

type tracked struct {
	ct   *ckks.Ciphertext
	v    []complex128
	err  float64
	hist string
	key2 bool
}

func (t *tracked) max() (m float64) {
	for _, x := range t.v {
		m = math.Max(m, cmplx.Abs(x))
	}
	return
}

// spread is the slot error that a coefficient error b causes at a scale.
func (w *pipeline) spread(b, scale float64) float64 {
	n := float64(w.p.N())
	if w.p.RingType() == ring.ConjugateInvariant {
		n *= 2
	}
	return n * b / scale
}

func (w *pipeline) fits(level int, scale, max float64) bool {
	lq := 0.0
	for _, q := range w.p.Q()[:level+1] {
		lq += math.Log2(float64(q))
	}
	return math.Log2(scale)+math.Log2(max+1)+5 < lq
}

func (w *pipeline) message() []complex128 {
	n := 1 << uint(w.logSlots)
	v := make([]complex128, n)
	mag := 1.0
	if w.c.R.Intn(3) == 0 {
		mag = 8
	}
	for i := range v {
		v[i] = complex((2*w.c.R.Float64()-1)*mag, (2*w.c.R.Float64()-1)*mag)
		if w.p.RingType() == ring.ConjugateInvariant {
			v[i] = complex(real(v[i]), 0)
		}
	}
	return v
}

func (w *pipeline) encode(v []complex128, level int, scale float64) *ckks.Plaintext {
	var in interface{} = append([]complex128{}, v...)
	if w.p.RingType() == ring.ConjugateInvariant && w.c.R.Intn(2) == 0 {
		f := make([]float64, len(v))
		for i := range f {
			f[i] = real(v[i])
		}
		in = f
	}
	switch w.c.R.Intn(3) {
	case 0:
		return w.ecd.EncodeNew(in, level, scale, w.logSlots)
	case 1:
		return w.ecd.EncodeSlotsNew(in, level, scale, w.logSlots)
	}
	pt := ckks.NewPlaintext(w.p, level, scale)
	dirty(w.c.R, pt.Value)
	w.ecd.Encode(in, pt, w.logSlots)
	return pt
}

func (w *pipeline) encrypt() {
	c, p := w.c, w.p
	v := w.message()
	level := p.MaxLevel() - c.R.Intn(2)*c.R.Intn(p.MaxLevel()+1)
	scale := p.DefaultScale()
	if c.R.Intn(3) == 0 {
		scale *= 1 + c.R.Float64()*4
	}
	t := &tracked{v: v, hist: "enc"}
	if !w.fits(level, scale, t.max()) {
		return
	}
	pt := w.encode(v, level, scale)
	k := c.R.Intn(len(w.encs))
	enc := w.encs[k]
	if c.R.Intn(3) == 0 {
		enc = enc.ShallowCopy()
		if c.R.Intn(2) == 0 {
			w.encs[k] = enc
		}
	}
	switch how := c.R.Intn(4); {
	case how == 0:
		t.ct = enc.EncryptNew(pt)
	case how == 1 && k == 1:
		crp := randPoly(c.R, p.N(), p.Q()[:level+1])
		crp.IsNTT = true
		t.hist = "crp"
		if c.R.Intn(2) == 0 {
			t.ct = enc.EncryptFromCRPNew(pt, crp)
		} else {
			t.ct = ckks.NewCiphertext(p, 1, level, 3)
			enc.EncryptFromCRP(pt, crp, t.ct)
		}
		c.Check(eqCoeffs(t.ct.Value[1].Coeffs, crp.Coeffs), "crp", "the second component is not the common reference polynomial")
	default:
		l := c.R.Intn(p.MaxLevel() + 1)
		if !w.fits(minInt(l, level), scale, t.max()) {
			l = level
		}
		t.ct = ckks.NewCiphertext(p, 1, l, 3)
		for _, x := range t.ct.Value {
			dirty(c.R, x)
		}
		enc.Encrypt(pt, t.ct)
		level = minInt(level, l)
	}
	t.err = w.spread(w.freshLim[k]+1, scale)
	w.keep(t, level, "encrypt")
}

// keep checks a new result by decrypting and decoding it, and puts it into the pool.
func (w *pipeline) keep(t *tracked, level int, sig string) {
	c := w.c
	for i, x := range w.pool { // computed in place: what the ciphertext held is gone
		if x.ct == t.ct {
			w.pool = append(append([]*tracked{}, w.pool[:i]...), w.pool[i+1:]...)
			break
		}
	}
	if !c.Check(t.ct.Level() == level, sig+"/level", "%s: level %d instead of %d", t.hist, t.ct.Level(), level) {
		return
	}
	t.err += (t.max() + 1) * math.Exp2(-38)
	dec := w.dec
	if t.key2 {
		dec = w.dec2
	}
	if c.R.Intn(4) == 0 {
		dec = dec.ShallowCopy()
	}
	var pt *ckks.Plaintext
	if c.R.Intn(2) == 0 {
		pt = dec.DecryptNew(t.ct)
	} else {
		pt = ckks.NewPlaintext(w.p, w.p.MaxLevel(), 5)
		dirty(c.R, pt.Value)
		pt.Value.IsNTT = c.R.Intn(2) == 0
		dec.Decrypt(t.ct, pt)
	}
	var got []complex128
	switch c.R.Intn(3) {
	case 0:
		got = w.ecd.Decode(pt, w.logSlots)
	case 1:
		got = w.ecd.DecodeSlots(pt, w.logSlots)
	default:
		got = w.ecd.DecodePublic(pt, w.logSlots, 0)
	}
	if !c.Check(len(got) == len(t.v), sig+"/slots", "%d slots instead of %d", len(got), len(t.v)) {
		return
	}
	worst := 0.0
	for i := range got {
		worst = math.Max(worst, cmplx.Abs(got[i]-t.v[i]))
	}
	c.Event(len(got))
	c.Count("results_decoded", 1)
	if t.err < 0.01*(t.max()+0.01) {
		c.Count("precise_results", 1)
	}
	if !c.Check(worst <= t.err || math.IsInf(t.err, 0), sig, "history %s: decoded values are %.3g off, more than %.3g (scale 2^%.1f, level %d)", t.hist, worst, t.err, math.Log2(t.ct.Scale), level) {
		return
	}
	if math.IsNaN(worst) {
		c.Fail(sig, "history %s: decoded values are not numbers", t.hist)
		return
	}
	if t.err > 0.5 || t.key2 {
		return
	}
	if len(t.hist) > 200 {
		t.hist = "..." + t.hist[len(t.hist)-160:]
	}
	if len(w.pool) < 5 {
		w.pool = append(w.pool, t)
	} else {
		w.pool[c.R.Intn(5)] = t
	}
}

func (w *pipeline) any() *tracked { return w.pool[w.c.R.Intn(len(w.pool))] }

// receiver draws a place for the result: nil for a new one, the operand itself, or a used ciphertext.
func (w *pipeline) receiver(ops ...*tracked) *ckks.Ciphertext {
	switch w.c.R.Intn(4) {
	case 0:
		return nil
	case 1:
		return ops[w.c.R.Intn(len(ops))].ct
	}
	l := w.p.MaxLevel()
	if w.c.R.Intn(3) == 0 {
		l = w.c.R.Intn(l + 1)
	}
	out := ckks.NewCiphertext(w.p, 1, l, float64(1+w.c.R.Intn(1<<20)))
	for _, x := range out.Value {
		dirty(w.c.R, x)
	}
	return out
}

func (w *pipeline) ksw(level int, scale float64) float64 {
	_, lim := kswNoise(w.p.Parameters, level, w.p.PCount()-1, false, w.p.HammingWeight())
	f, _ := new(big.Float).SetInt(lim).Float64()
	return w.spread(f, scale)
}

func mapSlots(a, b []complex128, f func(x, y complex128) complex128) []complex128 {
	v := make([]complex128, len(a))
	for i := range a {
		v[i] = f(a[i], b[i])
	}
	return v
}

func (w *pipeline) step() {
	c, p, ev := w.c, w.p, w.ev
	a, b := w.any(), w.any()
	out := w.receiver(a, b)
	ci := p.RingType() == ring.ConjugateInvariant
	op := c.R.Intn(16)
	names := []string{"add", "sub", "mul", "mulpt", "rot", "conj", "const*", "const+", "i", "rescale", "rescale", "drop", "setscale", "switch", "addpt", "muladd"}
	sig := names[op]
	t := &tracked{hist: a.hist + "," + sig}
	done := func(level int) {
		c.Feature("%s", sig)
		w.keep(t, level, sig)
	}
	one := func() (*ckks.Ciphertext, int) { // receiver of a unary operation
		if out == b.ct {
			out = a.ct
		}
		return out, outLevel(a.ct.Level(), out)
	}
	switch op {
	case 0, 1:
		r := a.ct.Scale / b.ct.Scale
		if r < 1 {
			r = 1 / r
		}
		if r > 1.001 {
			return
		}
		level := outLevel(minInt(a.ct.Level(), b.ct.Level()), out)
		m := a.max() + b.max()
		if !w.fits(level, math.Max(a.ct.Scale, b.ct.Scale), m) {
			return
		}
		t.err = a.err + b.err + (r-1)*m*1.01
		f := func(x, y complex128) complex128 { return x + y }
		g, gn := ev.Add, ev.AddNew
		if op == 1 {
			f = func(x, y complex128) complex128 { return x - y }
			g, gn = ev.Sub, ev.SubNew
		}
		if w.fast != nil && c.R.Intn(2) == 0 {
			g, gn = w.fast.Add, w.fast.AddNew
			if op == 1 {
				g, gn = w.fast.Sub, w.fast.SubNew
			}
		}
		t.v = mapSlots(a.v, b.v, f)
		if out == nil {
			out = gn(a.ct, b.ct)
		} else {
			g(a.ct, b.ct, out)
		}
		t.ct = out
		done(level)
	case 2:
		level := outLevel(minInt(a.ct.Level(), b.ct.Level()), out)
		scale := a.ct.Scale * b.ct.Scale
		ma, mb := a.max(), b.max()
		if !w.fits(level, scale, ma*mb) {
			return
		}
		t.err = ma*b.err + mb*a.err + a.err*b.err + w.ksw(level, scale)
		t.v = mapSlots(a.v, b.v, func(x, y complex128) complex128 { return x * y })
		switch {
		case w.fast != nil && out == nil:
			out = w.fast.MulRelinNew(a.ct, b.ct, w.frlk)
		case w.fast != nil:
			w.fast.MulRelin(a.ct, b.ct, w.frlk, out)
		case c.R.Intn(3) == 0: // in two steps
			deg2 := ev.MulNew(a.ct, b.ct)
			if out == nil {
				out = ev.RelinearizeNew(deg2)
			} else {
				ev.Relinearize(deg2, out)
			}
		case out == nil:
			out = ev.MulRelinNew(a.ct, b.ct)
		default:
			ev.MulRelin(a.ct, b.ct, out)
		}
		t.ct = out
		done(level)
	case 3, 14:
		v := w.message()
		u := &tracked{v: v}
		scale := p.DefaultScale()
		if op == 14 {
			scale = a.ct.Scale
		}
		lp := c.R.Intn(p.MaxLevel() + 1)
		level := outLevel(minInt(a.ct.Level(), lp), nil)
		ma, mu := a.max(), u.max()
		eu := w.spread(1, scale) + mu*math.Exp2(-40)
		if !w.fits(lp, scale, mu) {
			return
		}
		if op == 3 {
			if !w.fits(level, scale*a.ct.Scale, ma*mu) {
				return
			}
			t.v = mapSlots(a.v, v, func(x, y complex128) complex128 { return x * y })
			t.err = ma*eu + mu*a.err + eu*a.err
		} else {
			if !w.fits(level, scale, ma+mu) {
				return
			}
			t.v = mapSlots(a.v, v, func(x, y complex128) complex128 { return x + y })
			t.err = eu + a.err
		}
		pt := w.encode(v, lp, scale)
		x, y := ckks.Operand(a.ct), ckks.Operand(pt)
		if c.R.Intn(2) == 0 {
			x, y = y, x
		}
		if out != nil && c.R.Intn(2) == 0 {
			if out == b.ct {
				out = a.ct
			}
			level = outLevel(level, out)
			if !w.fits(level, math.Max(scale*a.ct.Scale, scale), ma*mu+ma+mu) {
				return
			}
			if op == 3 {
				ev.Mul(x, y, out)
			} else {
				ev.Add(x, y, out)
			}
			t.ct = out
		} else if op == 3 {
			t.ct = ev.MulNew(x, y)
		} else {
			t.ct = ev.AddNew(x, y)
		}
		done(level)
	case 4:
		k := w.rots[c.R.Intn(len(w.rots))]
		out, level := one()
		if !w.fits(level, a.ct.Scale, a.max()) {
			return
		}
		n := len(a.v)
		t.v = make([]complex128, n)
		for i := range t.v {
			t.v[i] = a.v[((i+k)%n+n)%n]
		}
		t.err = a.err + w.ksw(level, a.ct.Scale)
		switch {
		case w.fast != nil && out == nil:
			out = w.fast.RotateNew(a.ct, w.frtk[k])
		case w.fast != nil:
			w.fast.Rotate(a.ct, w.frtk[k], out)
		case out == nil:
			out = ev.RotateNew(a.ct, k)
		default:
			ev.Rotate(a.ct, k, out)
		}
		t.ct = out
		done(level)
	case 5:
		if ci || w.fast != nil {
			return
		}
		out, level := one()
		if !w.fits(level, a.ct.Scale, a.max()) {
			return
		}
		t.v = mapSlots(a.v, a.v, func(x, _ complex128) complex128 { return cmplx.Conj(x) })
		t.err = a.err + w.ksw(level, a.ct.Scale)
		if out == nil {
			out = ev.ConjugateNew(a.ct)
		} else {
			ev.Conjugate(a.ct, out)
		}
		t.ct = out
		done(level)
	case 6, 7:
		var k interface{}
		var z complex128
		switch c.R.Intn(4) {
		case 0:
			i := c.R.Intn(7) - 3
			k, z = i, complex(float64(i), 0)
		case 1:
			f := c.R.NormFloat64()
			k, z = f, complex(f, 0)
		default:
			z = complex(c.R.NormFloat64(), c.R.NormFloat64())
			if ci {
				z = complex(real(z), 0)
			}
			k = z
		}
		out, level := one()
		q := float64(p.Q()[level])
		m, az := a.max(), cmplx.Abs(z)
		if op == 6 {
			if !w.fits(level, a.ct.Scale*q, (m+1)*(az+1)) {
				return
			}
			t.v = mapSlots(a.v, a.v, func(x, _ complex128) complex128 { return x * z })
			t.err = a.err*az + (m+a.err)*(2/q)
			if out == nil {
				out = ev.MultByConstNew(a.ct, k)
			} else {
				ev.MultByConst(a.ct, k, out)
			}
		} else {
			if !w.fits(level, a.ct.Scale, m+az) {
				return
			}
			t.v = mapSlots(a.v, a.v, func(x, _ complex128) complex128 { return x + z })
			t.err = a.err + 2/a.ct.Scale
			if out == nil {
				out = ev.AddConstNew(a.ct, k)
			} else {
				ev.AddConst(a.ct, k, out)
			}
		}
		t.ct = out
		done(level)
	case 8:
		out, level := one()
		if !w.fits(level, a.ct.Scale, a.max()) {
			return
		}
		t.err = a.err
		if ci || c.R.Intn(3) == 0 {
			t.v = mapSlots(a.v, a.v, func(x, _ complex128) complex128 { return -x })
			if out == nil {
				out = ev.NegNew(a.ct)
			} else {
				ev.Neg(a.ct, out)
			}
		} else if c.R.Intn(2) == 0 {
			t.v = mapSlots(a.v, a.v, func(x, _ complex128) complex128 { return x * complex(0, 1) })
			if out == nil {
				out = ev.MultByiNew(a.ct)
			} else {
				ev.MultByi(a.ct, out)
			}
		} else {
			t.v = mapSlots(a.v, a.v, func(x, _ complex128) complex128 { return x * complex(0, -1) })
			if out == nil {
				out = ev.DivByiNew(a.ct)
			} else {
				ev.DivByi(a.ct, out)
			}
		}
		t.ct = out
		done(level)
	case 9, 10:
		if a.ct.Level() == 0 {
			return
		}
		min := p.DefaultScale() * math.Exp2(c.R.Float64()*4-2)
		level, scale := a.ct.Level(), a.ct.Scale
		for level > 0 && scale/float64(p.Q()[level]) >= min/2 {
			scale /= float64(p.Q()[level])
			level--
		}
		t.v = a.v
		t.err = a.err
		x := 1.0
		if ci {
			x = 2
		}
		if level < a.ct.Level() {
			t.err += w.spread(1+x*float64(p.HammingWeight()), scale)
		}
		t.ct = a.ct
		if c.R.Intn(2) == 0 {
			t.ct = ckks.NewCiphertext(p, 1, a.ct.Level(), 1)
		}
		if err := ev.Rescale(a.ct, min, t.ct); err != nil {
			c.Fail("rescale/refused", "%v", err)
			return
		}
		c.Check(math.Abs(t.ct.Scale/scale-1) < 1e-9, "rescale/scale", "scale %v instead of %v", t.ct.Scale, scale)
		done(level)
	case 11:
		n := c.R.Intn(a.ct.Level() + 1)
		level := a.ct.Level() - n
		if !w.fits(level, a.ct.Scale, a.max()) {
			return
		}
		t.v, t.err = a.v, a.err
		if c.R.Intn(2) == 0 {
			t.ct = ev.DropLevelNew(a.ct, n)
		} else {
			ev.DropLevel(a.ct, n)
			t.ct = a.ct
		}
		done(level)
	case 12:
		level := a.ct.Level()
		target := a.ct.Scale * math.Exp2(c.R.Float64()*6-2)
		if level == 0 || !w.fits(level-1, target*4, a.max()) || !w.fits(level, target*float64(p.Q()[level]), a.max()+1) {
			return
		}
		x := 1.0
		if ci {
			x = 2
		}
		t.v = a.v
		t.err = a.err + w.spread(2+x*float64(p.HammingWeight()), target) + (a.max()+1)*2*a.ct.Scale/target/float64(p.Q()[level])
		t.ct = a.ct
		ev.SetScale(a.ct, target)
		c.Check(a.ct.Scale == target, "setscale/scale", "scale %v instead of %v", a.ct.Scale, target)
		done(a.ct.Level())
	case 13:
		if w.fast != nil {
			return
		}
		if out != nil && (out == a.ct || out == b.ct) {
			out = nil
		}
		level := outLevel(a.ct.Level(), out)
		if !w.fits(level, a.ct.Scale, a.max()) {
			return
		}
		t.v, t.err, t.key2 = a.v, a.err+w.ksw(level, a.ct.Scale), true
		if out == nil {
			out = ev.SwitchKeysNew(a.ct, w.swk)
		} else {
			ev.SwitchKeys(a.ct, w.swk, out)
		}
		t.ct = out
		done(level)
	case 15: // x*y accumulated onto a product of the same scale
		if w.fast != nil {
			return
		}
		level := minInt(a.ct.Level(), b.ct.Level())
		scale := a.ct.Scale * b.ct.Scale
		ma, mb := a.max(), b.max()
		if !w.fits(level, scale, 2*ma*mb) {
			return
		}
		n := float64(2)
		acc := ev.MulRelinNew(a.ct, b.ct)
		ev.MulRelinAndAdd(b.ct, a.ct, acc)
		t.v = mapSlots(a.v, b.v, func(x, y complex128) complex128 { return 2 * x * y })
		t.err = n * (ma*b.err + mb*a.err + a.err*b.err + w.ksw(level, scale))
		t.ct = acc
		done(level)
	}
}

func (c *Case) standardPipeline() {
	types := []ring.Type{ring.Standard, ring.ConjugateInvariant}
	lo := 35 + c.R.Intn(15)
	maxN := 7
	if c.R.Intn(24) == 0 {
		maxN = 11
	}
	rp := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: maxN, minQ: 2, maxQ: 7, minP: 1, maxP: 3, lo: lo, hi: lo + 8, types: types})
	rp, err := rlwe.NewParameters(rp.LogN(), rp.Q(), rp.P(), 1+c.R.Intn(rp.N()), 3.2, rp.RingType())
	if err != nil {
		c.Fatal("parameters", "%v", err)
	}
	max := rp.LogN() - 1
	if rp.RingType() == ring.ConjugateInvariant {
		max++
	}
	ls := max
	if c.R.Intn(2) == 0 {
		ls = c.R.Intn(max + 1)
	}
	p, err := ckks.NewParameters(rp, ls, math.Exp2(float64(lo-7+c.R.Intn(5))))
	if err != nil {
		c.Fatal("parameters", "%v", err)
	}
	c.Feature("%s slots=%d", describe(rp), ls)
	kg := ckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair()
	sk2 := kg.GenSecretKey()
	w := &pipeline{c: c, p: p, logSlots: ls, ecd: ckks.NewEncoder(p), dec: ckks.NewDecryptor(p, sk), dec2: ckks.NewDecryptor(p, sk2)}
	w.encs = []ckks.Encryptor{ckks.NewEncryptor(p, pk), ckks.NewEncryptor(p, sk)}
	w.freshLim = [2]float64{float64(pkNoise(rp)), float64(bound(rp))}
	for i := 0; i < 3; i++ {
		w.rots = append(w.rots, c.R.Intn(2*p.N())-p.N())
	}
	rlk := kg.GenRelinearizationKey(sk, 1)
	rtks := kg.GenRotationKeysForRotations(w.rots, rp.RingType() == ring.Standard, sk)
	w.swk = kg.GenSwitchingKey(sk, sk2)
	w.ev = ckks.NewEvaluator(p, rlwe.EvaluationKey{Rlk: rlk, Rtks: rtks})
	w.run(24)
}

func (w *pipeline) run(n int) {
	w.encrypt()
	w.encrypt()
	for i := 0; i < n && !w.c.fail; i++ {
		if len(w.pool) == 0 || w.c.R.Intn(8) == 0 {
			w.encrypt()
			continue
		}
		w.step()
	}
	w.c.Count("pipelines", 1)
}

func (c *Case) fastPipeline() {
	pl := c.fastLit(6, false)
	lo := 60
	for _, q := range append(append([]uint64{}, pl.Q...), pl.P...) {
		lo = minInt(lo, bitlen(int(q)))
	}
	pl.DefaultScale = math.Exp2(float64(lo - 6))
	p := fckks.NewParametersFromLiteral(pl)
	rp := p.Parameters.Parameters
	kg := fckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair()
	w := &pipeline{c: c, p: p.Parameters, logSlots: p.LogSlots(), ecd: ckks.NewEncoder(p.Parameters), dec: ckks.NewDecryptor(p.Parameters, sk)}
	w.encs = []ckks.Encryptor{ckks.NewEncryptor(p.Parameters, pk), ckks.NewEncryptor(p.Parameters, sk)}
	w.freshLim = [2]float64{float64(pkNoise(rp)), float64(bound(rp))}
	w.frtk = map[int]*frlwe.RotationKey{}
	for i := 0; i < 2; i++ {
		k := c.R.Intn(2*p.N()) - p.N()
		w.rots = append(w.rots, k)
		w.frtk[k] = kg.GenRotKey(k, sk)
	}
	w.frlk = kg.GenRelinKey(sk)
	w.ev = ckks.NewEvaluator(p.Parameters, rlwe.EvaluationKey{})
	w.fast = fckks.NewEvaluator(p)
	w.run(16)

	// messages through the fast encryptor and decryptor
	enc, dec := fckks.NewEncryptor(p, pk), fckks.NewDecryptor(p, sk)
	for i := 0; i < 2; i++ {
		m := fckks.NewMessage(p)
		mx := 0.0
		for j := range m.Value {
			m.Value[j] = complex(2*c.R.Float64()-1, 2*c.R.Float64()-1)
			mx = 2
		}
		if !w.fits(p.MaxLevel(), p.DefaultScale(), mx) {
			return
		}
		ct := enc.EncryptMsgNew(m)
		got := dec.DecryptToMsgNew(ct)
		lim := w.spread(w.freshLim[0]+1, p.DefaultScale()) + math.Exp2(-36)
		for j := range m.Value {
			if !c.Check(len(got.Value) == len(m.Value) && cmplx.Abs(got.Value[j]-m.Value[j]) <= lim, "fast-message", "slot %d: %v instead of %v within %.3g", j, got.Value[j], m.Value[j], lim) {
				return
			}
		}
	}
}

func init() {
	register("H01", "one case = parameters (ring type, moduli, sparse or full slots), keys and one encoder, encryptor, evaluator and decryptor used for a random history of encryptions and homomorphic operations, in place, into used receivers and new; every intermediate result is decrypted, decoded and compared with the slot values computed in the clear within a worst-case error bound; distinct = parameters x operations",
		func(r *Run) {
			r.Cases("standard", 8000, 120000, func(c *Case) { c.standardPipeline() })
			r.Cases("fast", 2500, 40000, func(c *Case) { c.fastPipeline() })
		})
}
