package main

import (
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// blockMax is the largest product of alpha consecutive moduli of Q up to levelQ.
func blockMax(q []uint64, levelQ, alpha int) *big.Int {
	m := new(big.Int)
	for i := 0; i <= levelQ; i += alpha {
		j := i + alpha
		if j > levelQ+1 {
			j = levelQ + 1
		}
		if b := prodBig(q[i:j]); b.Cmp(m) > 0 {
			m = b
		}
	}
	return m
}

// kswNoise bounds the noise a key switch adds: before division by P, and after it. For uniformly random
// operands a 14-sigma bound is used for the part that comes from the key, else the worst case.
func kswNoise(p rlwe.Parameters, levelQ, levelP int, random bool, hOut int) (before, after *big.Int) {
	alpha := levelP + 1
	beta := (levelQ + alpha) / alpha
	x := 1.0
	if p.RingType() == ring.ConjugateInvariant {
		x = 2
	}
	n := float64(p.N())
	f := 2 * x * n * float64(beta) * float64(bound(p))
	if random {
		if g := 14 * x * math.Sqrt(n*float64(beta)) * (p.Sigma() + 1); g < f {
			f = g
		}
	}
	before = new(big.Int).Mul(blockMax(p.Q(), levelQ, alpha), big.NewInt(int64(f)+1))
	after = new(big.Int).Div(before, prodBig(p.P()[:levelP+1]))
	after.Add(after, big.NewInt(int64(x)*int64(hOut)+3))
	return
}

func small4(b, q *big.Int) bool { return new(big.Int).Lsh(b, 2).Cmp(q) < 0 }

// manyBlocks draws parameters whose operands have more blocks than fit between two lazy reductions, for the
// moduli of Q, of P, or both.
func (c *Case) manyBlocks() rlwe.Parameters {
	t := []ring.Type{ring.Standard, ring.ConjugateInvariant}[c.R.Intn(2)]
	logN := 4 + c.R.Intn(2)
	root := nthRootOf(1<<uint(logN), t)
	nP := 1 + c.R.Intn(2)
	nQ := nP * (9 + c.R.Intn(20))
	if nQ > 36 {
		nQ = 36
	}
	loP := 60
	if nP == 2 && c.R.Intn(2) == 0 { // auxiliary moduli of very different sizes, in any order
		nQ, loP = 32+c.R.Intn(8), 28
	}
	lo, hi := 59+c.R.Intn(2), 61
	switch c.R.Intn(3) {
	case 0:
		lo, hi = 28, 32
	case 1:
		lo, hi = 40, 61
	}
	ps := widePrimes(c.R, nQ, root, lo, hi, nil)
	if loP == 28 {
		x := append(widePrimes(c.R, 1, root, 28, 34, ps), widePrimes(c.R, 1, root, 60, 61, ps)...)
		if c.R.Intn(2) == 0 {
			x[0], x[1] = x[1], x[0]
		}
		ps = append(ps, x...)
	} else {
		ps = append(ps, widePrimes(c.R, nP, root, 60, 61, ps)...)
	}
	h := []int{1, 4, 1 << uint(logN-1), 1 << uint(logN)}[c.R.Intn(4)]
	p, err := rlwe.NewParameters(logN, ps[:nQ], ps[nQ:], h, 3.2, t)
	if err != nil {
		c.Fatal("params-refused", "%v", err)
	}
	c.Feature("%s h=%d", describe(p), h)
	return p
}

// largeBlocks draws parameters with many auxiliary moduli, hence blocks of many moduli.
func (c *Case) largeBlocks() rlwe.Parameters {
	t := []ring.Type{ring.Standard, ring.ConjugateInvariant}[c.R.Intn(2)]
	nP := 9 + c.R.Intn(8)
	if c.R.Intn(2) == 0 {
		nP = 33 + c.R.Intn(6)
	}
	nQ := nP + c.R.Intn(nP)
	if nQ > 48 {
		nQ = 48
	}
	lo := 40 + c.R.Intn(20)
	ps := widePrimes(c.R, nQ, nthRootOf(16, t), minInt(lo, 57), 61, nil)
	ps = append(ps, widePrimes(c.R, nP, nthRootOf(16, t), 60, 61, ps)...)
	p, err := rlwe.NewParameters(4, ps[:nQ], ps[nQ:], 1+c.R.Intn(16), 3.2, t)
	if err != nil {
		c.Fatal("params-refused", "%v", err)
	}
	c.Feature("%s h=%d", describe(p), p.HammingWeight())
	return p
}

// kswCase generates keys and switches several operands with them.
func (c *Case) kswCase(p rlwe.Parameters) {
	kg := rlwe.NewKeyGenerator(p)
	sk, sk2 := kg.GenSecretKey(), kg.GenSecretKey()
	_, s1 := c.skRef(p, sk, "ksw")
	_, s2 := c.skRef(p, sk2, "ksw")
	nQ := p.QCount()
	klq, klp := nQ-1, p.PCount()-1
	if c.R.Intn(3) == 0 {
		klq, klp = c.R.Intn(nQ), c.R.Intn(p.PCount())
	}
	swk := kg.GenSwitchingKey(sk, lowerSk(sk2, klq, klp))
	kk := snapSwk(swk)
	ks := rlwe.NewKeySwitcher(p)
	R := p.RingQ()
	var firstIn, firstC0, firstC1 *ring.Poly
	var firstLevel int
	for rep := 0; rep < 3; rep++ {
		if c.R.Intn(3) == 0 {
			ks = ks.ShallowCopy()
			c.Feature("copy")
		}
		lq := c.R.Intn(klq + 1)
		alpha := klp + 1
		beta := (lq + alpha) / alpha
		cx := ring.NewPoly(p.N(), nQ)
		random := c.R.Intn(2) == 0
		if random {
			cx = randPoly(c.R, p.N(), p.Q())
			for i := range cx.Coeffs {
				for j := range cx.Coeffs[i] {
					cx.Coeffs[i][j] = c.R.Uint64() % p.Q()[i]
				}
			}
		} else {
			fillPoly(c.R, cx, p.Q())
		}
		cx.IsNTT = c.R.Intn(2) == 0
		again := rep == 2 && firstIn != nil && c.R.Intn(2) == 0
		if again {
			cx, lq = firstIn, firstLevel
			beta = (lq + alpha) / alpha
			random = false
		}
		keep := snapPoly(cx)
		hoisted := c.R.Intn(3)
		c.Feature("klq=%d klp=%d lq=%d ntt=%v rnd=%v v=%d", klq, klp, lq, cx.IsNTT, random, hoisted)
		c0, c1 := ring.NewPoly(p.N(), nQ), ring.NewPoly(p.N(), nQ)
		d0, d1 := ring.NewPoly(p.N(), p.PCount()), ring.NewPoly(p.N(), p.PCount())
		for _, v := range []*ring.Poly{c0, c1, d0, d1} {
			dirty(c.R, v)
		}
		k0, k1 := snapPoly(c0), snapPoly(c1)
		target := coef(cx, R, lq, cx.IsNTT, false).mul(s1.upto(lq + 1))
		before, after := kswNoise(p, lq, klp, random, p.HammingWeight())
		Q := prodBig(p.Q()[:lq+1])
		P := prodBig(p.P()[:klp+1])
		s2q := s2.upto(lq + 1)
		outNTT := cx.IsNTT
		switch hoisted {
		case 0:
			ks.SwitchKeysInPlace(lq, cx, swk, c0, c1)
		case 1: // hoisted: one decomposition
			dec := make([]rlwe.PolyQP, p.QCount())
			for i := range dec {
				dec[i] = p.RingQP().NewPoly()
				dirty(c.R, dec[i].Q)
				dirty(c.R, dec[i].P)
			}
			ks.DecomposeNTT(lq, klp, alpha, cx, dec)
			in := coef(cx, R, lq, cx.IsNTT, false)
			for i := 0; i < beta; i++ {
				dg := coefQP(dec[i], p, lq, klp, true, false)
				v := dg.centered()
				lo, hi := i*alpha, (i+1)*alpha
				if hi > lq+1 {
					hi = lq + 1
				}
				blk := prodBig(p.Q()[lo:hi])
				if new(big.Int).Lsh(blk, 2).Cmp(prodBig(dg.m)) < 0 {
					c.Check(maxAbs(v).Cmp(new(big.Int).Lsh(blk, 1)) < 0, "digit-size", "digit %d is not below twice its block", i)
				}
				for j := lo; j < hi; j++ {
					for k := range in.v[j] {
						if in.v[j][k] != dg.v[j][k] {
							c.Fatal("digit-value", "digit %d differs from the operand modulo q%d at coefficient %d", i, j, k)
						}
					}
				}
				c.Event(p.N())
			}
			var kd []rlwe.PolyQP
			for _, d := range dec {
				kd = append(kd, snapQP(d))
			}
			for _, d := range dec {
				c.holdQP("decomposition", d)
			}
			ks.KeyswitchHoisted(lq, dec, swk, c0, c1, d0, d1)
			outNTT = true
			for i := range dec {
				c.Check(sameQP(kd[i], dec[i]), "decomposition-modified", "the hoisted key switch changed its decomposed operand")
			}
		case 2: // without the division by P, plain and hoisted
			dec := make([]rlwe.PolyQP, p.QCount())
			for i := range dec {
				dec[i] = p.RingQP().NewPoly()
			}
			ks.DecomposeNTT(lq, klp, alpha, cx, dec)
			h0, h1 := p.RingQP().NewPoly(), p.RingQP().NewPoly()
			ks.KeyswitchHoistedNoModDown(lq, dec, swk, h0.Q, h1.Q, h0.P, h1.P)
			ks.SwitchKeysInPlaceNoModDown(lq, cx, swk, c0, d0, c1, d1)
			a0, a1 := coefQP(rlwe.PolyQP{Q: c0, P: d0}, p, lq, klp, true, false), coefQP(rlwe.PolyQP{Q: c1, P: d1}, p, lq, klp, true, false)
			b0, b1 := coefQP(h0, p, lq, klp, true, false), coefQP(h1, p, lq, klp, true, false)
			c.Check(eqCoeffs(a0.v, b0.v) && eqCoeffs(a1.v, b1.v), "hoisted-differs", "plain and hoisted products over QP differ")
			full := newRNS(p.N(), a0.m, a0.t)
			for j := 0; j <= lq; j++ {
				w := modU(P, full.m[j])
				for k := range full.v[j] {
					full.v[j][k] = mulMod(target.v[j][k], w, full.m[j])
				}
			}
			e := a0.add(a1.mul(s2.rowsFor(nQ, lq, klp))).sub(full).maxAbs()
			c.Event(p.N())
			if small4(before, prodBig(a0.m)) {
				c.Check(e.Cmp(before) <= 0, "noise-qp", "product over QP is off by %v, more than %v", e, before)
			}
			// divide both by P exactly: the rounded quotient must open to cx*s1
			ks.BasisExtender.ModDownQPtoQNTT(lq, klp, c0, d0, c0)
			ks.BasisExtender.ModDownQPtoQNTT(lq, klp, c1, d1, c1)
			outNTT = true
		}
		o0, o1 := coef(c0, R, lq, outNTT, false), coef(c1, R, lq, outNTT, false)
		e := o0.add(o1.mul(s2q)).sub(target).maxAbs()
		c.Event(p.N())
		if small4(after, Q) {
			c.Check(e.Cmp(after) <= 0, "noise", "switched polynomial opens %v away from the original product, more than %v (N=%d level %d of %v, P %v)", e, after, p.N(), lq, p.Q(), p.P()[:klp+1])
			c.Count("noise_checked", 1)
		}
		c.Check(reducedPoly(&ring.Poly{Coeffs: c0.Coeffs[:lq+1]}, p.Q()) && reducedPoly(&ring.Poly{Coeffs: c1.Coeffs[:lq+1]}, p.Q()), "reduced", "result is not reduced")
		c.Check(eqCoeffs(c0.Coeffs[lq+1:], k0.Coeffs[lq+1:]) && eqCoeffs(c1.Coeffs[lq+1:], k1.Coeffs[lq+1:]), "above-level", "wrote above the level")
		c.Check(samePoly(keep, cx), "operand-modified", "the operand changed")
		for _, v := range []*ring.Poly{c0, c1, d0, d1} {
			c.holdPoly("result", v)
		}
		if hoisted == 0 {
			if again && firstC0 != nil {
				c.Check(eqCoeffs(firstC0.Coeffs[:lq+1], c0.Coeffs[:lq+1]) && eqCoeffs(firstC1.Coeffs[:lq+1], c1.Coeffs[:lq+1]), "history", "same call, different result after other calls")
			}
			if firstIn == nil {
				firstIn, firstC0, firstC1, firstLevel = snapPoly(cx), snapPoly(c0), snapPoly(c1), lq
			}
		}
	}
	c.Check(sameSwk(kk, swk), "key-modified", "key switching changed the key")
}

func init() {
	register("K03", "one case = parameters, pair of keys, switching key (full, or with fewer moduli), key switcher with a random history (reused, shallow copies), operand (uniform or extremal, either domain), level, dirty receivers; distinct = parameters x level x key levels x domain x variant",
		func(r *Run) {
			r.Cases("switch", 6000, 60000, func(c *Case) { c.kswCase(c.keyParams(6, 1)) })
			r.Cases("many-blocks", 500, 8000, func(c *Case) { c.kswCase(c.manyBlocks()) })
			r.Cases("large-blocks", 30, 300, func(c *Case) { c.kswCase(c.largeBlocks()) })
		})

	register("K04", "one case = pair of ring degrees or ring types, levels, domain, ciphertext; coefficient maps compared exactly, switching keys opened, and ciphertexts carried end to end; distinct = degrees x levels x direction x domain",
		func(r *Run) {
			r.Cases("map", 3000, 40000, func(c *Case) {
				t := []ring.Type{ring.Standard, ring.ConjugateInvariant}[c.R.Intn(2)]
				if t == ring.ConjugateInvariant {
					t = ring.Standard // the maps Y -> X^{N/n} are defined for the standard ring
				}
				a, b := c.logN(4, 8), c.logN(4, 8)
				big, sm := a, b
				if sm > big {
					big, sm = sm, big
				}
				ps := pickPrimes(c.R, c.few(4), nthRootOf(1<<uint(big), t), 25, 61)
				pb, psm := getRLWE(big, ps, nil, t), getRLWE(sm, ps, nil, t)
				in, out := pb, psm
				up := c.R.Intn(2) == 0
				if up {
					in, out = psm, pb
				}
				lin := c.R.Intn(len(ps))
				lout := c.R.Intn(lin + 1)
				deg := c.R.Intn(3)
				ntt := c.R.Intn(2) == 0
				if (up || a == b) && ntt {
					lout = lin // this map follows the level of its operand
				}
				c.Feature("%d->%d lin=%d lout=%d deg=%d ntt=%v", in.LogN(), out.LogN(), lin, lout, deg, ntt)
				ctIn, ctOut := rlwe.NewCiphertext(in, deg, lin), rlwe.NewCiphertext(out, deg, lout)
				for _, v := range ctIn.Value {
					fillPoly(c.R, v, ps)
					v.IsNTT = ntt
				}
				clean := !ntt && up // the coefficient map documents positions 0, N/n, ... only: start from a zero receiver
				for _, v := range ctOut.Value {
					if !clean {
						dirty(c.R, v)
					}
					v.IsNTT = ntt
				}
				keep := snapCt(ctIn)
				switch {
				case !ntt:
					rlwe.SwitchCiphertextRingDegree(ctIn, ctOut)
				case up:
					var small *ring.Ring
					if c.R.Intn(2) == 0 {
						small = in.RingQ()
					}
					rlwe.SwitchCiphertextRingDegreeNTT(ctIn, small, nil, ctOut)
				default:
					rlwe.SwitchCiphertextRingDegreeNTT(ctIn, out.RingQ(), in.RingQ(), ctOut)
				}
				c.Check(sameCt(keep, ctIn), "operand-modified", "the operand changed")
				for d := range ctOut.Value {
					c.Check(reducedPoly(ctOut.Value[d], ps), "reduced", "component %d is not reduced", d)
					x := coef(ctIn.Value[d], in.RingQ(), lout, ntt, false)
					y := coef(ctOut.Value[d], out.RingQ(), lout, ntt, false)
					for j := range y.v {
						want := make([]uint64, out.N())
						if up {
							gap := out.N() / in.N()
							for k := range x.v[j] {
								want[k*gap] = x.v[j][k]
							}
						} else {
							gap := in.N() / out.N()
							for k := range want {
								want[k] = x.v[j][k*gap]
							}
						}
						c.Event(out.N())
						c.Check(eqCoeffs([][]uint64{want}, y.v[j:j+1]), "value", "component %d row %d", d, j)
					}
				}
			})

			r.Cases("degree-keys", 700, 10000, func(c *Case) {
				big_ := c.logN(5, 6)
				sm := big_ - 1 - c.R.Intn(2)
				if sm < 4 {
					sm = 4
				}
				nq, np := 1+c.R.Intn(4), 1+c.R.Intn(3)
				ps := pickPrimes(c.R, nq+np, 2<<uint(big_), 30, 58)
				pb, psm := getRLWE(big_, ps[:nq], ps[nq:], ring.Standard), getRLWE(sm, ps[:nq], ps[nq:], ring.Standard)
				kgB, kgS := rlwe.NewKeyGenerator(pb), rlwe.NewKeyGenerator(psm)
				skB, skS := kgB.GenSecretKey(), kgS.GenSecretKey()
				_, sB := c.skRef(pb, skB, "deg")
				vS, sS := c.skRef(psm, skS, "deg")
				gap := pb.N() / psm.N()
				up := make([]*big.Int, pb.N())
				for i := range up {
					up[i] = new(big.Int)
				}
				for i := range vS {
					up[i*gap] = vS[i]
				}
				sUp := fromInts(up, sB.m, ring.Standard)
				dir := c.R.Intn(2)
				lq := c.R.Intn(nq)
				c.Feature("%s sm=%d dir=%d lq=%d", describe(pb), sm, dir, lq)
				_, after := kswNoise(pb, lq, np-1, false, pb.HammingWeight())
				if dir == 0 { // n -> N
					swk := kgB.GenSwitchingKey(skS, skB)
					c.checkSwk(pb, swk, sUp, sB, nq-1, np-1, "n-to-N")
					pt := rlwe.NewPlaintext(psm, lq)
					fillPoly(c.R, pt.Value, ps)
					pt.Value.IsNTT = true
					ct := rlwe.NewCiphertextNTT(psm, 1, lq)
					rlwe.NewEncryptor(psm, skS).Encrypt(pt, ct)
					mid := rlwe.NewCiphertextNTT(pb, 1, lq)
					rlwe.SwitchCiphertextRingDegreeNTT(ct, nil, nil, mid)
					o0, o1 := ring.NewPoly(pb.N(), lq+1), ring.NewPoly(pb.N(), lq+1)
					rlwe.NewKeySwitcher(pb).SwitchKeysInPlace(lq, mid.Value[1], swk, o0, o1)
					pb.RingQ().AddLvl(lq, o0, mid.Value[0], o0)
					got := coef(o0, pb.RingQ(), lq, true, false).add(coef(o1, pb.RingQ(), lq, true, false).mul(sB.upto(lq + 1)))
					m := coef(pt.Value, psm.RingQ(), lq, true, false)
					want := newRNS(pb.N(), got.m, got.t)
					for j := range m.v {
						for k := range m.v[j] {
							want.v[j][k*gap] = m.v[j][k]
						}
					}
					after.Add(after, big.NewInt(bound(psm)))
					if small4(after, prodBig(ps[:lq+1])) {
						e := got.sub(want).maxAbs()
						c.Event(pb.N())
						c.Check(e.Cmp(after) <= 0, "n-to-N/end-to-end", "message off by %v", e)
					}
					il, ip := c.R.Intn(nq), c.R.Intn(np) // an input key with fewer moduli
					c.checkSwk(pb, kgB.GenSwitchingKey(lowerSk(skS, il, ip), skB), sUp, sB, nq-1, np-1, "n-to-N/lower-input")
				} else {
					ol, op := c.R.Intn(nq), c.R.Intn(np) // an output key with fewer moduli
					low := kgB.GenSwitchingKey(skB, lowerSk(skS, ol, op))
					swk := kgB.GenSwitchingKey(skB, skS)
					c.checkSwk(pb, swk, sB, sUp, nq-1, np-1, "N-to-n")
					c.checkSwk(pb, low, sB, sUp.rowsFor(nq, ol, op), ol, op, "N-to-n/lower-output")
					pt := rlwe.NewPlaintext(pb, lq)
					fillPoly(c.R, pt.Value, ps)
					pt.Value.IsNTT = true
					ct := rlwe.NewCiphertextNTT(pb, 1, lq)
					rlwe.NewEncryptor(pb, skB).Encrypt(pt, ct)
					o := rlwe.NewCiphertextNTT(pb, 1, lq)
					rlwe.NewKeySwitcher(pb).SwitchKeysInPlace(lq, ct.Value[1], swk, o.Value[0], o.Value[1])
					pb.RingQ().AddLvl(lq, o.Value[0], ct.Value[0], o.Value[0])
					res := rlwe.NewCiphertextNTT(psm, 1, lq)
					rlwe.SwitchCiphertextRingDegreeNTT(o, psm.RingQ(), pb.RingQ(), res)
					got := phase(res, psm.RingQ(), lq, sS, true)
					m := coef(pt.Value, pb.RingQ(), lq, true, false)
					want := newRNS(psm.N(), got.m, got.t)
					for j := range want.v {
						for k := range want.v[j] {
							want.v[j][k] = m.v[j][k*gap]
						}
					}
					after.Add(after, big.NewInt(bound(pb)))
					if small4(after, prodBig(ps[:lq+1])) {
						e := got.sub(want).maxAbs()
						c.Event(psm.N())
						c.Check(e.Cmp(after) <= 0, "N-to-n/end-to-end", "message off by %v", e)
					}
				}
			})

			r.Cases("ring-swap-keys", 400, 6000, func(c *Case) {
				logN := c.logN(5, 6)
				nq, np := 1+c.R.Intn(4), 1+c.R.Intn(3)
				ps := pickPrimes(c.R, nq+np, 2<<uint(logN), 30, 58)
				std := getRLWE(logN, ps[:nq], ps[nq:], ring.Standard)
				ci := getRLWE(logN-1, ps[:nq], ps[nq:], ring.ConjugateInvariant)
				kg := rlwe.NewKeyGenerator(std)
				skStd := kg.GenSecretKey()
				skCI := rlwe.NewKeyGenerator(ci).GenSecretKey()
				_, s := c.skRef(std, skStd, "swap")
				_, u := c.skRef(ci, skCI, "swap")
				k1, k2 := snapQP(skStd.Value), snapQP(skCI.Value)
				w := rns{m: u.m, t: ring.Standard}
				for i := range u.v {
					w.v = append(w.v, ciUnfold(u.v[i], u.m[i]))
				}
				lq, lp := nq-1, np-1
				lowered := c.R.Intn(3) == 0
				in := skStd
				if lowered { // the standard key has fewer moduli
					lq = c.R.Intn(nq)
					in = lowerSk(skStd, lq, lp)
				}
				c.Feature("%s lq=%d", describe(std), lq)
				var toCI, toStd *rlwe.SwitchingKey
				if c.R.Intn(3) == 0 { // the scheme's name for the same keys
					cp, err := ckks.NewParameters(std, c.R.Intn(logN), 8)
					if err != nil {
						c.Fatal("params", "%v", err)
					}
					a, b := ckks.NewKeyGenerator(cp).GenSwitchingKeysForBridge(in, skCI)
					toCI, toStd = &a.SwitchingKey, &b.SwitchingKey
				} else {
					toCI, toStd = kg.GenSwitchingKeysForRingSwap(in, skCI)
				}
				c.checkSwk(std, toCI, s, w, nq-1, np-1, "std-to-ci")
				c.checkSwk(std, toStd, w, s.rowsFor(nq, lq, lp), lq, lp, "ci-to-std")
				c.Check(sameQP(k1, skStd.Value) && sameQP(k2, skCI.Value), "secret-modified", "key generation changed a secret key")
			})
		})
}
