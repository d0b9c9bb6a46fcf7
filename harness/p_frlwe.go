package main

import (
	"fmt"
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// fastLit draws parameters of the fast key switching: Q and P anywhere between 25 and 58 bits, blocks of gamma
// moduli of the joint chain, and just enough 60 or 61-bit moduli T to hold the sums of products without wrap-around.
func (c *Case) fastLit(maxLogN int, many bool) fckks.ParametersLiteral {
	return c.fastLitOf(maxLogN, many, false)
}

func (c *Case) fastLitOf(maxLogN int, many, large bool) fckks.ParametersLiteral {
	logN := c.logN(4, maxLogN)
	N := 1 << uint(logN)
	alpha := 1 + c.R.Intn(4)
	nQ := 1 + c.R.Intn(9)
	lo := 25 + c.R.Intn(36)
	hi := minInt(lo+3, 61)
	if c.R.Intn(3) == 0 {
		lo, hi = 25, 61
	}
	if c.Large {
		if c.largeMin < 14 {
			logN = minInt(logN, 11)
		}
		N = 1 << uint(logN)
		alpha, nQ = 1+c.R.Intn(2), 1+c.R.Intn(4)
		lo = maxInt(lo, 28)
		hi = minInt(lo+20, 61)
	}
	if many { // more digits than fit between two lazy reductions over T
		alpha = 1 + c.R.Intn(2)
		nQ = alpha * (9 + c.R.Intn(12))
		lo, hi = []int{30, 44, 55, 60}[c.R.Intn(4)], 61
	}
	if large && !many {
		alpha = 5 + c.R.Intn(20)
		nQ = 1 + c.R.Intn(2*alpha)
		maxLogN = 5
		logN = 4 + c.R.Intn(2)
		N = 1 << uint(logN)
		lo, hi = minInt(lo, 57), 61
	}
	ps := widePrimes(c.R, nQ+alpha, uint64(2*N), lo, hi, nil)
	pl := fckks.ParametersLiteral{LogN: logN, Q: ps[:nQ], P: ps[nQ:], Gamma: 1 + c.R.Intn(nQ+alpha)}
	if pl.Gamma > 9 && c.R.Intn(4) > 0 {
		pl.Gamma = 1 + c.R.Intn(9)
	}
	pl.H = []int{0, 1, N / 4, N, 1 + c.R.Intn(N)}[c.R.Intn(5)]
	if c.R.Intn(3) > 0 {
		pl.Sigma = []float64{3.2, 5, 8.5}[c.R.Intn(3)]
	}
	pl.LogSlots = c.R.Intn(logN) // zero stands for all
	pl.DefaultScale = float64(uint64(1) << uint(lo-2))
	R := append(append([]uint64{}, pl.P...), pl.Q...)
	beta := (nQ + alpha - 1) / alpha
	need := new(big.Int).Mul(blockMax(pl.Q, nQ-1, alpha), blockMax(R, len(R)-1, pl.Gamma))
	need.Mul(need, big.NewInt(int64(4*N*beta)))
	avoid := ps
	bt := 60 + c.R.Intn(2) // the largest primes the library takes leave the least room for lazy sums
	bl := bt
	switch c.R.Intn(4) {
	case 0: // all sizes together
		bl = 34
	case 1: // all of one smaller size, possibly below the moduli of Q
		bl = 34 + c.R.Intn(27)
		bt = bl
	}
	for prodBig(pl.T).Cmp(need) <= 0 {
		lo, hi := bl, bt
		if left := new(big.Int).Div(need, prodBig(pl.T)).BitLen() + 2; left < lo && left > 30 { // the last one just large enough
			lo, hi = left, left
		}
		t := widePrimes(c.R, 1, uint64(2*N), lo, hi, append(append([]uint64{}, avoid...), pl.T...))
		pl.T = append(pl.T, t[0])
	}
	c.Feature("logN=%d Q=%v P=%v T=%v gamma=%d h=%d sigma=%v slots=%d", logN, pl.Q, pl.P, pl.T, pl.Gamma, pl.H, pl.Sigma, pl.LogSlots)
	return pl
}

func frlweOf(pl fckks.ParametersLiteral) frlwe.Parameters {
	return frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: pl.LogN, Q: pl.Q, P: pl.P, T: pl.T, H: pl.H, Sigma: pl.Sigma, Gamma: pl.Gamma})
}

// openFast rebuilds, from its integer blocks over T, the switching key over QP that a fast key stands for.
func (c *Case) openFast(p frlwe.Parameters, b, a *frlwe.SwitchingKey, sig string) *rlwe.SwitchingKey {
	nP, nQ, g := p.PCount(), p.QCount(), p.Gamma()
	R := append(append([]uint64{}, p.P()...), p.Q()...)
	blocks := (len(R) + g - 1) / g
	beta := (nQ + nP - 1) / nP
	T := p.RingT()
	out := &rlwe.SwitchingKey{}
	for i := 0; i < beta; i++ {
		var v [2]rlwe.PolyQP
		for k, f := range []*frlwe.SwitchingKey{b, a} {
			if len(f.Value) != beta || len(f.Value[i]) != blocks {
				c.Fatal(sig+"/shape", "key of %d digits and %d blocks instead of %d and %d", len(f.Value), len(f.Value[i]), beta, blocks)
			}
			rows := newRNS(p.N(), R, ring.Standard)
			for j := 0; j < blocks; j++ {
				x := f.Value[i][j]
				if !c.Check(reducedPoly(x, T.Modulus), sig+"/reduced", "digit %d block %d is not reduced", i, j) {
					c.Fatal(sig+"/reduced", "stop")
				}
				vals := coef(x, T, len(T.Modulus)-1, true, true).centered()
				lo, hi := j*g, (j+1)*g
				if hi > len(R) {
					hi = len(R)
				}
				lim := new(big.Int).Lsh(prodBig(R[lo:hi]), 1)
				c.Check(maxAbs(vals).Cmp(lim) <= 0, sig+"/block-size", "digit %d block %d exceeds twice its moduli: %v", i, j, maxAbs(vals))
				for r := lo; r < hi; r++ {
					for t := range vals {
						rows.v[r][t] = modU(vals[t], R[r])
					}
				}
			}
			P := rns{m: R[:nP], t: ring.Standard, v: rows.v[:nP]}
			Q := rns{m: R[nP:], t: ring.Standard, v: rows.v[nP:]}
			v[k] = rlwe.PolyQP{Q: Q.poly(p.RingQ(), true, true), P: P.poly(p.RingP(), true, true)}
		}
		out.Value = append(out.Value, v)
	}
	return out
}

func sameFast(a, b *frlwe.SwitchingKey) bool {
	for i := range a.Value {
		for j := range a.Value[i] {
			if !samePoly(a.Value[i][j], b.Value[i][j]) {
				return false
			}
		}
	}
	return len(a.Value) == len(b.Value)
}

func snapFast(a *frlwe.SwitchingKey) *frlwe.SwitchingKey {
	o := &frlwe.SwitchingKey{}
	for i := range a.Value {
		var row []*ring.Poly
		for _, x := range a.Value[i] {
			row = append(row, snapPoly(x))
		}
		o.Value = append(o.Value, row)
	}
	return o
}

func rotElt(p rlwe.Parameters, k int) uint64 {
	root := int(p.RingQ().NthRoot)
	return powMod(5, uint64(((k%root)+root)%root), uint64(root))
}

func invElt(p rlwe.Parameters, g uint64) uint64 {
	root := p.RingQ().NthRoot
	return powMod(g, root-1, root)
}

func (c *Case) fastSwitch(many bool) {
	pl := c.fastLitOf(6, many, !many && c.R.Intn(8) == 0)
	p := frlweOf(pl)
	kg := frlwe.NewKeyGenerator(p)
	sk := kg.GenSecretKey()
	_, s := c.skRef(p.Parameters, sk, "fast")
	var f [2]*frlwe.SwitchingKey
	target, out := s, s // what the operand is multiplied with, and the secret that opens the result
	if c.R.Intn(2) == 0 {
		f = kg.GenRelinKey(sk).Value
		target = s.mul(s)
		c.Feature("relin")
	} else {
		k := c.R.Intn(2*p.N()) - p.N()
		f = kg.GenRotKey(k, sk).Value
		out = s.aut(invElt(p.Parameters, rotElt(p.Parameters, k)))
		c.Feature("rot %d", k)
	}
	k0, k1 := snapFast(f[0]), snapFast(f[1])
	ksw := frlwe.NewKeySwitcher(p)
	R := p.RingQ()
	nQ, levelP := p.QCount(), p.PCount()-1
	var old [3]*ring.Poly
	oldLevel := -1
	for rep := 0; rep < 4; rep++ {
		lq := c.R.Intn(nQ)
		if rep == 0 {
			lq = nQ - 1
		}
		a := ring.NewPoly(p.N(), nQ)
		random := c.R.Intn(3) > 0
		if random {
			for i := range a.Coeffs {
				for j := range a.Coeffs[i] {
					a.Coeffs[i][j] = c.R.Uint64() % p.Q()[i]
				}
			}
		} else {
			fillPoly(c.R, a, p.Q())
		}
		again := rep == 3 && oldLevel >= 0
		if again {
			a, lq, random = old[0], oldLevel, false
		}
		if c.R.Intn(2) == 0 && !again {
			a.Coeffs = a.Coeffs[:lq+1]
		}
		keep := snapPoly(a)
		c.Feature("lq=%d rnd=%v", lq, random)
		c0, c1 := ring.NewPoly(p.N(), nQ), ring.NewPoly(p.N(), nQ)
		dirty(c.R, c0)
		dirty(c.R, c1)
		above := [2]*ring.Poly{snapPoly(c0), snapPoly(c1)}
		ksw.SwitchKey(lq, a, f[0], f[1], c0, c1)
		c.Check(samePoly(keep, a), "operand-modified", "the operand changed")
		_, after := kswNoise(p.Parameters, lq, levelP, random, p.HammingWeight())
		o0, o1 := coef(c0, R, lq, false, false), coef(c1, R, lq, false, false)
		in := coef(a, R, lq, false, false)
		e := o0.add(o1.mul(out.upto(lq + 1))).sub(in.mul(target.upto(lq + 1))).maxAbs()
		c.Event(p.N())
		if small4(after, prodBig(p.Q()[:lq+1])) {
			c.Check(e.Cmp(after) <= 0, "noise", "level %d: switched polynomial opens %v away from the original product, more than %v", lq, e, after)
			c.Count("noise_checked", 1)
		}
		c.Check(reducedPoly(&ring.Poly{Coeffs: c0.Coeffs[:lq+1]}, p.Q()) && reducedPoly(&ring.Poly{Coeffs: c1.Coeffs[:lq+1]}, p.Q()), "reduced", "result is not reduced")
		c.holdPoly("result", c0)
		c.holdPoly("result", c1)
		c.Check(eqCoeffs(c0.Coeffs[lq+1:], above[0].Coeffs[lq+1:]) && eqCoeffs(c1.Coeffs[lq+1:], above[1].Coeffs[lq+1:]), "above-level", "wrote above the level")
		if again {
			c.Check(eqCoeffs(old[1].Coeffs[:lq+1], c0.Coeffs[:lq+1]) && eqCoeffs(old[2].Coeffs[:lq+1], c1.Coeffs[:lq+1]), "history", "same call, different result after other calls")
		} else if oldLevel < 0 || c.R.Intn(2) == 0 {
			old, oldLevel = [3]*ring.Poly{snapPoly(a), snapPoly(c0), snapPoly(c1)}, lq
		}
	}
	c.Check(sameFast(k0, f[0]) && sameFast(k1, f[1]), "key-modified", "key switching changed the key")
	a := ring.NewPoly(p.N(), nQ)
	a.IsNTT = true
	bad, _, _ := c.Try(func() { ksw.SwitchKey(nQ-1, a, f[0], f[1], ring.NewPoly(p.N(), nQ), ring.NewPoly(p.N(), nQ)) })
	c.Check(bad, "ntt-accepted", "an operand in the NTT domain was accepted")
}

func init() {
	register("F01", "one case = degrees, moduli of Q, P and T, block length, secret density; fast keys are rebuilt from their integer blocks over T and opened with the secret, and key switching runs at several levels with a history; distinct = parameters x key kind x levels",
		func(r *Run) {
			r.Cases("keys", 1000, 15000, func(c *Case) {
				p := frlweOf(c.fastLitOf(6, c.R.Intn(8) == 0, c.R.Intn(12) == 0))
				kg := frlwe.NewKeyGenerator(p)
				var sk *rlwe.SecretKey
				if c.R.Intn(2) == 0 {
					sk = kg.GenSecretKey()
				} else {
					sk, _ = kg.GenKeyPair()
				}
				pk := kg.GenPublicKey(sk)
				_, s := c.skRef(p.Parameters, sk, "fast")
				pb, pa := coefQP(pk.Value[0], p.Parameters, p.MaxLevel(), p.PCount()-1, true, false), coefQP(pk.Value[1], p.Parameters, p.MaxLevel(), p.PCount()-1, true, false)
				c.Check(pb.add(pa.mul(s)).maxAbs().Cmp(big.NewInt(bound(p.Parameters))) <= 0, "public", "public key does not open to noise")
				keep := snapQP(sk.Value)
				lq, lp := p.QCount()-1, p.PCount()-1
				for rep := 0; rep < 3; rep++ {
					if c.R.Intn(2) == 0 {
						k := kg.GenRelinKey(sk)
						c.checkSwk(p.Parameters, c.openFast(p, k.Value[0], k.Value[1], "relin"), s.mul(s), s, lq, lp, "relin")
					} else {
						k := c.R.Intn(4*p.N()) - 2*p.N()
						c.Feature("k=%d", k)
						rk := kg.GenRotKey(k, sk)
						g := rotElt(p.Parameters, k)
						c.Check(rotElt(p.Parameters, int(rk.Rotidx)) == g, "rot/index", "key for rotation %d says %d", k, int(rk.Rotidx))
						c.checkSwk(p.Parameters, c.openFast(p, rk.Value[0], rk.Value[1], "rot"), s, s.aut(invElt(p.Parameters, g)), lq, lp, "rot")
					}
				}
				c.Check(sameQP(keep, sk.Value), "secret-modified", "generating keys changed the secret key")
			})
			r.Cases("switch", 1500, 25000, func(c *Case) { c.fastSwitch(false) })
			r.Cases("many-digits", 250, 4000, func(c *Case) { c.fastSwitch(true) })
			r.Cases("noise-law", 8, 100, func(c *Case) { c.fastNoise(false) })
			r.Cases("literal", 300, 3000, func(c *Case) {
				pl := c.fastLit(7, false)
				p := frlweOf(pl)
				q, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: pl.LogN, Q: pl.Q, P: pl.P, H: pl.H, Sigma: pl.Sigma})
				if err != nil {
					c.Fatal("refused", "%v", err)
				}
				c.Check(p.Parameters.Equals(q), "rlwe", "the ring parameters differ from those of the literal")
				c.Check(p.Gamma() == pl.Gamma, "gamma", "gamma %d instead of %d", p.Gamma(), pl.Gamma)
				c.Check(fmt.Sprint(p.RingT().Modulus) == fmt.Sprint(pl.T), "T", "moduli T %v", p.RingT().Modulus)
				c.Check(fmt.Sprint(p.RingR().Modulus) == fmt.Sprint(append(append([]uint64{}, pl.P...), pl.Q...)), "R", "moduli R %v", p.RingR().Modulus)
			})
		})

	register("F02", "one case = fast CKKS parameters, keys, encryptor, decryptor and evaluator with a history of operations at several levels and receivers; every result is opened with the secret and compared with exact integer arithmetic on the operands; distinct = parameters x operations x levels x receivers",
		func(r *Run) {
			r.Cases("operate", 5000, 60000, func(c *Case) { c.fastCKKS() })
			r.Cases("noise-law", 8, 100, func(c *Case) { c.fastNoise(true) })
		})
}

// fastNoise: the noise of public and fast keys has the deviation of the parameters, and mean zero.
func (c *Case) fastNoise(scheme bool) {
	c.Large, c.largeMin, c.largeMax = true, 11, 11
	pl := c.fastLit(11, false)
	for len(pl.Q) < 2 {
		pl = c.fastLit(11, false)
	}
	pl.Sigma = []float64{0, 2, 3.2, 5, 8.5, 15}[c.R.Intn(6)]
	sigma := pl.Sigma
	if sigma == 0 {
		sigma = 3.2
	}
	c.Feature("sigma=%v", sigma)
	p := frlweOf(pl)
	var kg *frlwe.KeyGenerator
	if scheme {
		kg = fckks.NewKeyGenerator(fckks.NewParametersFromLiteral(pl))
	} else {
		kg = frlwe.NewKeyGenerator(p)
	}
	sk := kg.GenSecretKey()
	_, s := c.skRef(p.Parameters, sk, "fast")
	law := func(what string, e rns) {
		n, s2, sum := 0.0, 0.0, 0.0
		for _, x := range e.centered() {
			f, _ := new(big.Float).SetInt(x).Float64()
			n++
			sum += f
			s2 += f * f
		}
		want := math.Sqrt(sigma*sigma + 1.0/12)
		sd := math.Sqrt(s2 / n)
		c.Event(int(n))
		c.Check(math.Abs(sd-want) < 8*want/math.Sqrt(2*n)+0.01, "deviation", "noise of the %s has deviation %v instead of %v over %v coefficients", what, sd, want, n)
		c.Check(math.Abs(sum) < 8*want*math.Sqrt(n), "mean", "noise of the %s sums to %v over %v coefficients", what, sum, n)
	}
	pk := kg.GenPublicKey(sk)
	lp := p.PCount() - 1
	pb, pa := coefQP(pk.Value[0], p.Parameters, p.MaxLevel(), lp, true, false), coefQP(pk.Value[1], p.Parameters, p.MaxLevel(), lp, true, false)
	law("public key", pb.add(pa.mul(s)))
	digits := func(what string, f [2]*frlwe.SwitchingKey, in, out rns) {
		k := c.openFast(p, f[0], f[1], what)
		target := in.scale(prodBig(p.P()))
		for i, v := range k.Value {
			b, a := coefQP(v[0], p.Parameters, p.MaxLevel(), lp, true, true), coefQP(v[1], p.Parameters, p.MaxLevel(), lp, true, true)
			e := b.add(a.mul(out))
			for j := i * p.PCount(); j < (i+1)*p.PCount() && j < p.QCount(); j++ { // the moduli of the digit carry the secret
				for t := range e.v[j] {
					e.v[j][t] = subMod(e.v[j][t], target.v[j][t], e.m[j])
				}
			}
			law(what, e)
		}
	}
	digits("relinearization key", kg.GenRelinKey(sk).Value, s.mul(s), s)
	k := c.R.Intn(2*p.N()) - p.N()
	digits("rotation key", kg.GenRotKey(k, sk).Value, s, s.aut(invElt(p.Parameters, rotElt(p.Parameters, k))))
}

func (c *Case) fastCKKS() {
	pl := c.fastLit(6, false)
	p := fckks.NewParametersFromLiteral(pl)
	kg := fckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair()
	rp := p.Parameters.Parameters
	_, s := c.skRef(rp, sk, "fckks")
	rlk := kg.GenRelinKey(sk)
	rotk := c.R.Intn(2*p.N()) - p.N()
	rtk := kg.GenRotKey(rotk, sk)
	enc, dec, ev := fckks.NewEncryptor(p, pk), fckks.NewDecryptor(p, sk), fckks.NewEvaluator(p)
	R := p.RingQ()
	open := func(ct *ckks.Ciphertext) rns { return phase(ct.Ciphertext, R, ct.Level(), s, true) }
	slots := p.Slots()
	randMsg := func() *fckks.Message {
		m := fckks.NewMessage(p)
		c.Check(m.Slots() == slots && len(m.Value) == slots, "message-size", "message of %d slots", m.Slots())
		for i := range m.Value {
			m.Value[i] = complex(2*c.R.Float64()-1, 2*c.R.Float64()-1)
		}
		return m
	}
	pool := []*ckks.Ciphertext{}
	for i := 0; i < 2; i++ {
		m := randMsg()
		keep := append([]complex128{}, m.Value...)
		var ct *ckks.Ciphertext
		if c.R.Intn(2) == 0 {
			ct = enc.EncryptMsgNew(m)
			c.Check(ct.Level() == p.MaxLevel(), "encrypt-level", "level %d", ct.Level())
		} else {
			l := c.R.Intn(p.MaxLevel() + 1)
			ct = ckks.NewCiphertext(p.Parameters, 1, l, 7)
			for _, v := range ct.Value {
				dirty(c.R, v)
			}
			enc.EncryptMsg(m, ct)
			c.Check(ct.Level() == l, "encrypt-level", "level %d instead of %d", ct.Level(), l)
		}
		c.Check(ct.Scale == p.DefaultScale(), "encrypt-scale", "scale %v instead of %v", ct.Scale, p.DefaultScale())
		for j := range keep {
			c.Check(keep[j] == m.Value[j], "message-modified", "encryption changed the message")
		}
		want := embed(c, keep, p.LogSlots(), ct.Scale, p.N(), ring.Standard)
		e := diffBig(open(ct), want)
		lim := big.NewInt(pkNoise(rp) + 1)
		lim.Add(lim, floatSlack(ct.Scale, 1))
		c.Event(p.N())
		c.Check(e.Cmp(lim) <= 0, "encrypt", "fresh ciphertext opens %v away from the encoding of the message, more than %v", e, lim)
		c.holdCt("encrypt", ct)
		pool = append(pool, ct)
	}
	for step := 0; step < 5; step++ {
		a, b := pool[c.R.Intn(len(pool))], pool[c.R.Intn(len(pool))]
		op := c.R.Intn(7)
		level := a.Level()
		if (op <= 2) && b.Level() < level {
			level = b.Level()
		}
		// receiver: new, fresh at some level (dirty), or one of the operands
		recv := c.R.Intn(4)
		var out *ckks.Ciphertext
		switch recv {
		case 0:
		case 1, 2:
			l := c.R.Intn(p.MaxLevel() + 1)
			deg := 1
			if op == 2 && c.R.Intn(2) == 0 {
				deg = 2
			}
			out = ckks.NewCiphertext(p.Parameters, deg, l, float64(1+c.R.Intn(1000)))
			for _, v := range out.Value {
				dirty(c.R, v)
			}
			if op <= 1 && out.Scale != a.Scale { // the evaluator of additions reads nothing of the receiver but its level
				out.Scale = a.Scale
			}
			if l < level {
				level = l
			}
		case 3:
			out = a
			if op <= 2 && c.R.Intn(2) == 0 {
				out = b
			}
			if out.Level() < level {
				level = out.Level()
			}
		}
		if op <= 1 && a.Scale != b.Scale {
			continue
		}
		c.Feature("op%d recv%d %d,%d->%d", op, recv, a.Level(), b.Level(), level)
		ra, rb := open(a).upto(level+1), open(b)
		if op <= 2 {
			rb = rb.upto(level + 1)
		}
		ka, kb := snapCt(a.Ciphertext), snapCt(b.Ciphertext)
		sa, sb := a.Scale, b.Scale
		full := level
		_, noise := kswNoise(rp, full, p.PCount()-1, false, p.HammingWeight())
		var want rns
		wantScale := sa
		slack := big.NewInt(0)
		isNTT := true
		switch op {
		case 0, 1:
			f := ra.add
			if op == 1 {
				f = ra.sub
			}
			want = f(rb)
			switch {
			case out == nil && op == 0:
				out = ev.AddNew(a, b)
			case out == nil:
				out = ev.SubNew(a, b)
			case op == 0:
				ev.Add(a, b, out)
			default:
				ev.Sub(a, b, out)
			}
		case 2:
			want, wantScale, slack = ra.mul(rb), sa*sb, noise
			if out == nil {
				out = ev.MulRelinNew(a, b, rlk)
			} else {
				ev.MulRelin(a, b, rlk, out)
			}
		case 3, 4:
			want, slack = ra.aut(rotElt(rp, rotk)), noise
			if out == nil {
				out = ev.RotateNew(a, rtk)
			} else {
				ev.Rotate(a, rtk, out)
			}
		case 5: // the relinearization key as a switching key: the second component is taken times s^2
			sl := s.upto(level + 1)
			want = coef(a.Value[0], R, level, true, false).add(coef(a.Value[1], R, level, true, false).mul(sl).mul(sl))
			slack = noise
			if out == nil {
				out = ev.SwitchKeysNew(a, rlk.Value)
			} else {
				ev.SwitchKeys(a, rlk.Value, out)
			}
		case 6: // the same outside of the NTT domain
			in := a.CopyNew()
			for _, v := range in.Value {
				R.InvNTTLvl(in.Level(), v, v)
				v.IsNTT = false
			}
			kin := snapCt(in.Ciphertext)
			sl := s.upto(level + 1)
			want = coef(a.Value[0], R, level, true, false).add(coef(a.Value[1], R, level, true, false).mul(sl).mul(sl))
			slack = noise
			if out == nil || recv == 3 {
				out = ev.SwitchKeysNew(in, rlk.Value)
				want, level = want.upto(out.Level()+1), out.Level()
			} else {
				ev.SwitchKeys(in, rlk.Value, out)
			}
			c.Check(sameCt(kin, in.Ciphertext), "operand-modified", "SwitchKeys changed its operand")
			isNTT = false
		}
		c.Check(out.Degree() == 1, "degree", "op %d: result of degree %d", op, out.Degree())
		if !c.Check(out.Level() == level, "level", "op %d: result at level %d instead of %d", op, out.Level(), level) {
			return
		}
		c.Check(out.Scale == wantScale, "scale", "op %d: scale %v instead of %v", op, out.Scale, wantScale)
		c.Check(out.Value[0].IsNTT == isNTT && out.Value[1].IsNTT == isNTT, "domain", "op %d: result flagged with the wrong domain", op)
		for _, v := range out.Value {
			c.Check(reducedPoly(v, p.Q()), "reduced", "op %d: result is not reduced", op)
		}
		if a != out {
			c.Check(sameCt(ka, a.Ciphertext) && a.Scale == sa, "operand-modified", "op %d changed its first operand", op)
		}
		if b != out {
			c.Check(sameCt(kb, b.Ciphertext) && b.Scale == sb, "operand-modified", "op %d changed its second operand", op)
		}
		e := phase(out.Ciphertext, R, level, s, isNTT).sub(want).maxAbs()
		c.Event(p.N())
		if small4(slack, prodBig(p.Q()[:level+1])) {
			c.Check(e.Cmp(slack) <= 0, fmt.Sprintf("value%d", op), "op %d recv %d level %d: opens %v away from the expected integers, more than %v", op, recv, level, e, slack)
			c.Count("exact_results", 1)
		}
		if !isNTT {
			for _, v := range out.Value {
				R.NTTLvl(level, v, v)
				v.IsNTT = true
			}
		}
		c.holdCt(fmt.Sprintf("value%d", op), out)
		mem := append([]*ring.Poly{}, out.Value...)
		for _, x := range pool {
			if x != out {
				mem = append(mem, x.Value...)
			}
		}
		c.Check(!shared(mem...), "shared-memory", "op %d: the result shares memory with another ciphertext or within itself", op)
		if out.Scale < 1e80 {
			found := false
			for _, x := range pool {
				found = found || x == out
			}
			if !found {
				pool = append(pool, out)
			}
		} else {
			return
		}
		// decoding follows the opened polynomial, whatever was decrypted before
		if c.R.Intn(2) == 0 {
			x := pool[c.R.Intn(len(pool))]
			k := snapCt(x.Ciphertext)
			m := dec.DecryptToMsgNew(x)
			c.Check(sameCt(k, x.Ciphertext), "operand-modified", "decryption changed the ciphertext")
			ref, size := slotValues(open(x).centered(), p.LogSlots(), x.Scale, p.N(), ring.Standard)
			holdSlice(c, "decrypt", m.Value)
			if c.Check(len(m.Value) == slots, "decrypt-size", "%d slots", len(m.Value)) {
				c.closeSlots(m.Value, ref, size, "decrypt")
			}
		}
	}
}
