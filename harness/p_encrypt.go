package main

import (
	"fmt"
	"math"
	"math/big"

	"fast-ksw/ckks"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

// phase is the sum of Value[i]*s^i, each component read in the domain of its flag unless ntt says otherwise.
func phase(ct *rlwe.Ciphertext, R *ring.Ring, level int, s rns, ntt bool) rns {
	sl := s.upto(level + 1)
	acc := coef(ct.Value[ct.Degree()], R, level, ntt, false)
	for i := ct.Degree() - 1; i >= 0; i-- {
		acc = acc.mul(sl).add(coef(ct.Value[i], R, level, ntt, false))
	}
	return acc
}

// pkNoise bounds the noise of a fresh public-key encryption.
func pkNoise(p rlwe.Parameters) int64 {
	h, b := int64(p.HammingWeight()), bound(p)
	x := int64(1)
	if p.RingType() == ring.ConjugateInvariant {
		x = 2 // a product in this ring has up to twice as many terms per coefficient
	}
	e := x*2*h*b + b
	if p.PCount() != 0 {
		e = e/int64(p.P()[0]) + 1
		e += 1 + x*h // the two divisions by p0 round
	}
	return e
}

// schemeEncrypt checks the CKKS encryptors and decryptors: same ring elements, with the scale of what they are given.
func (c *Case) schemeEncrypt() {
	p := c.encParams(6, nil)
	kg := ckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair()
	_, s := c.skRef(p.Parameters, sk, "scheme")
	R := p.RingQ()
	useSk := c.R.Intn(2) == 0
	var enc ckks.Encryptor
	if useSk {
		enc = ckks.NewEncryptor(p, sk)
	} else {
		enc = ckks.NewEncryptor(p, pk)
	}
	dec := ckks.NewDecryptor(p, sk)
	for rep := 0; rep < 3; rep++ {
		switch c.R.Intn(5) {
		case 0:
			enc, dec = enc.ShallowCopy(), dec.ShallowCopy()
		case 1:
			if useSk = c.R.Intn(2) == 0; useSk {
				enc = enc.WithKey(sk)
			} else {
				enc = enc.WithKey(pk)
			}
			dec = ckks.NewDecryptor(p, kg.GenSecretKey()).WithKey(sk)
		}
		lp, lc := c.R.Intn(p.QCount()), c.R.Intn(p.QCount())
		pt := ckks.NewPlaintext(p, lp, math.Exp2(40*c.R.Float64()))
		fillPoly(c.R, pt.Value, p.Q())
		scale, keep := pt.Scale, snapPoly(pt.Value)
		var ct *ckks.Ciphertext
		how := c.R.Intn(4)
		if how > 1 && !useSk {
			how -= 2
		}
		c.Feature("how=%d sk=%v lp=%d lc=%d", how, useSk, lp, lc)
		if how%2 == 0 {
			lc = lp
		} else {
			ct = ckks.NewCiphertext(p, 1, lc, 12345)
			dirty(c.R, ct.Value[0])
			dirty(c.R, ct.Value[1])
		}
		crp := randPoly(c.R, p.N(), p.Q()[:lc+1])
		crp.IsNTT = true
		switch how {
		case 0:
			ct = enc.EncryptNew(pt)
		case 1:
			enc.Encrypt(pt, ct)
		case 2:
			ct = enc.EncryptFromCRPNew(pt, crp)
		case 3:
			enc.EncryptFromCRP(pt, crp, ct)
		}
		level := minInt(lp, lc)
		if !c.Check(ct.Degree() == 1 && ct.Level() == level && ct.Value[0].Level() == level && ct.Value[1].Level() == level && ct.Scale == scale && ct.Value[0].IsNTT && ct.Value[1].IsNTT, "scheme/meta",
			"encryption %d: degree %d level %d scale %v instead of 1, %d, %v", how, ct.Degree(), ct.Level(), ct.Scale, level, scale) {
			return
		}
		c.Check(pt.Scale == scale && samePoly(keep, pt.Value), "scheme/plaintext-modified", "encryption changed the plaintext")
		c.holdCt("scheme/encrypt", ct)
		c.Check(!shared(ct.Value[0], ct.Value[1], pt.Value, crp), "scheme/shared-memory", "the ciphertext shares memory with the plaintext, the reference polynomial or within itself")
		c.Check(how < 2 || eqCoeffs(ct.Value[1].Coeffs, crp.Coeffs[:level+1]), "scheme/crp", "the second component is not the common reference polynomial")
		want := phase(ct.Ciphertext, R, level, s, true)
		e := want.sub(coef(pt.Value, R, level, true, false)).maxAbs()
		lim := bound(p.Parameters)
		if !useSk {
			lim = pkNoise(p.Parameters)
		}
		if big.NewInt(4*lim).Cmp(prodBig(p.Q()[:level+1])) < 0 {
			c.Check(e.Cmp(big.NewInt(lim)) <= 0, "scheme/noise", "fresh ciphertext differs from its message by %v, more than %d", e, lim)
		}
		ckeep := snapCt(ct.Ciphertext)
		var out *ckks.Plaintext
		ld := level
		if c.R.Intn(2) == 0 {
			out = dec.DecryptNew(ct)
		} else {
			ld = c.R.Intn(p.QCount())
			out = ckks.NewPlaintext(p, ld, 54321)
			dirty(c.R, out.Value)
			dec.Decrypt(ct, out)
			ld = minInt(ld, level)
		}
		c.Check(sameCt(ckeep, ct.Ciphertext) && ct.Scale == scale, "scheme/ciphertext-modified", "decryption changed the ciphertext")
		c.holdPoly("scheme/decrypt", out.Value)
		c.Check(!shared(ct.Value[0], ct.Value[1], out.Value), "scheme/shared-memory", "the decryption shares memory with the ciphertext")
		if c.Check(out.Level() == ld && out.Scale == scale && out.Value.IsNTT, "scheme/decrypt-meta", "level %d scale %v instead of %d, %v", out.Level(), out.Scale, ld, scale) {
			c.Check(eqCoeffs(coef(out.Value, R, ld, true, false).v, want.v[:ld+1]), "scheme/decrypt", "decryption is not the evaluation at the secret")
		}
	}
}

// encryptionNoise compares the mean square of the noise of many encryptions under one key with its expectation.
func (c *Case) encryptionNoise() {
	method := c.R.Intn(4) // secret key, secret key with a reference polynomial, public key without P, public key with P
	np := 0
	if method == 3 || c.R.Intn(2) == 0 && method != 2 {
		np = 1 + c.R.Intn(2)
	}
	g := c.randRLWE(rlweOpts{minLogN: 6, maxLogN: 7, minQ: 1, maxQ: 2, minP: np, maxP: np, lo: 40, hi: 61, types: []ring.Type{ring.Standard}})
	sigma := []float64{1, 3.2, 5, 8.5}[c.R.Intn(4)]
	p, err := rlwe.NewParameters(g.LogN(), g.Q(), g.P(), g.N()/4+c.R.Intn(g.N()/2), sigma, g.RingType())
	if err != nil {
		c.Fatal("params", "%v", err)
	}
	N, R := p.N(), p.RingQ()
	sk, pk := rlwe.NewKeyGenerator(p).GenKeyPair()
	_, s := c.skRef(p, sk, "law")
	enc := rlwe.NewEncryptor(p, sk)
	if method >= 2 {
		enc = rlwe.NewEncryptor(p, pk)
	}
	ntt, fresh := c.R.Intn(2) == 0, c.R.Intn(2) == 0
	c.Feature("%s h=%d sigma=%v method=%d ntt=%v", describe(p), p.HammingWeight(), sigma, method, ntt)
	norm2 := func(v []*big.Int) float64 {
		t := 0.0
		for _, x := range v {
			f := float64(x.Int64())
			t += f * f
		}
		return t
	}
	V := sigma*sigma + 1.0/12
	want, down := V, 0.0
	switch method {
	case 2:
		b := coefQP(pk.Value[0], p, p.MaxLevel(), -1, true, false)
		a := coefQP(pk.Value[1], p, p.MaxLevel(), -1, true, false)
		e := b.add(a.mul(s.upto(p.QCount()))).centered()
		want = V*(1+float64(p.HammingWeight())) + float64(p.HammingWeight())*norm2(e)/float64(N)
	case 3: // two divisions by P: at least their rounding errors, at most those of divisions that round down
		want = (1 + float64(p.HammingWeight())) / 12
		v := s.centered()
		run := int64(0)
		for _, x := range v {
			run -= x.Int64()
		}
		for j := range v { // the product with the polynomial whose coefficients are all 1
			run += 2 * v[j].Int64()
			down += math.Pow(float64(1+run)/2, 2) / float64(N)
		}
	}
	const M = 300
	var sum, sq, mean float64
	for k := 0; k < M; k++ {
		if fresh && k%50 == 0 {
			enc = enc.ShallowCopy()
		}
		pt := rlwe.NewPlaintext(p, p.MaxLevel())
		pt.Value.IsNTT = c.R.Intn(2) == 0
		for i := range pt.Value.Coeffs {
			for j := range pt.Value.Coeffs[i] {
				pt.Value.Coeffs[i][j] = c.R.Uint64() % p.Q()[i]
			}
		}
		ct := rlwe.NewCiphertext(p, 1, p.MaxLevel())
		ct.Value[0].IsNTT, ct.Value[1].IsNTT = ntt, ntt
		if method == 1 {
			crp := randPoly(c.R, N, p.Q())
			crp.IsNTT = true
			enc.EncryptFromCRP(pt, crp, ct)
		} else {
			enc.Encrypt(pt, ct)
		}
		e := phase(ct, R, 0, s, ntt).sub(coef(pt.Value, R, 0, pt.Value.IsNTT, false)).centered()
		for _, x := range e {
			mean += float64(x.Int64()) / float64(N*M)
		}
		x := norm2(e) / float64(N)
		sum += x / M
		sq += x * x / M
		c.Event(N)
	}
	sd := math.Sqrt(math.Max(0, sq-sum*sum) / M)
	c.Check(sum >= want-9*sd-0.03*want && sum <= want+down+9*sd+0.03*(want+down), "noise-deviation", "mean square of the noise %v instead of %v (over %d encryptions, standard error %v)", sum, want, M, sd)
	c.Check(method == 3 || math.Abs(mean) <= 9*math.Sqrt(sum/M/float64(N))*3+0.02, "noise-mean", "mean of the noise %v", mean)
	c.Count("noise_laws", 1)
}

func init() {
	register("K02", "one case = parameters, encryptor (public/secret key, used for a random history of encryptions, shallow copies and re-keying), message polynomial, levels and domains; the ciphertext is opened with the harness's schoolbook arithmetic; distinct = parameters x kind x levels x domains",
		func(r *Run) {
			r.Cases("encrypt", 4000, 60000, func(c *Case) {
				p := c.keyParams(6, 0)
				kg := rlwe.NewKeyGenerator(p)
				sk, pk := kg.GenKeyPair()
				_, s := c.skRef(p, sk, "enc")
				skKeep, pkKeep := snapQP(sk.Value), [2]rlwe.PolyQP{snapQP(pk.Value[0]), snapQP(pk.Value[1])}
				R := p.RingQ()
				useSk := c.R.Intn(2) == 0
				var enc rlwe.Encryptor
				if useSk {
					enc = rlwe.NewEncryptor(p, sk)
				} else {
					enc = rlwe.NewEncryptor(p, pk)
				}
				c.Feature("sk=%v", useSk)
				type out struct {
					c1 rns
					e  []*big.Int
				}
				var outs []out
				for rep := 0; rep < 3; rep++ {
					switch c.R.Intn(4) {
					case 0:
						enc = enc.ShallowCopy()
						c.Feature("shallow")
					case 1:
						useSk = c.R.Intn(2) == 0
						if useSk {
							enc = enc.WithKey(sk)
						} else {
							enc = enc.WithKey(pk)
						}
						c.Feature("withkey sk=%v", useSk)
					}
					lp, lc := c.R.Intn(p.QCount()), c.R.Intn(p.QCount())
					pt := rlwe.NewPlaintext(p, lp)
					pt.Value.IsNTT = c.R.Intn(2) == 0
					if c.R.Intn(4) != 0 {
						fillPoly(c.R, pt.Value, p.Q())
					}
					ptKeep := snapPoly(pt.Value)
					ct := rlwe.NewCiphertext(p, 1, lc)
					cntt := c.R.Intn(2) == 0
					ct.Value[0].IsNTT, ct.Value[1].IsNTT = cntt, cntt
					if c.R.Intn(4) == 0 { // the second component follows the first
						ct.Value[1].IsNTT = !cntt
						c.Feature("mixed flags")
					}
					for _, v := range ct.Value {
						dirty(c.R, v)
					}
					level := lp
					if lc < level {
						level = lc
					}
					c.Feature("lp=%d lc=%d ptNTT=%v ctNTT=%v", lp, lc, pt.Value.IsNTT, cntt)
					crp := useSk && c.R.Intn(3) == 0
					var crpPoly *ring.Poly
					if crp {
						crpPoly = randPoly(c.R, p.N(), p.Q()[:lc+1])
						crpPoly.IsNTT = c.R.Intn(2) == 0
						keep := snapPoly(crpPoly)
						c.Feature("crp")
						enc.EncryptFromCRP(pt, crpPoly, ct)
						c.Check(samePoly(keep, crpPoly), "crp-modified", "encryption changed the common reference polynomial")
					} else {
						enc.Encrypt(pt, ct)
					}
					if !c.Check(ct.Degree() == 1 && ct.Value[0].Level() == level && ct.Value[1].Level() == level, "level", "ciphertext levels %d,%d instead of %d", ct.Value[0].Level(), ct.Value[1].Level(), level) {
						return
					}
					c.Check(ct.Value[0].IsNTT == cntt && ct.Value[1].IsNTT == cntt, "domain", "ciphertext domain flags %v,%v instead of %v", ct.Value[0].IsNTT, ct.Value[1].IsNTT, cntt)
					c.Check(reducedPoly(ct.Value[0], p.Q()) && reducedPoly(ct.Value[1], p.Q()), "reduced", "ciphertext is not reduced")
					c.Check(samePoly(ptKeep, pt.Value), "plaintext-modified", "encryption changed the plaintext")
					c.holdRLWE("encrypt", ct)
					c.Check(!shared(ct.Value[0], ct.Value[1], pt.Value, crpPoly), "shared-memory", "the ciphertext shares memory with the plaintext, the reference polynomial or within itself")
					e := phase(ct, R, level, s, cntt).sub(coef(pt.Value, R, level, pt.Value.IsNTT, false)).centered()
					c.Event(len(e))
					lim := bound(p)
					if !useSk {
						lim = pkNoise(p)
					}
					m := maxAbs(e)
					if big.NewInt(4*lim).Cmp(prodBig(p.Q()[:level+1])) < 0 {
						c.Check(m.Cmp(big.NewInt(lim)) <= 0, "noise", "fresh ciphertext differs from its message by %v, more than %d", m, lim)
						c.Count("noise_checked", 1)
					}
					dense := useSk || (p.N() >= 32 && p.HammingWeight() >= 12) // otherwise the division by P may leave nothing by chance
					c.Check(!dense || !isZeroInts(e), "noiseless", "encryption without noise")
					c1 := coef(ct.Value[1], R, level, cntt, false)
					if crp {
						want := coef(crpPoly, R, level, true, false)
						c.Check(eqCoeffs(c1.v, want.v), "crp", "second component is not the common reference polynomial")
					}
					for i := range c1.v {
						c.Check(crp || !constant(c1.v[i]), "mask", "constant second component")
					}
					if !crp && useSk && p.N() >= 32 { // the mask as it was drawn, in the NTT domain
						m := snapPoly(ct.Value[1])
						if !cntt {
							R.NTTLvl(level, m, m)
						}
						c.freshMask(m, p.Q(), "sk", fmt.Sprintf("mask of encryption %d", rep))
					}
					if !crp && !useSk && dense && p.PCount() == 0 { // an ephemeral secret that is used again leaves a small difference
						for _, o := range outs {
							n := minInt(len(o.c1.v), len(c1.v))
							d := o.c1.upto(n).sub(c1.upto(n)).maxAbs()
							c.Check(d.Cmp(big.NewInt(2*bound(p))) > 0, "mask-reuse", "two encryptions share their ephemeral secret")
						}
					}
					for _, o := range outs {
						if !crp && dense { // a very sparse ephemeral secret may well repeat
							c.Check(!eqCoeffs(o.c1.v[:1], c1.v[:1]), "mask-reuse", "two encryptions share their mask")
						}
						c.Check(!eqInts(o.e, e) || p.N() < 32 || !useSk, "noise-reuse", "two encryptions share their noise")
					}
					outs = append(outs, out{c1, e})
				}
				c.Check(sameQP(skKeep, sk.Value) && sameQP(pkKeep[0], pk.Value[0]) && sameQP(pkKeep[1], pk.Value[1]), "key-modified", "encryption changed a key")
			})

			// decryption is an exact linear functional
			r.Cases("decrypt", 5000, 80000, func(c *Case) {
				p := c.keyParams(6, 0)
				sk := rlwe.NewKeyGenerator(p).GenSecretKey()
				R := p.RingQ()
				var dec rlwe.Decryptor
				if c.R.Intn(2) == 0 {
					dec = rlwe.NewDecryptor(p, sk)
				} else {
					dec = rlwe.NewDecryptor(p, rlwe.NewKeyGenerator(p).GenSecretKey()).WithKey(sk)
					c.Feature("withkey")
				}
				_, s := c.skRef(p, sk, "dec")
				keep := snapQP(sk.Value)
				for rep := 0; rep < 3; rep++ {
					if c.R.Intn(3) == 0 {
						dec = dec.ShallowCopy()
					}
					deg := c.R.Intn(4)
					if c.R.Intn(3) == 0 {
						deg = c.R.Intn(18)
					}
					lc, lp := c.R.Intn(p.QCount()), c.R.Intn(p.QCount())
					level := lc
					if lp < level {
						level = lp
					}
					ct := rlwe.NewCiphertext(p, deg, lc)
					ntt := c.R.Intn(2) == 0
					for _, v := range ct.Value {
						fillPoly(c.R, v, p.Q())
						v.IsNTT = ntt
					}
					ctKeep := snapCt(ct)
					pt := rlwe.NewPlaintext(p, lp)
					dirty(c.R, pt.Value)
					pt.Value.IsNTT = c.R.Intn(2) == 0
					pn := pt.Value.IsNTT
					c.Feature("deg=%d lc=%d lp=%d ct=%v pt=%v", deg, lc, lp, ntt, pn)
					dec.Decrypt(ct, pt)
					if !c.Check(pt.Level() == level, "level", "plaintext level %d instead of %d", pt.Level(), level) {
						return
					}
					c.Check(pt.Value.IsNTT == pn, "domain", "plaintext domain changed")
					want := phase(ct, R, level, s, ntt)
					got := coef(pt.Value, R, level, pn, false)
					c.Event(p.N() * (level + 1))
					c.Check(eqCoeffs(want.v, got.v), "value", "decryption is not the evaluation at the secret")
					c.Check(reducedPoly(pt.Value, p.Q()), "reduced", "decryption of degree %d is not reduced", deg)
					c.Check(sameCt(ctKeep, ct), "ciphertext-modified", "decryption changed the ciphertext")
					c.holdPoly("decrypt", pt.Value)
					c.Check(!shared(append(ct.Value, pt.Value)...), "shared-memory", "the decryption shares memory with the ciphertext")
				}
				c.Check(sameQP(keep, sk.Value), "key-modified", "decryption changed the key")
			})

			// the scheme's encryptors and decryptors add levels and scales to these
			r.Cases("scheme", 400, 4000, func(c *Case) { c.schemeEncrypt() })

			// the noise of encryptions must be there and have the deviation of its method
			r.Cases("noise-law", 16, 160, func(c *Case) { c.encryptionNoise() })

			// keys of a wrong degree are refused
			r.Cases("wrong-degree", 60, 400, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 5, maxLogN: 7, minQ: 1, maxQ: 3, minP: 1, maxP: 2, lo: 30, hi: 55})
				q := c.randRLWE(rlweOpts{minLogN: 8, maxLogN: 9, minQ: 1, maxQ: 3, minP: 1, maxP: 2, lo: 30, hi: 55})
				if c.R.Intn(2) == 0 {
					p, q = q, p
				}
				c.Feature("%d %d", p.LogN(), q.LogN())
				sk, pk := rlwe.NewKeyGenerator(q).GenKeyPair()
				good := rlwe.NewKeyGenerator(p).GenSecretKey()
				for i, f := range []func(){
					func() { rlwe.NewEncryptor(p, sk) }, func() { rlwe.NewEncryptor(p, pk) },
					func() { rlwe.NewDecryptor(p, sk) }, func() { rlwe.NewEncryptor(p, good).WithKey(pk) },
					func() { rlwe.NewEncryptor(p, good).WithKey("key") },
				} {
					bad, _, _ := c.Try(f)
					c.Check(bad, "accepted", "call %d accepted a key of another ring degree or of another type", i)
				}
			})
		})

	// ---- RingQP -----------------------------------------------------------------
	register("R10", "one case = parameters, levels over Q and P (P possibly absent), one operation of the extended ring, operands (random, extremal), receiver (fresh, dirty, aliased); every channel compared with per-channel integer arithmetic; distinct = parameters x operation x levels x aliasing",
		func(r *Run) {
			r.Cases("ops", 12000, 200000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 4, minP: 0, maxP: 3, lo: 20, hi: 61})
				rqp := &rlwe.RingQP{RingQ: p.RingQ(), RingP: p.RingP()}
				lq := c.R.Intn(p.QCount())
				lp := -1
				if p.PCount() > 0 {
					lp = c.R.Intn(p.PCount())
				}
				// an absent part has no level: whatever is given for it is ignored
				if c.R.Intn(8) == 0 {
					if rqp.RingP != nil && c.R.Intn(2) == 0 {
						rqp.RingQ = nil
					} else {
						rqp.RingP = nil
					}
				}
				if rqp.RingP == nil {
					lp = c.R.Intn(4) - 1
				}
				gen := func() rlwe.PolyQP {
					v := rqp.NewPoly()
					if v.Q != nil {
						fillPoly(c.R, v.Q, p.Q())
					}
					if v.P != nil {
						fillPoly(c.R, v.P, p.P())
					}
					return v
				}
				a, b, o := gen(), gen(), gen()
				alias := c.R.Intn(4)
				op := c.R.Intn(15)
				switch {
				case alias == 1:
					o = a
				case alias == 2 && op < 8:
					o = b
				case alias == 3:
					b = a
				}
				ka, kb, ko := snapQP(a), snapQP(b), snapQP(o)
				type chann struct {
					R         *ring.Ring
					lvl       int
					a, b, o   *ring.Poly
					ka, kb, k *ring.Poly
				}
				var chs []chann
				if rqp.RingQ != nil {
					chs = append(chs, chann{p.RingQ(), lq, a.Q, b.Q, o.Q, ka.Q, kb.Q, ko.Q})
				}
				if rqp.RingP != nil {
					chs = append(chs, chann{p.RingP(), lp, a.P, b.P, o.P, ka.P, kb.P, ko.P})
				}
				names := []string{"AddLvl", "AddNoModLvl", "SubLvl", "MulMontgomery", "MulMontgomeryConstant", "MulMontgomeryAndSub", "MulMontgomeryAndAdd", "MulConstantAndAddNoMod", "MulConstantAndSubNoMod", "MForm", "InvMForm", "NTT", "InvNTT", "Copy", "NTTLazy"}
				c.Feature("%s %s alias=%d lq=%d lp=%d absent=%v,%v", describe(p), names[op], alias, lq, lp, rqp.RingQ == nil, rqp.RingP == nil)
				if op == 7 || op == 8 { // accumulators must not overflow: keep them as generated (reduced) and not aliased to a factor
					if alias == 1 || alias == 2 {
						o = gen()
						ko = snapQP(o)
						for i := range chs {
							if chs[i].R == p.RingQ() {
								chs[i].o, chs[i].k = o.Q, ko.Q
							} else {
								chs[i].o, chs[i].k = o.P, ko.P
							}
						}
					}
				}
				switch op {
				case 0:
					rqp.AddLvl(lq, lp, a, b, o)
				case 1:
					rqp.AddNoModLvl(lq, lp, a, b, o)
				case 2:
					rqp.SubLvl(lq, lp, a, b, o)
				case 3:
					rqp.MulCoeffsMontgomeryLvl(lq, lp, a, b, o)
				case 4:
					rqp.MulCoeffsMontgomeryConstantLvl(lq, lp, a, b, o)
				case 5:
					rqp.MulCoeffsMontgomeryAndSubLvl(lq, lp, a, b, o)
				case 6:
					rqp.MulCoeffsMontgomeryAndAddLvl(lq, lp, a, b, o)
				case 7:
					rqp.MulCoeffsMontgomeryConstantAndAddNoModLvl(lq, lp, a, b, o)
				case 8:
					rqp.MulCoeffsMontgomeryConstantAndSubNoModLvl(lq, lp, a, b, o)
				case 9:
					rqp.MFormLvl(lq, lp, a, o)
				case 10:
					rqp.InvMFormLvl(lq, lp, a, o)
				case 11:
					rqp.NTTLvl(lq, lp, a, o)
				case 12:
					rqp.InvNTTLvl(lq, lp, a, o)
				case 13:
					rqp.CopyValuesLvl(lq, lp, a, o)
				case 14:
					rqp.NTTLazyLvl(lq, lp, a, o)
				}
				for part, h := range chs {
					for i := 0; i <= h.lvl; i++ {
						q := h.R.Modulus[i]
						inv64 := invMod(pow2ModU(64, q), q)
						var ref []uint64
						if op == 11 || op == 12 || op == 14 {
							t := &ring.Poly{Coeffs: copyCoeffs(h.ka)[:h.lvl+1]}
							if op != 12 {
								h.R.NTTLvl(h.lvl, t, t)
							} else {
								h.R.InvNTTLvl(h.lvl, t, t)
							}
							ref = t.Coeffs[i]
						}
						for j := range h.o.Coeffs[i] {
							x, y, z := h.ka.Coeffs[i][j]%q, h.kb.Coeffs[i][j]%q, h.k.Coeffs[i][j]%q
							m := mulMod(mulMod(x, y, q), inv64, q)
							got := h.o.Coeffs[i][j]
							var want uint64
							lazy := false
							switch op {
							case 0:
								want = addMod(x, y, q)
							case 1:
								want, lazy = addMod(x, y, q), true
							case 2:
								want = subMod(x, y, q)
							case 3:
								want = m
							case 4:
								want, lazy = m, true
							case 5:
								want = subMod(z, m, q)
							case 6:
								want = addMod(z, m, q)
							case 7:
								want, lazy = addMod(z, m, q), true
							case 8:
								want, lazy = subMod(z, m, q), true
							case 9:
								want = montRef(x, q)
							case 10:
								want = mulMod(x, inv64, q)
							case 11, 12:
								want = ref[j]
							case 14:
								want, lazy = ref[j], true
								c.Check(got < 2*q, "NTTLazy/range", "NTTLazy: %d is not below twice the modulus %d", got, q)
							case 13:
								want = x
							}
							c.Event(1)
							if lazy {
								got %= q
							}
							if got != want {
								c.Fatal(names[op]+"/value", "%s part %d row %d coefficient %d: %d instead of %d", names[op], part, i, j, got, want)
							}
						}
					}
					for i := h.lvl + 1; i < len(h.o.Coeffs); i++ {
						c.Check(eqCoeffs(h.o.Coeffs[i:i+1], h.k.Coeffs[i:i+1]), names[op]+"/above-level", "%s part %d wrote row %d above the level", names[op], part, i)
					}
					if h.o != h.a {
						c.Check(eqCoeffs(h.a.Coeffs, h.ka.Coeffs), names[op]+"/operand", "%s changed its first operand", names[op])
					}
					if h.o != h.b {
						c.Check(eqCoeffs(h.b.Coeffs, h.kb.Coeffs), names[op]+"/operand", "%s changed its second operand", names[op])
					}
				}
			})

			// Polynomials of which a part is absent: creation, copies, comparison.
			r.Cases("parts", 1500, 15000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 4, minP: 1, maxP: 3, lo: 20, hi: 61})
				absent := c.R.Intn(4)
				rqp := &rlwe.RingQP{RingQ: p.RingQ(), RingP: p.RingP()}
				if absent&1 != 0 {
					rqp.RingQ = nil
				}
				if absent&2 != 0 {
					rqp.RingP = nil
				}
				lq, lp := c.R.Intn(p.QCount()), c.R.Intn(p.PCount())
				shape := func(v rlwe.PolyQP, lq, lp int, what string) bool {
					ok := (v.Q == nil) == (absent&1 != 0) && (v.P == nil) == (absent&2 != 0)
					c.Check(ok, what+"/parts", "%s: parts %v %v", what, v.Q != nil, v.P != nil)
					if ok && v.Q != nil {
						ok = len(v.Q.Coeffs) == lq+1 && len(v.Q.Coeffs[0]) == p.N()
						c.Check(ok, what+"/shape", "%s: %d rows over Q instead of %d", what, len(v.Q.Coeffs), lq+1)
					}
					if ok && v.P != nil {
						ok = len(v.P.Coeffs) == lp+1 && len(v.P.Coeffs[0]) == p.N()
						c.Check(ok, what+"/shape", "%s: %d rows over P instead of %d", what, len(v.P.Coeffs), lp+1)
					}
					return ok
				}
				full := func(v rlwe.PolyQP) {
					if v.Q != nil {
						fillPoly(c.R, v.Q, p.Q())
						v.Q.IsNTT = c.R.Intn(2) == 0
					}
					if v.P != nil {
						fillPoly(c.R, v.P, p.P())
						v.P.IsNTT = c.R.Intn(2) == 0
					}
				}
				same := func(a, b rlwe.PolyQP) bool {
					return (a.Q == nil || eqCoeffs(a.Q.Coeffs, b.Q.Coeffs)) && (a.P == nil || eqCoeffs(a.P.Coeffs, b.P.Coeffs))
				}
				c.Feature("absent=%d %s lq=%d lp=%d", absent, describe(p), lq, lp)
				a, b := rqp.NewPoly(), rqp.NewPolyLvl(lq, lp)
				if !shape(a, p.QCount()-1, p.PCount()-1, "NewPoly") || !shape(b, lq, lp, "NewPolyLvl") {
					return
				}
				full(a)
				full(b)
				d := b.CopyNew()
				if !shape(d, lq, lp, "CopyNew") {
					return
				}
				c.Check(same(b, d), "CopyNew/value", "CopyNew: values differ")
				if absent == 0 {
					c.Check(b.Equals(d) && d.Equals(b), "Equals/copy", "a copy differs from its original")
				}
				kd := snapQP(b)
				full(d)
				c.Check(same(kd, b), "CopyNew/shared", "CopyNew shares its coefficients")
				if absent == 0 {
					e := b.CopyNew()
					// one different coefficient in either part is a difference
					w, mod := e.Q, p.Q()
					if c.R.Intn(2) == 0 {
						w, mod = e.P, p.P()
					}
					i, j := c.R.Intn(len(w.Coeffs)), c.R.Intn(p.N())
					w.Coeffs[i][j] = (w.Coeffs[i][j] + 1) % mod[i]
					c.Check(!b.Equals(e) && !e.Equals(b), "Equals/differ", "Equals ignores coefficient %d of row %d", j, i)
				}
				f := rqp.NewPolyLvl(lq, lp)
				full(f)
				if c.R.Intn(2) == 0 {
					f.CopyValues(b)
				} else {
					f.Copy(b)
				}
				c.Check(same(f, b), "Copy/value", "copied values differ")
				kb := snapQP(b)
				full(f)
				c.Check(same(kb, b), "Copy/shared", "a copy shares its coefficients")
				c.Event(p.N() * (lq + lp + 2))
			})

			r.Cases("permute", 3000, 30000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 4, minP: 0, maxP: 3, lo: 20, hi: 61})
				rqp := p.RingQP()
				lq := c.R.Intn(p.QCount())
				lp := -1
				if p.PCount() > 0 {
					lp = c.R.Intn(p.PCount())
				}
				root := p.RingQ().NthRoot
				g := powMod(5, uint64(c.R.Intn(p.N())), root)
				if p.RingType() == ring.Standard && c.R.Intn(2) == 0 {
					g = c.R.Uint64()%root | 1
				}
				add := c.R.Intn(2) == 0
				a, o := c.randQP(p, p.QCount()-1, p.PCount()-1), c.randQP(p, p.QCount()-1, p.PCount()-1)
				ka, ko := snapQP(a), snapQP(o)
				c.Feature("%s g=%d lq=%d lp=%d add=%v", describe(p), g, lq, lp, add)
				idx := p.RingQ().PermuteNTTIndex(g)
				if add {
					rqp.PermuteNTTWithIndexAndAddNoModLvl(lq, lp, a, idx, o)
				} else {
					rqp.PermuteNTTWithIndexLvl(lq, lp, a, idx, o)
				}
				want := coefQP(ka, p, lq, lp, true, false).aut(g)
				got := coefQP(o, p, lq, lp, true, false)
				if add {
					want = want.add(coefQP(ko, p, lq, lp, true, false))
				}
				c.Event(len(want.v) * p.N())
				c.Check(eqCoeffs(want.v, got.v), "value", "permutation by %d (add=%v)", g, add)
				c.Check(sameQP(a, ka), "operand", "permutation changed its operand")
			})

			r.Cases("extend-small", 3000, 30000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 4, minP: 1, maxP: 3, lo: 20, hi: 61})
				rqp := p.RingQP()
				lp := c.R.Intn(p.PCount())
				lim := p.Q()[0]
				for _, m := range append(p.Q(), p.P()...) {
					if m < lim {
						lim = m
					}
				}
				lim = (lim - 1) / 2
				v := make([]int64, p.N())
				big := c.R.Intn(2) == 0
				for i := range v {
					if big {
						v[i] = int64(c.R.Uint64()%(2*lim+1)) - int64(lim)
						if c.R.Intn(4) == 0 {
							v[i] = []int64{int64(lim), -int64(lim), 0, 1, -1}[c.R.Intn(5)]
						}
					} else {
						v[i] = int64(c.R.Intn(41) - 20)
					}
				}
				lq := c.R.Intn(p.QCount())
				in := ring.NewPoly(p.N(), lq+1)
				setInts(in, p.Q(), v)
				same := c.R.Intn(2) == 0
				out := ring.NewPoly(p.N(), p.PCount())
				dirty(c.R, out)
				keep := snapPoly(out)
				keepIn := snapPoly(in)
				c.Feature("%s lq=%d lp=%d withQ=%v", describe(p), lq, lp, same)
				var outQ *ring.Poly
				if same {
					outQ = ring.NewPoly(p.N(), p.QCount())
				}
				rqp.ExtendBasisSmallNormAndCenter(in, lp, outQ, out)
				for i := 0; i <= lp; i++ {
					for j := range v {
						want := uint64(v[j])
						if v[j] < 0 {
							want = p.P()[i] - uint64(-v[j])
						}
						if out.Coeffs[i][j] != want {
							c.Fatal("value", "coefficient %d extended to modulus %d: %d", v[j], p.P()[i], out.Coeffs[i][j])
						}
					}
				}
				c.Event(p.N() * (lp + 1))
				c.Check(eqCoeffs(out.Coeffs[lp+1:], keep.Coeffs[lp+1:]), "above-level", "wrote above the level")
				c.Check(samePoly(keepIn, in), "operand", "operand modified")
				if same {
					c.Check(eqCoeffs(outQ.Coeffs[:lq+1], in.Coeffs), "copy", "copy over Q differs")
				}
			})

			r.Cases("uniform", 200, 2000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 6, maxLogN: 8, minQ: 1, maxQ: 4, minP: 1, maxP: 3, lo: 20, hi: 61})
				key := c.key(32)
				prng, _ := utils.NewKeyedPRNG(key)
				s := rlwe.NewUniformSamplerQP(p, prng)
				x, y := p.RingQP().NewPoly(), p.RingQP().NewPoly()
				s.Read(&x)
				s.Read(&y)
				prng, _ = utils.NewKeyedPRNG(key)
				s = rlwe.NewUniformSamplerQP(p, prng)
				for k, v := range []rlwe.PolyQP{x, y} {
					w := p.RingQP().NewPoly()
					s.Read(&w)
					c.Check(samePoly(v.Q, w.Q) && samePoly(v.P, w.P), "keyed", "sample %d differs between two samplers of the same key", k)
				}
				c.Feature("%s", describe(p))
				// a part absent from the polynomial or from the parameters is left alone
				one := []rlwe.PolyQP{{Q: p.RingQ().NewPoly()}, {P: p.RingP().NewPoly()}, {}}
				for k := range one {
					s.Read(&one[k])
					c.Check((one[k].Q != nil) == (k == 0) && (one[k].P != nil) == (k == 1), "part", "sampling created or removed a part")
				}
				c.Check(!constant(one[0].Q.Coeffs[0]) && !constant(one[1].P.Coeffs[0]), "part", "a part of a one-part polynomial was not sampled")
				c.Check(reducedPoly(one[0].Q, p.Q()) && reducedPoly(one[1].P, p.P()), "reduced", "sample out of range")
				if bare, err := rlwe.NewParameters(p.LogN(), p.Q(), []uint64{}, p.HammingWeight(), p.Sigma(), p.RingType()); err == nil {
					v := bare.RingQP().NewPoly()
					c.Check(v.P == nil && v.Q != nil, "part", "a polynomial of parameters without P has a part over P")
					rlwe.NewUniformSamplerQP(bare, prng).Read(&v)
					c.Check(v.P == nil && !constant(v.Q.Coeffs[0]) && reducedPoly(v.Q, p.Q()), "part", "sampling under parameters without P")
				}
				c.Check(reducedPoly(x.Q, p.Q()) && reducedPoly(x.P, p.P()), "reduced", "sample out of range")
				for i := range x.Q.Coeffs {
					c.Check(!eqCoeffs(x.Q.Coeffs[i:i+1], y.Q.Coeffs[i:i+1]) && !constant(x.Q.Coeffs[i]), "repeat", "row %d repeated or constant", i)
				}
				for i := range x.P.Coeffs {
					c.Check(!eqCoeffs(x.P.Coeffs[i:i+1], y.P.Coeffs[i:i+1]) && !constant(x.P.Coeffs[i]), "repeat", "row %d of P repeated or constant", i)
				}
			})
		})
}
