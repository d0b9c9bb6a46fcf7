package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// keyParams draws parameters with a random secret density and noise, N small enough for schoolbook oracles.
func (c *Case) keyParams(maxLogN, minP int) rlwe.Parameters {
	p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: maxLogN, minQ: 1, maxQ: 5, minP: minP, maxP: 3, lo: 25, hi: 61})
	h := 1 + c.R.Intn(p.N())
	switch c.R.Intn(4) {
	case 0:
		h = p.N() / 2
	case 1:
		h = p.N()
	}
	sigma := []float64{3.2, 3.2, 5, 8.5}[c.R.Intn(4)]
	v, err := rlwe.NewParameters(p.LogN(), p.Q(), p.P(), h, sigma, p.RingType())
	if err != nil {
		c.Fatal("params-refused", "%v", err)
	}
	c.Feature("%s h=%d sigma=%v", describe(v), h, sigma)
	return v
}

func bound(p rlwe.Parameters) int64 { return int64(6 * p.Sigma()) }

// skRef reads the secret of a key as small integers (checking all residues agree) and as rns over QP.
func (c *Case) skRef(p rlwe.Parameters, sk *rlwe.SecretKey, sig string) ([]*big.Int, rns) {
	r := coefQP(sk.Value, p, sk.Value.Q.Level(), qpLevelP(sk.Value), true, true)
	v := r.centered()
	c.holdQP(sig+"-secret", sk.Value)
	return v, r
}

func qpLevelP(v rlwe.PolyQP) int {
	if v.P == nil {
		return -1
	}
	return v.P.Level()
}

func weight(v []*big.Int) (w int) {
	for _, x := range v {
		if x.Sign() != 0 {
			w++
		}
	}
	return
}

func reducedPoly(p *ring.Poly, m []uint64) bool {
	for i := range p.Coeffs {
		for _, x := range p.Coeffs[i] {
			if x >= m[i] {
				return false
			}
		}
	}
	return true
}

// checkSwk verifies that key encrypts P*gadget*skIn under skOut: for each block i,
// b_i + a_i*skOut - P*skIn*[indicator of block i] is one small integer polynomial over QP.
func (c *Case) checkSwk(p rlwe.Parameters, swk *rlwe.SwitchingKey, skIn, skOut rns, levelQ, levelP int, sig string) {
	alpha := levelP + 1
	beta := (levelQ + alpha) / alpha
	if !c.Check(len(swk.Value) == beta, sig+"/shape", "%d blocks instead of %d (levelQ=%d levelP=%d)", len(swk.Value), beta, levelQ, levelP) {
		return
	}
	P := prodBig(p.P()[:levelP+1])
	for i := range swk.Value {
		b, a := swk.Value[i][0], swk.Value[i][1]
		if !c.Check(b.Q.Level() == levelQ && a.Q.Level() == levelQ && b.P.Level() == levelP && a.P.Level() == levelP, sig+"/levels", "block %d has the wrong levels", i) {
			return
		}
		c.Check(reducedPoly(a.Q, p.Q()) && reducedPoly(a.P, p.P()) && reducedPoly(b.Q, p.Q()) && reducedPoly(b.P, p.P()), sig+"/reduced", "block %d is not reduced", i)
		c.holdQP(sig, a)
		c.holdQP(sig, b)
		rb, ra := coefQP(b, p, levelQ, levelP, true, true), coefQP(a, p, levelQ, levelP, true, true)
		e := rb.add(ra.mul(skOut))
		g := newRNS(p.N(), rb.m, rb.t)
		for j := i * alpha; j < (i+1)*alpha && j <= levelQ; j++ {
			w := modU(P, rb.m[j])
			for k := range g.v[j] {
				g.v[j][k] = mulMod(skIn.v[j][k], w, rb.m[j])
			}
		}
		ev := e.sub(g).centered()
		c.Event(len(ev))
		m := maxAbs(ev)
		if !c.Check(m.Cmp(big.NewInt(bound(p))) <= 0, sig+"/relation", "block %d of %d: phase minus P*skIn is not a noise within %d: largest %v", i, beta, bound(p), m) {
			return
		}
		c.Max("max_key_noise", m.Int64())
		c.Check(!isZeroInts(ev), sig+"/noiseless", "block %d carries no noise", i)
		c.freshNoise(ev, sig, fmt.Sprintf("%s noise of block %d", sig, i))
		c.freshMask(a.Q, p.Q(), sig, fmt.Sprintf("%s mask of block %d", sig, i))
		c.freshMask(a.P, p.P(), sig, fmt.Sprintf("%s mask of block %d", sig, i))
		// a mask of small norm or with a constant row would reveal the noise
		for r := range ra.v {
			c.Check(!constant(ra.v[r]), sig+"/mask", "block %d row %d: mask is constant", i, r)
		}
	}
}

// fresh records one drawn vector of the case and reports when an earlier draw was the same.
func (c *Case) freshRow(h uint64, sig, what string) {
	if c.fresh == nil {
		c.fresh = map[uint64]string{}
	}
	if old, ok := c.fresh[h]; ok {
		c.Fail(sig, "%s repeats %s", what, old)
		return
	}
	c.fresh[h] = what
	c.Count("randomness_vectors", 1)
}

// freshMask checks that no residue row of a mask (in the NTT domain, as drawn) is a reordering of an earlier one of
// the case, and that its values lie on both sides of half the modulus.
func (c *Case) freshMask(a *ring.Poly, m []uint64, sig, what string) {
	for i := range a.Coeffs {
		v := append([]uint64{}, a.Coeffs[i]...)
		sort.Slice(v, func(x, y int) bool { return v[x] < v[y] })
		h := uint64(14695981039346656037) ^ m[i]
		up := 0
		for _, x := range v {
			h = (h ^ x) * 1099511628211
			h ^= h >> 29
			if x > m[i]/2 {
				up++
			}
		}
		c.freshRow(h, sig+"/mask-reuse", fmt.Sprintf("%s mod %d", what, m[i]))
		n := float64(len(v))
		if d := math.Abs(2*float64(up) - n); n >= 128 && d > 9*math.Sqrt(n) {
			c.Fail(sig+"/mask-bias", "%s mod %d: %d of %d values above half the modulus", what, m[i], up, len(v))
		}
	}
}

// freshNoise checks that a noise vector does not occur twice (or negated) in the case.
func (c *Case) freshNoise(e []*big.Int, sig, what string) {
	h, g := uint64(1469598103934665603), uint64(1469598103934665603)
	for _, x := range e {
		h = (h ^ uint64(x.Int64())) * 1099511628211
		h ^= h >> 29
		g = (g ^ uint64(-x.Int64())) * 1099511628211
		g ^= g >> 29
	}
	if g < h {
		h = g
	}
	c.freshRow(h, sig+"/noise-reuse", what)
}

func constant(v []uint64) bool {
	for _, x := range v {
		if x != v[0] {
			return false
		}
	}
	return true
}

func eqInts(a, b []*big.Int) bool {
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// lowerSk is the secret key restricted to fewer moduli.
func lowerSk(sk *rlwe.SecretKey, levelQ, levelP int) *rlwe.SecretKey {
	o := &rlwe.SecretKey{}
	o.Value.Q = &ring.Poly{Coeffs: sk.Value.Q.Coeffs[:levelQ+1]}
	if sk.Value.P != nil {
		o.Value.P = &ring.Poly{Coeffs: sk.Value.P.Coeffs[:levelP+1]}
	}
	return o
}

// rowsFor picks from an rns over QP (full) the rows of Q up to levelQ and P up to levelP.
func (a rns) rowsFor(nQ, levelQ, levelP int) rns {
	o := rns{t: a.t}
	o.m = append(append([]uint64{}, a.m[:levelQ+1]...), a.m[nQ:nQ+levelP+1]...)
	o.v = append(append([][]uint64{}, a.v[:levelQ+1]...), a.v[nQ:nQ+levelP+1]...)
	return o
}

func init() {
	register("K01", "one case = parameter set, key generator (reused for a random sequence of generations) and one kind of key; the key is opened with the secret and the harness's own schoolbook arithmetic, and the noise polynomial over QP must be one small integer polynomial; distinct = kind x parameters x levels",
		func(r *Run) {
			r.Cases("secret", 1500, 20000, func(c *Case) {
				p := c.keyParams(7, 0)
				kg := rlwe.NewKeyGenerator(p)
				for rep := 0; rep < 2; rep++ {
					var sk *rlwe.SecretKey
					kind := c.R.Intn(4)
					max := int64(1)
					w := -1
					switch kind {
					case 0:
						sk, w = kg.GenSecretKey(), p.HammingWeight()
					case 1:
						sk, max = kg.GenSecretKeyGaussian(), bound(p)
					case 2:
						sk = kg.GenSecretKeyWithDistrib([]float64{0.5, 1.0 / 3, 0.9}[c.R.Intn(3)])
					case 3:
						w = 1 + c.R.Intn(p.N())
						sk = kg.GenSecretKeyWithHammingWeight(w)
					}
					c.Feature("kind=%d", kind)
					c.Check(sk.Value.Q.Level() == p.MaxLevel() && qpLevelP(sk.Value) == p.PCount()-1, "levels", "secret key levels %d,%d", sk.Value.Q.Level(), qpLevelP(sk.Value))
					c.Check(reducedPoly(sk.Value.Q, p.Q()) && (sk.Value.P == nil || reducedPoly(sk.Value.P, p.P())), "reduced", "secret key is not reduced")
					v, _ := c.skRef(p, sk, "sk")
					c.Event(len(v))
					m := maxAbs(v)
					c.Check(m.Cmp(big.NewInt(max)) <= 0, "support", "kind %d: secret coefficient of magnitude %v (residues over Q and P lifted together)", kind, m)
					if w >= 0 {
						c.Check(weight(v) == w, "weight", "secret of Hamming weight %d instead of %d", weight(v), w)
					}
					c.Check(kind == 2 || !isZeroInts(v), "zero", "zero secret")
				}
			})

			r.Cases("public", 1200, 20000, func(c *Case) {
				p := c.keyParams(6, 0)
				kg := rlwe.NewKeyGenerator(p)
				sk, pk := kg.GenKeyPair()
				if c.R.Intn(2) == 0 {
					pk = kg.GenPublicKey(sk)
				}
				pk2 := kg.GenPublicKey(sk)
				_, s := c.skRef(p, sk, "pk")
				for rep, k := range []*rlwe.PublicKey{pk, pk2} {
					b := coefQP(k.Value[0], p, p.MaxLevel(), p.PCount()-1, true, false)
					a := coefQP(k.Value[1], p, p.MaxLevel(), p.PCount()-1, true, false)
					e := b.add(a.mul(s)).centered()
					c.Event(len(e))
					m := maxAbs(e)
					c.Check(m.Cmp(big.NewInt(bound(p))) <= 0, "relation", "b + a*s is not a noise within %d: largest %v", bound(p), m)
					c.Check(!isZeroInts(e), "noiseless", "public key without noise")
					for i := range a.v {
						c.Check(!constant(a.v[i]), "mask", "constant mask")
					}
					c.holdQP("public", k.Value[0])
					c.holdQP("public", k.Value[1])
					c.freshNoise(e, "public", fmt.Sprintf("noise of public key %d", rep))
					c.freshMask(k.Value[1].Q, p.Q(), "public", fmt.Sprintf("mask of public key %d", rep))
					if k.Value[1].P != nil {
						c.freshMask(k.Value[1].P, p.P(), "public", fmt.Sprintf("mask of public key %d", rep))
					}
				}
			})

			r.Cases("switching", 1800, 30000, func(c *Case) {
				p := c.keyParams(6, 1)
				kg := rlwe.NewKeyGenerator(p)
				sk := kg.GenSecretKey()
				_, s := c.skRef(p, sk, "swk")
				skKeep := snapQP(sk.Value)
				nQ := p.QCount()
				full := func(swk *rlwe.SwitchingKey, in, out rns, sig string) {
					c.checkSwk(p, swk, in, out, nQ-1, p.PCount()-1, sig)
				}
				for rep := 0; rep < 2; rep++ {
					kind := c.R.Intn(8)
					c.Feature("kind=%d", kind)
					root := p.RingQ().NthRoot
					rot := func(k int) uint64 { return powMod(5, uint64(((k%int(root))+int(root))%int(root)), root) }
					under := func(g uint64) rns { return s.aut(powMod(g, root-1, root)) } // the inverse of g: the group has exponent dividing root/2
					switch kind {
					case 0:
						deg := 1 + c.R.Intn(3)
						rlk := kg.GenRelinearizationKey(sk, deg)
						c.Check(len(rlk.Keys) == deg, "relin/count", "%d keys instead of %d", len(rlk.Keys), deg)
						pw := s
						for i := 0; i < deg && i < len(rlk.Keys); i++ {
							pw = pw.mul(s)
							full(rlk.Keys[i], pw, s, "relin")
						}
					case 1:
						sk2 := kg.GenSecretKey()
						_, s2 := c.skRef(p, sk2, "swk")
						full(kg.GenSwitchingKey(sk, sk2), s, s2, "generic")
					case 2: // output key with fewer moduli: the key lives over those
						sk2 := kg.GenSecretKey()
						_, s2 := c.skRef(p, sk2, "swk")
						lq, lp := c.R.Intn(nQ), c.R.Intn(p.PCount())
						c.Feature("lq=%d lp=%d", lq, lp)
						c.checkSwk(p, kg.GenSwitchingKey(sk, lowerSk(sk2, lq, lp)), s, s2.rowsFor(nQ, lq, lp), lq, lp, "lower-output")
					case 3: // input key with fewer moduli than the output key
						sk2 := kg.GenSecretKey()
						_, s2 := c.skRef(p, sk2, "swk")
						lq, lp := c.R.Intn(nQ), c.R.Intn(p.PCount())
						c.Feature("lq=%d lp=%d", lq, lp)
						full(kg.GenSwitchingKey(lowerSk(sk, lq, lp), sk2), s, s2, "lower-input")
					case 4:
						k := c.R.Intn(4*p.N()) - 2*p.N()
						c.Feature("k=%d", k)
						full(kg.GenSwitchingKeyForRotationBy(k, sk), s, under(rot(k)), "rotation-by")
					case 5:
						g := c.R.Uint64()%root | 1
						if p.RingType() == ring.ConjugateInvariant {
							g = rot(c.R.Intn(p.N())) // the conjugate-invariant ring has the powers of 5 only
						}
						c.Feature("g=%d", g)
						full(kg.GenSwitchingKeyForGalois(g, sk), s, under(g), "galois")
					case 6:
						if p.RingType() == ring.Standard {
							full(kg.GenSwitchingKeyForRowRotation(sk), s, under(root-1), "row-rotation")
						}
					case 7:
						var ks []int
						for i := 1 + c.R.Intn(3); i > 0; i-- {
							ks = append(ks, c.R.Intn(2*p.N())-p.N())
						}
						conj := p.RingType() == ring.Standard && c.R.Intn(2) == 0
						var set *rlwe.RotationKeySet
						want := map[uint64]bool{}
						if c.R.Intn(4) == 0 && p.N() <= 32 {
							set = kg.GenRotationKeysForInnerSum(sk)
							for i := 0; i < p.LogN()-1; i++ {
								want[rot(1<<uint(i))] = true
							}
							if p.RingType() == ring.Standard {
								want[root-1] = true
							} else {
								want[rot(p.N()/2)] = true
							}
						} else {
							set = kg.GenRotationKeysForRotations(ks, conj, sk)
							for _, k := range ks {
								want[rot(k)] = true
							}
							if conj {
								want[root-1] = true
							}
						}
						c.Check(len(set.Keys) == len(want), "set/count", "%d keys instead of %d", len(set.Keys), len(want))
						for g := range want {
							k, ok := set.GetRotationKey(g)
							if c.Check(ok && k != nil, "set/missing", "no key for Galois element %d (rotations %v)", g, ks) {
								full(k, s, under(g), "set")
							}
						}
					}
				}
				c.Check(sameQP(skKeep, sk.Value), "secret-modified", "generating keys changed the secret key")
			})

			// Galois elements and their inverses
			r.Cases("galois", 500, 5000, func(c *Case) {
				p := c.keyParams(10, 0)
				root := p.RingQ().NthRoot
				k, l := c.R.Intn(8*p.N())-4*p.N(), c.R.Intn(8*p.N())-4*p.N()
				c.Feature("k=%d l=%d", k, l)
				g, h := p.GaloisElementForColumnRotationBy(k), p.GaloisElementForColumnRotationBy(l)
				c.Check(g == powMod(5, uint64(((k%int(root))+int(root))%int(root)), root), "element", "Galois element of %d is %d", k, g)
				c.Check(p.GaloisElementForColumnRotationBy(k+l) == g*h%root, "compose", "Galois elements of %d and %d do not compose", k, l)
				c.Check(p.InverseGaloisElement(g)*g%root == 1, "inverse", "inverse of %d is %d modulo %d", g, p.InverseGaloisElement(g), root)
				if p.RingType() == ring.Standard {
					c.Check(p.GaloisElementForRowRotation() == root-1, "row", "row rotation element %d", p.GaloisElementForRowRotation())
				}
			})

			// the noise must be there and have the announced deviation
			r.Cases("noise-law", 12, 120, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 10, maxLogN: 12, minQ: 1, maxQ: 2, minP: 1, maxP: 2, lo: 40, hi: 61, types: []ring.Type{ring.Standard}})
				p, err := rlwe.NewParameters(p.LogN(), p.Q(), p.P(), p.N()/2, []float64{2, 3.2, 5, 8.5, 15}[c.R.Intn(5)], p.RingType())
				if err != nil {
					c.Fatal("params", "%v", err)
				}
				c.Feature("%s sigma=%v", describe(p), p.Sigma())
				kg := rlwe.NewKeyGenerator(p)
				sk, pk := kg.GenKeyPair()
				// with the library's own ring operations: N is large
				rq := p.RingQ()
				n := float64(p.N())
				law := func(what string, b *ring.Poly) {
					e := rq.NewPoly()
					rq.InvNTTLvl(0, b, e)
					s2, sum := 0.0, 0.0
					for _, x := range e.Coeffs[0] {
						v := float64(x)
						if x > rq.Modulus[0]>>1 {
							v = -float64(rq.Modulus[0] - x)
						}
						sum += v
						s2 += v * v
					}
					sd := math.Sqrt(s2 / n)
					want := math.Sqrt(p.Sigma()*p.Sigma() + 1.0/12)
					c.Check(math.Abs(sd-want) < 8*want/math.Sqrt(2*n)+0.01, "deviation", "noise of the %s has deviation %v instead of %v over %v coefficients", what, sd, want, n)
					c.Check(math.Abs(sum) < 8*want*math.Sqrt(n), "mean", "noise of the %s sums to %v over %v coefficients", what, sum, n)
				}
				open := func(b, a, s *ring.Poly) *ring.Poly {
					e := rq.NewPoly()
					rq.MulCoeffsMontgomeryLvl(0, a, s, e)
					rq.AddLvl(0, e, b, e)
					return e
				}
				law("public key", open(pk.Value[0].Q, pk.Value[1].Q, sk.Value.Q))
				// a key from zero to zero is its noise
				swk := kg.GenSwitchingKey(rlwe.NewSecretKey(p), sk)
				for _, v := range swk.Value {
					e := open(v[0].Q, v[1].Q, sk.Value.Q)
					rq.InvMFormLvl(0, e, e)
					law("switching key", e)
				}
				g := kg.GenSecretKeyGaussian()
				e := rq.NewPoly()
				rq.InvMFormLvl(0, g.Value.Q, e)
				law("Gaussian secret", e)
				// ternary secrets
				pr := []float64{0.5, 1.0 / 3, 0.9, 0.1 + 0.8*c.R.Float64()}[c.R.Intn(4)]
				rq.InvMFormLvl(0, kg.GenSecretKeyWithDistrib(pr).Value.Q, e)
				rq.InvNTTLvl(0, e, e)
				zero, one := 0, 0
				for _, x := range e.Coeffs[0] {
					if x == 0 {
						zero++
					} else if x == 1 {
						one++
					}
				}
				c.binom("distribution", int64(zero), int64(n), pr, "zeros of a secret")
				c.binom("distribution", int64(one), int64(p.N()-zero), 0.5, "ones among the others")
			})
		})
}
