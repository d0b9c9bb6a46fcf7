package main

import (
	"math/big"
	"math/bits"

	"fast-ksw/ring"
)

// evalRef returns the evaluations of the polynomial with coefficients a at the points described by x (std: x is the root; ci: x is the
// value X+X^-1 at the point).
func evalRef(a []uint64, xs []uint64, q uint64, t ring.Type) []uint64 {
	out := make([]uint64, len(xs))
	for k, x := range xs {
		if t == ring.Standard {
			var v uint64
			for i := len(a) - 1; i >= 0; i-- {
				v = addMod(mulMod(v, x, q), a[i], q)
			}
			out[k] = v
		} else {
			// a_0 + sum a_i T_i, T_i = X^i+X^-i, T_0=2, T_1=x
			t0, t1 := uint64(2)%q, x
			v := a[0] % q
			for i := 1; i < len(a); i++ {
				v = addMod(v, mulMod(a[i], t1, q), q)
				t0, t1 = t1, subMod(mulMod(x, t1, q), t0, q)
			}
			out[k] = v
		}
	}
	return out
}

// nttPoints finds the evaluation points of a limb by transforming the monomial X (index 1), and checks they are a full set.
func nttPoints(c *Case, R *ring.Ring, limb int) []uint64 {
	q := R.Modulus[limb]
	mono := make([]uint64, R.N)
	mono[1] = 1
	pts := make([]uint64, R.N)
	R.NTTSingle(limb, mono, pts)
	seen := map[uint64]bool{}
	for _, x := range pts {
		if seen[x] {
			c.Fatal("points-distinct", "transform of X repeats a value: N=%d q=%d", R.N, q)
		}
		seen[x] = true
		if R.Type() == ring.Standard {
			if powMod(x, uint64(R.N), q) != q-1 {
				c.Fatal("points-root", "evaluation point %d is not a root of X^%d+1 mod %d", x, R.N, q)
			}
		} else {
			// x = w+1/w with w a primitive 4N-th root: T_{2N}(x) = w^2N + w^-2N = -2
			t0, t1 := uint64(2)%q, x
			for i := 1; i < 2*R.N; i++ {
				t0, t1 = t1, subMod(mulMod(x, t1, q), t0, q)
			}
			if t1 != q-2 {
				c.Fatal("points-root", "evaluation point is not of the form w+1/w")
			}
		}
	}
	c.Event(R.N)
	return pts
}

// lazyRange: a lazy forward transform is documented to return values in [0,2q-1] congruent to the transform.
func (c *Case) lazyRange(got, want, q uint64, name string) {
	c.Event(1)
	switch {
	case got%q != want:
		c.Fatal(name, "got %d want %d mod %d", got, want, q)
	case got >= 2*q:
		c.Fatal(name+"/range", "%s returned %d = %.2f q, documented range is [0,2q-1]", name, got, float64(got)/float64(q))
	}
}

func init() {
	register("R03", "one case = one ring (N 16-4096, 1-5 primes of 14-61 bits, standard or conjugate invariant), one level, random or extreme polynomial, in place or not; transforms compared with direct evaluation at the transform's own points (shown to be the full root set), inverse round trips bit for bit, lazy outputs congruent and in range, products against schoolbook ring multiplication; distinct = ring shape x level x entry point x aliasing",
		func(r *Run) {
			r.Cases("evaluation", 250, 4000, func(c *Case) {
				R := c.randRing(8, 4)
				L := len(R.Modulus)
				limb := c.R.Intn(L)
				q := R.Modulus[limb]
				pts := nttPoints(c, R, limb)
				a := randPoly(c.R, R.N, R.Modulus)
				c.Feature("N=%d type=%s qbits=%d", R.N, typeName(R.Type()), bits.Len64(q))
				want := evalRef(a.Coeffs[limb], pts, q, R.Type())
				out := garbagePoly(c.R, R.N, L)
				R.NTTSingle(limb, a.Coeffs[limb], out.Coeffs[0])
				for j := range want {
					c.Check(out.Coeffs[0][j] == want[j], "NTTSingle", "N=%d q=%d point %d", R.N, q, j)
				}
				R.NTTSingleLazy(limb, a.Coeffs[limb], out.Coeffs[0])
				for j := range want {
					c.lazyRange(out.Coeffs[0][j], want[j], q, "NTTSingleLazy")
				}
				for _, lazy := range []bool{false, true} {
					o := garbagePoly(c.R, R.N, L)
					before := copyCoeffs(o)
					keep := copyCoeffs(a)
					level := c.R.Intn(L)
					use := c.R.Intn(2) == 0
					if !use {
						level = L - 1
						if c.R.Intn(2) == 0 {
							level = c.R.Intn(L)
							o.Coeffs = o.Coeffs[:level+1]
							before = before[:level+1]
						}
					}
					if !use && level < L-1 && lazy == false {
						// non-Lvl transforms act on the whole ring; restrict the operand as well
					}
					in := a
					if !use && level < L-1 {
						use = true
					}
					inplace := c.R.Intn(3) == 0
					if inplace {
						in = a.CopyNew()
						o = in
						before = copyCoeffs(o)
					}
					switch {
					case use && !lazy:
						R.NTTLvl(level, in, o)
					case use:
						R.NTTLazyLvl(level, in, o)
					case !lazy:
						R.NTT(in, o)
					default:
						R.NTTLazy(in, o)
					}
					if limb <= level {
						for j := range want {
							g := o.Coeffs[limb][j]
							if lazy {
								c.lazyRange(g, want[j], q, "NTTLazy")
								continue
							}
							c.Check(g == want[j], "NTT", "N=%d q=%d level=%d inplace=%v", R.N, q, level, inplace)
						}
					}
					if !inplace {
						c.Check(eqCoeffs(a.Coeffs, keep), "NTT/operand", "forward transform modified its operand")
					}
					if level+1 < len(before) {
						c.Check(eqCoeffs(o.Coeffs[level+1:], before[level+1:]), "NTT/above-level", "wrote above level")
					}
				}
			})
			r.Cases("roundtrip", 600, 12000, func(c *Case) {
				max := 10
				if c.Idx%16 == 0 {
					max = 12
				}
				R := c.randRing(max, 5)
				L := len(R.Modulus)
				level := c.R.Intn(L)
				a := randPoly(c.R, R.N, R.Modulus)
				inplace := c.R.Intn(2) == 0
				mode := c.R.Intn(6)
				c.Feature("N=%d L=%d level=%d type=%s mode=%d inplace=%v bits=%d", R.N, L, level, typeName(R.Type()), mode, inplace, bits.Len64(R.Modulus[0]))
				t, o := garbagePoly(c.R, R.N, L), garbagePoly(c.R, R.N, L)
				if inplace {
					t = a.CopyNew()
					o = t
				}
				src := a
				if inplace {
					src = t
				}
				if c.R.Intn(3) == 0 { // other representatives below 2q of the same residues
					keep := a
					a = a.CopyNew()
					for i := range src.Coeffs {
						for j := range src.Coeffs[i] {
							if c.R.Intn(2) == 0 {
								src.Coeffs[i][j] += R.Modulus[i]
							}
						}
					}
					if inplace {
						a = keep
					}
				}
				red := func(p *ring.Poly, i, j int) uint64 { return p.Coeffs[i][j] }
				switch mode {
				case 0:
					R.NTTLvl(level, src, t)
					R.InvNTTLvl(level, t, o)
				case 1: // lazy chain: lazy outputs feed the lazy inverse
					R.NTTLazyLvl(level, src, t)
					R.ReduceConstantLvl(level, t, t)
					R.InvNTTLazyLvl(level, t, o)
					for i := 0; i <= level; i++ {
						for j := range o.Coeffs[i] {
							c.Check(o.Coeffs[i][j] < 2*R.Modulus[i], "InvNTTLazy/range", "lazy inverse out of range")
						}
					}
					red = func(p *ring.Poly, i, j int) uint64 { return p.Coeffs[i][j] % R.Modulus[i] }
				case 2:
					R.InvNTTLvl(level, src, t)
					R.NTTLvl(level, t, o)
				case 3:
					R.InvNTTLazyLvl(level, src, t)
					R.NTTLvl(level, t, o)
				case 4:
					level = L - 1
					R.NTTLazy(src, t)
					R.ReduceConstant(t, t)
					R.InvNTT(t, o)
				case 5:
					level = L - 1
					R.InvNTTLazy(src, t)
					R.NTTLazy(t, o)
					red = func(p *ring.Poly, i, j int) uint64 { return p.Coeffs[i][j] % R.Modulus[i] }
				}
				for i := 0; i <= level; i++ {
					for j := 0; j < R.N; j++ {
						if red(o, i, j) != a.Coeffs[i][j] {
							c.Fatal("roundtrip", "mode=%d N=%d q=%d limb=%d index=%d: got %d want %d", mode, R.N, R.Modulus[i], i, j, o.Coeffs[i][j], a.Coeffs[i][j])
						}
					}
					c.Event(R.N)
				}
				// single-limb forms
				q := R.Modulus[level]
				v := make([]uint64, R.N)
				R.InvNTTSingle(level, a.Coeffs[level], v)
				w := make([]uint64, R.N)
				R.InvNTTSingleLazy(level, a.Coeffs[level], w)
				x := append([]uint64(nil), v...)
				R.NTTSingle(level, x, x)
				for j := range v {
					c.Check(v[j] < q && w[j] < 2*q && w[j]%q == v[j] && x[j] == a.Coeffs[level][j], "single", "single-limb transforms disagree at %d", j)
				}
			})
			r.Cases("product", 250, 5000, func(c *Case) {
				R := c.randRing(7, 3)
				L := len(R.Modulus)
				level := c.R.Intn(L)
				a, b := randPoly(c.R, R.N, R.Modulus), randPoly(c.R, R.N, R.Modulus)
				mont := c.R.Intn(2) == 0
				c.Feature("N=%d L=%d level=%d type=%s mont=%v bits=%d", R.N, L, level, typeName(R.Type()), mont, bits.Len64(R.Modulus[0]))
				na, nb := R.NewPolyLvl(level), R.NewPolyLvl(level)
				R.NTTLvl(level, a, na)
				if c.R.Intn(2) == 0 {
					R.NTTLazyLvl(level, b, nb)
					R.ReduceLvl(level, nb, nb)
				} else {
					R.NTTLvl(level, b, nb)
				}
				if mont {
					R.MFormLvl(level, nb, nb)
					R.MulCoeffsMontgomeryLvl(level, na, nb, na)
				} else {
					R.MulCoeffsLvl(level, na, nb, na)
				}
				R.InvNTTLvl(level, na, na)
				for i := 0; i <= level; i++ {
					want := ringMul(a.Coeffs[i], b.Coeffs[i], R.Modulus[i], R.Type())
					for j := range want {
						if na.Coeffs[i][j] != want[j] {
							c.Fatal("product", "N=%d q=%d type=%s coefficient %d: got %d want %d", R.N, R.Modulus[i], typeName(R.Type()), j, na.Coeffs[i][j], want[j])
						}
					}
					c.Event(R.N)
				}
			})
			r.Cases("largest", 16, 200, func(c *Case) { c.hugeTransform() })
			r.Cases("ring-views", 60, 600, func(c *Case) { ringViews(c) })
		})
}

// ringViews: the standard ring of a conjugate-invariant ring and back; folding and unfolding between the two.
func ringViews(c *Case) {
	N := 1 << uint(4+c.R.Intn(4))
	mod := pickPrimes(c.R, c.few(3), uint64(4*N), 30, 61)
	ci := getRing(N, mod, ring.ConjugateInvariant)
	std, err := ci.StandardRing()
	if err != nil || std.N != 2*N || std.Type() != ring.Standard {
		c.Fatal("StandardRing", "err=%v", err)
	}
	back, err := std.ConjugateInvariantRing()
	if err != nil || back.N != N || back.Type() != ring.ConjugateInvariant {
		c.Fatal("ConjugateInvariantRing", "err=%v", err)
	}
	same, err := ci.ConjugateInvariantRing()
	c.Check(err == nil && same.N == N && same.Type() == ring.ConjugateInvariant, "ConjugateInvariantRing/id", "not the identity")
	same, err = std.StandardRing()
	c.Check(err == nil && same.N == 2*N && same.Type() == ring.Standard, "StandardRing/id", "not the identity")
	c.Check(ci.N == N && ci.Type() == ring.ConjugateInvariant, "ring-views/receiver", "receiver modified")
	L := len(mod)
	level := c.R.Intn(L)
	c.Feature("N=%d L=%d level=%d", N, L, level)
	a := randPoly(c.R, N, mod)
	na := ci.NewPoly()
	ci.NTT(a, na)
	// the rebuilt ring transforms identically
	nb := ci.NewPoly()
	back.NTT(a, nb)
	c.Check(eqCoeffs(na.Coeffs, nb.Coeffs), "ring-views/transform", "ring rebuilt from its standard ring transforms differently")
	u := garbagePoly(c.R, 2*N, L)
	before := copyCoeffs(u)
	ci.UnfoldConjugateInvariantToStandard(level, na, u)
	c.Check(eqCoeffs(u.Coeffs[level+1:], before[level+1:]), "Unfold/above-level", "wrote above level")
	uc := std.NewPoly()
	for i := 0; i <= level; i++ {
		std.InvNTTSingle(i, u.Coeffs[i], uc.Coeffs[i])
		want := ciUnfold(a.Coeffs[i], mod[i])
		for j := range want {
			c.Check(uc.Coeffs[i][j] == want[j], "Unfold", "N=%d coefficient %d", N, j)
		}
	}
	// fold of a standard polynomial is p(X)+p(1/X)
	p := randPoly(c.R, 2*N, mod)
	np := std.NewPoly()
	std.NTT(p, np)
	idx := std.PermuteNTTIndex(std.NthRoot - 1)
	f := garbagePoly(c.R, N, L)
	before = copyCoeffs(f)
	ci.FoldStandardToConjugateInvariant(level, np, idx, f)
	c.Check(eqCoeffs(f.Coeffs[level+1:], before[level+1:]), "Fold/above-level", "wrote above level")
	for i := 0; i <= level; i++ {
		ci.InvNTTSingle(i, f.Coeffs[i], f.Coeffs[i])
		q := mod[i]
		for j := 0; j < N; j++ {
			var want uint64
			if j == 0 {
				want = addMod(p.Coeffs[i][0], p.Coeffs[i][0], q)
			} else {
				want = subMod(p.Coeffs[i][j], p.Coeffs[i][2*N-j], q)
			}
			c.Check(f.Coeffs[i][j] == want, "Fold", "N=%d coefficient %d: got %d want %d", N, j, f.Coeffs[i][j], want)
		}
	}
}

// ---- R04: primes and ring construction ------------------------------------------

func isNTTPrime(x, m uint64) bool { return x > 1 && x%m == 1 && bigU(x).ProbablyPrime(10) }

func init() {
	register("R04", "one case = a candidate integer, a prime-generation request, or a ring construction request (valid, or invalid in one way); primality against math/big Miller-Rabin, generated primes against a direct enumeration of the residue class, construction must succeed exactly on power-of-two degree >= 16 and non-empty distinct primes = 1 mod the root order; distinct = request",
		func(r *Run) {
			carm := []uint64{561, 1105, 1729, 2465, 2821, 6601, 8911, 3215031751, 3825123056546413051, 341550071728321, 4759123141, 3474749660383, 2152302898747, 25326001, 2047, 1373653, 3277, 5459, 5777, 10877, 1 << 61, 0, 1, 2, 3, 4, 18446744073709551557, 18446744073709551615}
			r.Cases("isprime", 400, 8000, func(c *Case) {
				for k := 0; k < 64; k++ {
					var x uint64
					switch c.R.Intn(4) {
					case 0:
						x = carm[c.R.Intn(len(carm))]
					case 1:
						x = c.R.Uint64() >> uint(c.R.Intn(60))
					case 2: // product of two close primes
						a := c.oddPrime() & 0xffffffff
						x = a * a
					default:
						x = c.oddPrime()
					}
					c.Check(ring.IsPrime(x) == bigU(x).ProbablyPrime(12), "IsPrime", "IsPrime(%d)=%v", x, ring.IsPrime(x))
				}
				c.Feature("batch %d", c.Idx)
			})
			r.Cases("generate", 300, 4000, func(c *Case) {
				lm := 5 + c.R.Intn(13)
				m := 1 << uint(lm)
				logq := lm + 6 + c.R.Intn(61-lm-6)
				if logq > 60 {
					logq = 60
				}
				n := 1 + c.R.Intn(12)
				if c.R.Intn(3) == 0 { // down to the smallest prime of the residue class
					logq = lm + 1 + c.R.Intn(5)
					n = 1 + c.R.Intn(24)
				}
				kind := c.R.Intn(3)
				if kind == 0 && c.R.Intn(4) == 0 {
					logq = 61
				}
				c.Feature("kind=%d logq=%d nth=%d n=%d", kind, logq, m, n)
				// availability by direct enumeration around 2^logq, alternating up and down
				base := uint64(1)<<uint(logq) + 1
				want := map[uint64]bool{}
				var order []uint64
				downOnly := kind == 2 || logq == 61
				for s := uint64(1); len(order) < n; s++ {
					up := base + s*uint64(m)
					if !downOnly && isNTTPrime(up, uint64(m)) {
						order = append(order, up)
					}
					if len(order) < n && s*uint64(m) < base-1 {
						if isNTTPrime(base-s*uint64(m), uint64(m)) {
							order = append(order, base-s*uint64(m))
						}
					} else if len(order) < n && downOnly {
						c.Count("unavailable", 1)
						var got []uint64
						if kind == 2 { // not enough primes: they must not be taken from elsewhere
							refused, _, _ := c.Try(func() { got = ring.GenerateNTTPrimesP(logq, m, n) })
							c.Check(refused, "generate/unavailable", "GenerateNTTPrimesP(%d, %d, %d) gave %v, there are only %v", logq, m, n, got, order)
						}
						return
					}
					if s > 1<<16 {
						return
					}
				}
				for _, p := range order {
					want[p] = true
				}
				var got []uint64
				switch kind {
				case 0:
					got = ring.GenerateNTTPrimes(logq, m, n)
				case 1:
					got = ring.GenerateNTTPrimesQ(logq, m, n)
				default:
					got = ring.GenerateNTTPrimesP(logq, m, n)
				}
				seen := map[uint64]bool{}
				for _, p := range got {
					c.Check(isNTTPrime(p, uint64(m)), "generate/ntt-prime", "%d is not a prime = 1 mod %d", p, m)
					c.Check(!seen[p], "generate/distinct", "%d twice", p)
					seen[p] = true
					c.Check(want[p], "generate/nearest", "logq=%d nth=%d n=%d kind=%d: %d is not among the nearest %v", logq, m, n, kind, p, order)
					if kind == 2 {
						c.Check(bits.Len64(p) <= logq, "generate/bits", "%d has more than %d bits", p, logq)
					}
				}
				c.Check(len(got) == n, "generate/count", "got %d of %d", len(got), n)
			})
			r.Cases("next-previous", 400, 6000, func(c *Case) {
				lm := 5 + c.R.Intn(12)
				logq := lm + 4 + c.R.Intn(61-lm-4)
				switch c.R.Intn(6) {
				case 0: // few candidates: small or top of the range
					logq = lm + 1 + c.R.Intn(5)
				case 1:
					logq = 61
				case 2: // few candidates in the residue class
					logq = 50 + c.R.Intn(12)
					lm = logq - 1 - c.R.Intn(12)
				}
				m := uint64(1) << uint(lm)
				l := nttPrimes(logq, m, 16)
				if len(l) == 0 {
					return
				}
				q := l[c.R.Intn(len(l))]
				if c.R.Intn(2) == 0 {
					q = l[0]
				}
				c.Feature("q=%d nth=%d", q, m)
				n, err := ring.NextNTTPrime(q, int(m))
				w := q + m
				for !isNTTPrime(w, m) && bits.Len64(w) <= 61 {
					w += m
				}
				if bits.Len64(w) > 61 {
					c.Check(err != nil, "next/error", "NextNTTPrime(%d,%d)=%d, which has more than 61 bits, without error", q, m, n)
				} else {
					c.Check(err == nil && n == w, "next", "NextNTTPrime(%d,%d)=%d,%v want %d", q, m, n, err, w)
				}
				p, err := ring.PreviousNTTPrime(q, int(m))
				w = q
				ok := false
				for w > m {
					w -= m
					if isNTTPrime(w, m) {
						ok = true
						break
					}
				}
				if !ok {
					c.Check(err != nil, "previous/error", "PreviousNTTPrime(%d,%d)=%d without error, but there is none", q, m, p)
				} else {
					c.Check(err == nil && p == w, "previous", "PreviousNTTPrime(%d,%d)=%d,%v want %d", q, m, p, err, w)
				}
			})
			r.Cases("construct", 600, 8000, func(c *Case) {
				t := ring.Type(c.R.Intn(2))
				N := 1 << uint(4+c.R.Intn(5))
				mod := pickPrimes(c.R, c.few(5), nthRootOf(N, t), 20, 61)
				valid := true
				mode := c.Idx % 9
				switch mode {
				case 1: // not a power of two
					N += 1 + c.R.Intn(N-1)
					valid = false
				case 2: // too small
					N = []int{0, 1, 2, 4, 8, -16}[c.R.Intn(6)]
					valid = false
				case 3: // duplicate
					mod = append(mod, mod[c.R.Intn(len(mod))])
					valid = false
				case 4: // composite = 1 mod NthRoot
					m := nthRootOf(N, t)
					x := (c.R.Uint64()>>uint(4+c.R.Intn(30)))/m*m + 1
					for x < 100 || bigU(x).ProbablyPrime(10) {
						x += m
					}
					mod[c.R.Intn(len(mod))] = x
					valid = false
				case 5: // prime, wrong residue
					x := c.oddPrime()
					for x%nthRootOf(N, t) == 1 {
						x = c.oddPrime()
					}
					mod[c.R.Intn(len(mod))] = x
					valid = false
				case 6:
					mod = nil
					valid = false
				case 7: // prime for the standard ring of the same degree, not for the conjugate invariant one
					t = ring.ConjugateInvariant
					m := uint64(2 * N)
					x := uint64(1)<<uint(30+c.R.Intn(30))/m*m + 1
					for !isNTTPrime(x, m) || isNTTPrime(x, 2*m) {
						x += m
					}
					mod = []uint64{x}
					valid = false
				case 8:
					t = ring.Type(2 + c.R.Intn(3))
					valid = false
				}
				c.Feature("mode=%d N=%d type=%d nmod=%d", mode, N, t, len(mod))
				var R *ring.Ring
				var err error
				in := append([]uint64(nil), mod...)
				p, v, st := c.Try(func() {
					switch {
					case t == ring.Standard && c.R.Intn(2) == 0:
						R, err = ring.NewRing(N, mod)
					case t == ring.ConjugateInvariant && c.R.Intn(2) == 0:
						R, err = ring.NewRingConjugateInvariant(N, mod)
					default:
						R, err = ring.NewRingFromType(N, mod, t)
					}
				})
				if p {
					c.Fatal("construct/panic", "mode=%d N=%d moduli=%v: panic %v\n%s", mode, N, mod, v, st)
				}
				c.Check((err == nil) == valid, "construct/accept", "mode=%d N=%d type=%d moduli=%v: err=%v, valid=%v", mode, N, t, mod, err, valid)
				for i := range in {
					c.Check(mod[i] == in[i], "construct/operand", "moduli modified")
				}
				if err != nil || !valid {
					return
				}
				c.Check(R.N == N && R.Type() == t && R.NthRoot == nthRootOf(N, t) && R.AllowsNTT, "construct/fields", "wrong ring fields")
				c.Check(R.ModulusBigint.Cmp(prodBig(in)) == 0, "construct/modulus", "wrong product of moduli")
				for i := range in {
					c.Check(R.Modulus[i] == in[i], "construct/moduli", "wrong moduli")
					c.Check(R.Mask[i] >= in[i] && R.Mask[i]>>1 < in[i] && R.Mask[i]&(R.Mask[i]+1) == 0, "construct/mask", "wrong mask")
				}
				mod[0]++ // the ring does not alias the caller's slice
				c.Check(R.Modulus[0] == in[0], "construct/alias", "ring aliases the caller's moduli")
				lvl := c.R.Intn(len(in))
				pl := R.NewPolyLvl(lvl)
				c.Check(pl.Level() == lvl && pl.Degree() == N && len(pl.Coeffs[lvl]) == N, "newpoly", "NewPolyLvl(%d)", lvl)
				full := R.NewPoly()
				c.Check(full.LenModuli() == len(in) && full.Level() == len(in)-1, "newpoly", "NewPoly")
				for i := range full.Coeffs {
					for j := range full.Coeffs[i] {
						if full.Coeffs[i][j] != 0 {
							c.Fatal("newpoly/zero", "NewPoly is not zero")
						}
					}
				}
			})
		})
}

var _ = big.NewInt
