package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"math/rand"

	"fast-ksw/ring"
	"fast-ksw/utils"

	"golang.org/x/crypto/blake2b"
)

func (c *Case) key(n int) []byte {
	k := make([]byte, n)
	c.R.Read(k)
	return k
}

func (c *Case) prng() utils.PRNG {
	p, err := utils.NewKeyedPRNG(c.key(32))
	if err != nil {
		panic(err)
	}
	return p
}

// signed reads limb 0 as a centred value and checks that every limb holds the same small integer.
func (c *Case) signedSmall(p *ring.Poly, moduli []uint64, level int, sig string) []int64 {
	out := make([]int64, len(p.Coeffs[0]))
	for j := range out {
		q := moduli[0]
		v := p.Coeffs[0][j] % q
		s := int64(v)
		if v > q>>1 {
			s = -int64(q - v)
		}
		out[j] = s
		for i := 0; i <= level; i++ {
			q := moduli[i]
			if p.Coeffs[i][j] > q {
				c.Fatal(sig+"/range", "limb %d value %d > %d", i, p.Coeffs[i][j], q)
			}
			w := uint64(0)
			if s >= 0 {
				w = uint64(s) % q
			} else {
				w = (q - uint64(-s)%q) % q
			}
			if p.Coeffs[i][j]%q != w {
				c.Fatal(sig+"/limbs", "coefficient %d: limb %d holds %d, limb 0 holds %d: not the same integer", j, i, p.Coeffs[i][j], s)
			}
		}
	}
	c.Event(len(out) * (level + 1))
	return out
}

// zscore test: |observed-expected| <= 7 sigma (false alarm below 3e-12) on a binomial count.
func (c *Case) binom(sig string, count, n int64, p float64, what string) {
	if n == 0 {
		return
	}
	sd := math.Sqrt(float64(n) * p * (1 - p))
	d := math.Abs(float64(count) - float64(n)*p)
	c.Check(d <= 7*sd+3, sig, "%s: %d of %d, expected fraction %.6f (%.1f sigma off)", what, count, n, p, d/(sd+1e-300))
}

func gaussCDF(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

// readForm draws the k-th sample by one of the four ways to read.
func readForm(s interface {
	Read(*ring.Poly)
	ReadNew() *ring.Poly
	ReadLvl(int, *ring.Poly)
	ReadLvlNew(int) *ring.Poly
}, k int, p *ring.Poly) *ring.Poly {
	switch k & 3 {
	case 0:
		s.Read(p)
	case 1:
		s.ReadLvl(p.Level(), p)
	case 2:
		return s.ReadNew()
	default:
		return s.ReadLvlNew(p.Level())
	}
	return p
}

func samplerRing(c *Case, maxLogN int) *ring.Ring {
	logN := c.logN(4, maxLogN)
	n := 1 + c.R.Intn(4)
	if !c.Large && c.R.Intn(12) == 0 {
		n = 12 + c.R.Intn(14)
	}
	lo := 16
	if c.Large {
		lo = 28
	}
	t := ring.Standard
	if c.R.Intn(4) == 0 {
		t = ring.ConjugateInvariant
	}
	return getRing(1<<uint(logN), pickPrimes(c.R, n, nthRootOf(1<<uint(logN), t), lo, 61), t)
}

func init() {
	register("R08", "one case = ring, sampler kind and parameters, keyed random source, several reads at random levels; support, agreement of the limbs, untouched limbs above the level, exact Hamming weight; pooled frequencies, moments and serial correlations against the stated distribution (acceptance band 7 sigma); distinct = ring x sampler x parameters",
		func(r *Run) {
			r.Cases("support", 600, 10000, func(c *Case) {
				R := samplerRing(c, 9)
				L := len(R.Modulus)
				level := c.R.Intn(L)
				kind := c.R.Intn(4)
				reads := 3
				c.Feature("kind=%d N=%d moduli=%v level=%d", kind, R.N, R.Modulus, level)
				var readLvl func(int, *ring.Poly)
				var readNew func() *ring.Poly
				var readLvlNew func(int) *ring.Poly
				var read func(*ring.Poly)
				var verify func(p *ring.Poly, level int)
				switch kind {
				case 0:
					s := ring.NewUniformSampler(c.prng(), R)
					readLvl, readNew, readLvlNew, read = s.ReadLvl, s.ReadNew, s.ReadLvlNew, s.Read
					verify = func(p *ring.Poly, level int) {
						for i := 0; i <= level; i++ {
							for j, v := range p.Coeffs[i] {
								c.Check(v < R.Modulus[i], "uniform/range", "limb %d coefficient %d: %d >= %d", i, j, v, R.Modulus[i])
							}
						}
					}
				case 1:
					sigma := 0.5 + c.R.Float64()*10
					bound := 1 + c.R.Intn(60)
					if c.R.Intn(3) == 0 {
						sigma, bound = 3.2, 19
					}
					if float64(bound) < sigma {
						bound = int(6 * sigma)
					}
					c.Feature("sigma=%.3f bound=%d", sigma, bound)
					s := ring.NewGaussianSampler(c.prng(), R, sigma, bound)
					readLvl, readNew, readLvlNew, read = s.ReadLvl, s.ReadNew, s.ReadLvlNew, s.Read
					verify = func(p *ring.Poly, level int) {
						for j, v := range c.signedSmall(p, R.Modulus, level, "gaussian") {
							c.Check(v <= int64(bound) && v >= -int64(bound), "gaussian/bound", "coefficient %d = %d beyond bound %d", j, v, bound)
						}
					}
					// another distribution, over another ring's moduli
					if other := samplerRing(c, 9); other.N == R.N {
						b3, l3 := 1+c.R.Intn(40), c.R.Intn(len(other.Modulus))
						x := garbagePoly(c.R, R.N, len(other.Modulus))
						x0 := copyCoeffs(x)
						s.ReadFromDistLvl(l3, x, other, 1+10*c.R.Float64(), b3)
						for j, v := range c.signedSmall(x, other.Modulus, l3, "gaussian-dist") {
							c.Check(v <= int64(b3) && v >= -int64(b3), "gaussian/dist-bound", "coefficient %d = %d beyond bound %d", j, v, b3)
						}
						c.Check(eqCoeffs(x.Coeffs[l3+1:], x0[l3+1:]), "sampler/above-level", "ReadFromDistLvl wrote above the level")
						c.Count("read_from_dist", 1)
					}
					// ReadAndAdd adds a sample on top of the polynomial
					base := randPoly(c.R, R.N, R.Modulus)
					b0 := copyCoeffs(base)
					lim := int64(bound)
					if c.R.Intn(2) == 0 {
						s.ReadAndAddLvl(level, base)
					} else {
						b2 := 1 + c.R.Intn(8)
						lim = int64(b2)
						s.ReadAndAddFromDistLvl(level, base, R, 1.5, b2)
					}
					diff := ring.NewPoly(R.N, L)
					for i := 0; i <= level; i++ {
						for j := range diff.Coeffs[i] {
							c.Check(base.Coeffs[i][j] < R.Modulus[i], "gaussian/add-range", "ReadAndAdd result %d >= %d", base.Coeffs[i][j], R.Modulus[i])
							diff.Coeffs[i][j] = subMod(base.Coeffs[i][j], b0[i][j], R.Modulus[i])
						}
					}
					for j, v := range c.signedSmall(diff, R.Modulus, level, "gaussian-add") {
						c.Check(v <= lim && v >= -lim, "gaussian/add-bound", "coefficient %d error %d beyond bound %d", j, v, lim)
					}
					c.Check(eqCoeffs(base.Coeffs[level+1:], b0[level+1:]), "sampler/above-level", "ReadAndAdd wrote above the level")
				case 2, 3:
					mont := c.R.Intn(2) == 0
					var s *ring.TernarySampler
					hw := -1
					if kind == 2 {
						p := []float64{0.5, 1. / 3, 0.1, 0.9, 0.25 + c.R.Float64()/2}[c.R.Intn(5)]
						c.Feature("p=%.4f mont=%v", p, mont)
						s = ring.NewTernarySampler(c.prng(), R, p, mont)
					} else {
						hw = 1 + c.R.Intn(R.N+4)
						if c.R.Intn(4) == 0 {
							hw = R.N
						}
						c.Feature("hw=%d mont=%v", hw, mont)
						s = ring.NewTernarySamplerWithHammingWeight(c.prng(), R, hw, mont)
						if hw > R.N {
							hw = R.N
						}
					}
					readLvl, readNew, readLvlNew, read = s.ReadLvl, s.ReadNew, s.ReadLvlNew, s.Read
					verify = func(p *ring.Poly, level int) {
						x := ring.NewPoly(R.N, len(p.Coeffs))
						for i := 0; i <= level; i++ {
							for j, v := range p.Coeffs[i] {
								c.Check(v < R.Modulus[i], "ternary/range", "limb %d: %d >= %d", i, v, R.Modulus[i])
								x.Coeffs[i][j] = v
								if mont {
									x.Coeffs[i][j] = invMontRefC(v, R.Modulus[i])
								}
							}
						}
						nz := 0
						for j, v := range c.signedSmall(x, R.Modulus, level, "ternary") {
							c.Check(v >= -1 && v <= 1, "ternary/support", "coefficient %d = %d", j, v)
							if v != 0 {
								nz++
							}
						}
						if hw >= 0 {
							c.Check(nz == hw, "ternary/hamming", "Hamming weight %d, requested %d", nz, hw)
						}
					}
				}
				for k := 0; k < reads; k++ {
					p := garbagePoly(c.R, R.N, L)
					p0 := copyCoeffs(p)
					readLvl(level, p)
					verify(p, level)
					c.holdPoly("sampler", p)
					c.Check(eqCoeffs(p.Coeffs[level+1:], p0[level+1:]), "sampler/above-level", "ReadLvl wrote above the level")
				}
				p := garbagePoly(c.R, R.N, L)
				read(p)
				verify(p, L-1)
				c.holdPoly("sampler", p)
				p = readNew()
				c.holdPoly("sampler", p)
				c.Check(p.Level() == L-1 && p.Degree() == R.N, "sampler/shape", "ReadNew: %d limbs of %d", p.Level()+1, p.Degree())
				verify(p, L-1)
				p = readLvlNew(level)
				c.Check(p.Level() == level && p.Degree() == R.N, "sampler/shape", "ReadLvlNew(%d): %d limbs of %d", level, p.Level()+1, p.Degree())
				verify(p, level)
				c.holdPoly("sampler", p)
				c.Check(!shared(p), "sampler/shared-memory", "rows of a sample share memory")
				read(garbagePoly(c.R, R.N, L))
				readNew()
				readLvlNew(level)
			})

			r.Cases("uniform-statistics", 16, 128, func(c *Case) {
				logN := 10
				lq := 17 + c.R.Intn(44)
				// primes just above 2^(lq-1) and just below 2^lq: rejection matters and does not
				q := pickPrimes(c.R, 1, 2<<uint(logN), lq, lq)[0]
				R := getRing(1<<uint(logN), []uint64{q}, ring.Standard)
				s := ring.NewUniformSampler(c.prng(), R)
				c.Feature("q=%d", q)
				const buckets = 64
				var cnt [buckets]int64
				var lowBits [16]int64
				var prev uint64
				var gt, n int64
				var eqs int64
				reads := 200
				p := R.NewPoly()
				for k := 0; k < reads; k++ {
					p = readForm(s, k, p)
					for _, v := range p.Coeffs[0] {
						hi, lo := bits.Mul64(v, buckets)
						b, _ := bits.Div64(hi, lo, q)
						cnt[b]++
						lowBits[v&15]++
						if n > 0 {
							if v > prev {
								gt++
							}
							if v == prev {
								eqs++
							}
						}
						prev = v
						n++
					}
				}
				for b := range cnt {
					c.binom("uniform/frequency", cnt[b], n, 1.0/buckets, "bucket of [0,q)")
				}
				for b := range lowBits {
					c.binom("uniform/low-bits", lowBits[b], n, 1.0/16, "low bits")
				}
				c.Check(float64(eqs) <= float64(n)/float64(q)*20+12, "uniform/repeats", "%d equal neighbours in %d", eqs, n)
				c.Check(math.Abs(float64(gt)-float64(n)/2) <= 7*math.Sqrt(float64(n)/12)+3, "uniform/serial", "ascents %d of %d", gt, n)
				c.Count("uniform_samples", int(n))
			})

			// a uniform element of Z_Q has independent residues
			r.Cases("uniform-independence", 12, 100, func(c *Case) {
				L := 2 + c.R.Intn(4)
				R := getRing(256, pickPrimes(c.R, L, 512, 20, 61), ring.Standard)
				s := ring.NewUniformSampler(c.prng(), R)
				c.Feature("moduli=%v", R.Modulus)
				const reads = 200
				corr := make([][]float64, L)
				same := make([][]int, L)
				for i := range corr {
					corr[i], same[i] = make([]float64, L), make([]int, L)
				}
				old := R.NewPoly()
				for k := 0; k < reads; k++ {
					p := s.ReadNew()
					for i := 0; i < L; i++ {
						x := func(q *ring.Poly, i, j int) float64 { return float64(q.Coeffs[i][j])/float64(R.Modulus[i]) - 0.5 }
						for j := 0; j < R.N; j++ {
							corr[i][i] += x(p, i, j) * x(old, i, j) // against the sample before
							for m := 0; m < i; m++ {
								corr[i][m] += x(p, i, j) * x(p, m, j)
								corr[m][i] += x(p, i, j) * x(p, m, (j+1)%R.N)
								if p.Coeffs[i][j] == p.Coeffs[m][j] {
									same[i][m]++
								}
							}
						}
					}
					old = p
				}
				n := float64(reads * R.N)
				for i := range corr {
					for m := range corr {
						c.Check(math.Abs(corr[i][m]) <= 8*math.Sqrt(n)/12+64, "uniform/correlation", "rows %d and %d: correlation %v over %v coefficients", i, m, 12*corr[i][m]/n, n)
						c.Check(float64(same[i][m]) <= 20*n/math.Exp2(19)+12, "uniform/same-values", "rows %d and %d agree in %d of %v coefficients", i, m, same[i][m], n)
					}
				}
				c.Count("uniform_samples", reads*R.N*L)
			})

			r.Cases("gaussian-statistics", 24, 200, func(c *Case) {
				R := getRing(1024, pickPrimes(c.R, 1, 2048, 30, 50), ring.Standard)
				sigma := []float64{3.2, 1, 2.5, 6.7, 0.8}[c.R.Intn(5)]
				bound := int(math.Floor(6 * sigma))
				if c.R.Intn(3) == 0 {
					bound = int(math.Ceil(2 * sigma))
				}
				c.Feature("sigma=%.2f bound=%d", sigma, bound)
				s := ring.NewGaussianSampler(c.prng(), R, sigma, bound)
				t := ring.NewGaussianSampler(c.prng(), R, 1+8*c.R.Float64(), 3+c.R.Intn(40))
				hist := map[int64]int64{}
				var n, same, pairs int64
				p := R.NewPoly()
				form := c.Idx % 5
				var last int64
				var sxy float64
				for k := 0; k < 600; k++ {
					switch form {
					case 0:
						p = readForm(s, k, p)
					case 1:
						s.ReadLvl(0, p)
					case 2:
						p.Zero()
						s.ReadAndAddLvl(0, p)
					case 3: // any distribution, whatever the sampler's own
						t.ReadFromDistLvl(0, p, R, sigma, bound)
					case 4:
						p.Zero()
						t.ReadAndAddFromDistLvl(0, p, R, sigma, bound)
					}
					for _, v := range c.signedSmall(p, R.Modulus, 0, "gaussian") {
						hist[v]++
						n++
						if n > 1 {
							sxy += float64(v) * float64(last)
							if v != 0 && last != 0 {
								pairs++
								if (v > 0) == (last > 0) {
									same++
								}
							}
						}
						last = v
					}
				}
				// exact law: |x| = floor(|Z|*sigma+0.5) conditioned on <= bound, sign uniform
				norm := 2*gaussCDF((float64(bound)+0.5)/sigma) - 1
				variance := 0.0
				for v := int64(-bound); v <= int64(bound); v++ {
					pr := (gaussCDF((float64(v)+0.5)/sigma) - gaussCDF((float64(v)-0.5)/sigma)) / norm
					variance += pr * float64(v*v)
					c.binom("gaussian/frequency", hist[v], n, pr, "value frequency")
				}
				for _, t := range []float64{1, 1.75, 2.5, 3, 3.45, 3.8} { // the tails: their mass, and the balance of their signs
					lo := int64(math.Ceil(t*sigma - 0.5 + 1e-9))
					if lo < 1 {
						lo = 1
					}
					pr, pos, neg := 0.0, int64(0), int64(0)
					for v := lo; v <= int64(bound); v++ {
						pr += (gaussCDF((float64(v)+0.5)/sigma) - gaussCDF((float64(v)-0.5)/sigma)) / norm
						pos, neg = pos+hist[v], neg+hist[-v]
					}
					c.binom("gaussian/tail", pos+neg, n, 2*pr, fmt.Sprintf("values beyond %.2f sigma", t))
					c.binom("gaussian/tail-sign", pos, pos+neg, 0.5, fmt.Sprintf("positive values beyond %.2f sigma", t))
				}
				c.binom("gaussian/sign-serial", same, pairs, 0.5, "equal signs of neighbours")
				c.Check(math.Abs(sxy/float64(n)) <= 7*variance/math.Sqrt(float64(n)), "gaussian/correlation", "lag-1 covariance %f, variance %f", sxy/float64(n), variance)
				c.Count("gaussian_samples", int(n))
			})

			// the shape of the tail beyond the strips of the sampler's tables, where there are only a few samples in ten thousand
			r.Cases("gaussian-tail", 6, 60, func(c *Case) {
				R := getRing(1<<12, pickPrimes(c.R, 1, 1<<13, 30, 50), ring.Standard)
				q := R.Modulus[0]
				sigma := 100 + 2000*c.R.Float64()
				s := ring.NewGaussianSampler(c.prng(), R, sigma, int(6*sigma))
				c.Feature("sigma=%.1f", sigma)
				cuts := []float64{3.3, 3.45, 3.6, 3.8, 4, 4.3, 4.6}
				cnt, lim := make([]int64, len(cuts)), make([]uint64, len(cuts))
				for i, t := range cuts {
					lim[i] = uint64(math.Ceil(t * sigma))
				}
				n := int64(0)
				p := R.NewPoly()
				for ; n < 16<<20; n += int64(R.N) {
					s.Read(p)
					for _, v := range p.Coeffs[0] {
						if v > q/2 {
							v = q - v
						}
						for i := 0; i < len(lim) && v >= lim[i]; i++ {
							cnt[i]++
						}
					}
				}
				for i, t := range cuts {
					pr := func(x uint64) float64 { return 2 * gaussCDF(-(float64(x)-0.5)/sigma) }
					out := pr(uint64(6*sigma) + 1)
					c.binom("gaussian/tail-shape", cnt[i], n, (pr(lim[i])-out)/(1-out), fmt.Sprintf("values beyond %.2f sigma", t))
				}
				c.Count("gaussian_samples", int(n))
				c.Event(len(cuts))
			})

			r.Cases("ternary-statistics", 24, 200, func(c *Case) {
				R := getRing(1024, pickPrimes(c.R, 1, 2048, 30, 50), ring.Standard)
				p := []float64{1. / 3, 0.5, 0.1, 0.75, 0.25 + c.R.Float64()/2}[c.R.Intn(5)]
				c.Feature("p=%.5f", p)
				s := ring.NewTernarySampler(c.prng(), R, p, false)
				var joint [3][3]int64
				var joint2 [3][3]int64
				var n int64
				pol := R.NewPoly()
				for k := 0; k < 200; k++ {
					pol = readForm(s, k, pol)
					v := c.signedSmall(pol, R.Modulus, 0, "ternary")
					for j := 1; j < len(v); j++ {
						joint[v[j-1]+1][v[j]+1]++
						n++
						if j > 1 {
							joint2[v[j-2]+1][v[j]+1]++
						}
					}
				}
				pr := []float64{(1 - p) / 2, p, (1 - p) / 2}
				for a := 0; a < 3; a++ {
					c.binom("ternary/frequency", joint[a][0]+joint[a][1]+joint[a][2], n, pr[a], "value frequency")
					for b := 0; b < 3; b++ {
						c.binom("ternary/independence", joint[a][b], n, pr[a]*pr[b], "pair of neighbouring coefficients")
						c.binom("ternary/independence-2", joint2[a][b], n-200, pr[a]*pr[b], "pair of coefficients at distance 2")
					}
				}
				c.Count("ternary_samples", int(n))
			})

			r.Cases("sparse-statistics", 16, 100, func(c *Case) {
				R := getRing(64, pickPrimes(c.R, 1, 128, 30, 50), ring.Standard)
				hw := 1 + c.R.Intn(64)
				c.Feature("hw=%d", hw)
				s := ring.NewTernarySamplerWithHammingWeight(c.prng(), R, hw, false)
				var nz [64]int64
				var plus, tot, adj int64
				reads := int64(4000)
				pol := R.NewPoly()
				squares := 0.0
				for k := int64(0); k < reads; k++ {
					pol = readForm(s, int(k), pol)
					v := c.signedSmall(pol, R.Modulus, 0, "sparse")
					sum := int64(0)
					for _, x := range v {
						sum += x
					}
					squares += float64(sum * sum)
					for j := range v {
						if v[j] != 0 {
							nz[j]++
							tot++
							if v[j] > 0 {
								plus++
							}
							if v[j] == v[(j+1)%64] {
								adj++
							}
						}
					}
				}
				for j := range nz {
					c.binom("sparse/positions", nz[j], reads, float64(hw)/64, "position occupied")
				}
				c.binom("sparse/signs", plus, tot, 0.5, "positive coefficients")
				// the signs are independent: the square of their sum is the Hamming weight on average
				c.Check(math.Abs(squares/float64(reads*int64(hw))-1) <= 8*math.Sqrt(2/float64(reads)), "sparse/sign-sum", "mean square of the sum of the signs %v for a Hamming weight of %d", squares/float64(reads), hw)
				if hw > 1 {
					c.binom("sparse/neighbours", adj, tot, float64(hw-1)/63/2, "equal neighbours")
				}
			})
			// one sampler over many reads: no stretch of its output comes twice, and no coefficient tells about a later one
			r.Cases("stream", 12, 120, func(c *Case) {
				R := getRing(1<<uint(6+c.R.Intn(6)), pickPrimes(c.R, 1, 1<<13, 30, 50), ring.Standard)
				kind := c.Idx % 4
				var read func(*ring.Poly)
				w := 24
				switch kind {
				case 0:
					w = 6
					read = ring.NewUniformSampler(c.prng(), R).Read
				case 1, 2:
					sigma := 2 + c.R.Float64()*4
					s := ring.NewGaussianSampler(c.prng(), R, sigma, int(6*sigma))
					read = s.Read
					if c.R.Intn(2) == 0 {
						read = func(p *ring.Poly) { p.Zero(); s.ReadAndAddLvl(0, p) }
					}
				case 3:
					w = 80
					read = ring.NewTernarySampler(c.prng(), R, []float64{0.5, 1. / 3, 2. / 3}[c.R.Intn(3)], false).Read
				}
				c.Feature("kind=%d N=%d", kind, R.N)
				const n = 1 << 18
				v := make([]int64, 0, n)
				p := R.NewPoly()
				for len(v) < n {
					read(p)
					if kind == 0 {
						for _, x := range p.Coeffs[0] {
							v = append(v, int64(x))
						}
						continue
					}
					v = append(v, c.signedSmall(p, R.Modulus, 0, "stream")...)
				}
				const mul = 0x9e3779b97f4a7c15
				top, h := uint64(1), uint64(0)
				for i := 0; i < w; i++ {
					top *= mul
				}
				seen := make(map[uint64]int, n)
				for i := range v {
					h = h*mul + uint64(v[i]) + 1<<40
					if i >= w {
						h -= top * (uint64(v[i-w]) + 1<<40)
					}
					if i < w-1 {
						continue
					}
					at, ok := seen[h]
					if !ok {
						seen[h] = i
						continue
					}
					same := true
					for k := 0; k < w; k++ {
						same = same && v[i-k] == v[at-k]
					}
					c.Check(!same, "stream/repeated", "coefficients %d to %d of the stream are those at %d", i-w+1, i, at-w+1)
				}
				c.Count("windows", len(v)-w+1)
				// signs and magnitudes, each against the signs and magnitudes up to 64 places later
				sign, mag := make([]float64, len(v)), make([]float64, len(v))
				mean := 0.0
				for i, x := range v {
					if kind == 0 {
						sign[i] = float64(x)/float64(R.Modulus[0]) - 0.5
						mag[i] = math.Abs(sign[i])
					} else {
						mag[i] = math.Min(math.Abs(float64(x)), 4)
						if x > 0 {
							sign[i] = 1
						} else if x < 0 {
							sign[i] = -1
						}
					}
					mean += mag[i]
				}
				mean /= float64(len(v))
				vs, vm := 0.0, 0.0
				for i := range mag {
					mag[i] -= mean
					vs += sign[i] * sign[i]
					vm += mag[i] * mag[i]
				}
				vs, vm = vs/float64(len(v)), vm/float64(len(v))
				for lag := 1; lag <= 64; lag++ {
					var ss, sm, ms, mm float64
					for i := lag; i < len(v); i++ {
						ss += sign[i] * sign[i-lag]
						sm += sign[i] * mag[i-lag]
						ms += mag[i] * sign[i-lag]
						mm += mag[i] * mag[i-lag]
					}
					rn := math.Sqrt(float64(len(v)))
					for _, t := range []struct {
						what string
						z    float64
					}{{"signs", ss / vs / rn}, {"sign with earlier magnitude", sm / math.Sqrt(vs*vm) / rn}, {"magnitude with earlier sign", ms / math.Sqrt(vs*vm) / rn}, {"magnitudes", mm / vm / rn}} {
						c.Check(math.Abs(t.z) <= 8, "stream/correlation", "lag %d, %s: %.1f sigma", lag, t.what, t.z)
					}
				}
				c.Event(len(v))
			})

			r.Cases("scalar-uniform", 40, 400, func(c *Case) {
				v := c.R.Uint64()>>uint(1+c.R.Intn(60)) + 2
				mask := uint64(1)<<uint(bits.Len64(v-1)) - 1
				c.Feature("v=%d", v)
				pr := c.prng()
				var low int64
				half := v / 2
				const n = 4000
				for k := 0; k < n; k++ {
					x := ring.RandUniform(pr, v, mask)
					c.Check(x < v, "randuniform/range", "RandUniform(%d)=%d", v, x)
					if x < half {
						low++
					}
				}
				c.binom("randuniform/frequency", low, n, float64(half)/float64(v), "lower half")
			})
		})

	register("R09", "one case = key, a random sequence of Clock calls with random buffer sizes, and clock settings; stream compared byte for byte with a second generator and with the BLAKE2b XOF of the key; distinct = key length x call sequence",
		func(r *Run) {
			r.Cases("keyed", 500, 10000, func(c *Case) {
				kl := []int{0, 1, 16, 32, 63, 64}[c.R.Intn(6)]
				key := c.key(kl)
				var in []byte
				if kl > 0 || c.R.Intn(2) == 0 {
					in = key
				}
				key0 := append([]byte(nil), key...)
				a, err := utils.NewKeyedPRNG(in)
				b, err2 := utils.NewKeyedPRNG(append([]byte(nil), key...))
				if err != nil || err2 != nil {
					c.Fatal("keyed/error", "NewKeyedPRNG(%d bytes): %v %v", kl, err, err2)
				}
				x, _ := blake2b.NewXOF(blake2b.OutputLengthUnknown, key)
				c.Feature("key=%x", key)
				n := 1 + c.R.Intn(20)
				for k := 0; k < n; k++ {
					sz := c.R.Intn(200)
					ba, bb, bx := make([]byte, sz), make([]byte, sz), make([]byte, sz)
					c.R.Read(ba)
					a.Clock(ba)
					b.Clock(bb)
					x.Read(bx)
					c.Check(bytes.Equal(ba, bb), "keyed/deterministic", "two generators with the same key and calls disagree at call %d", k)
					c.Check(bytes.Equal(ba, bx), "keyed/stream", "stream is not the BLAKE2b XOF of the key at call %d", k)
					c.Check(a.GetClock() == uint64(k+1), "keyed/clock", "GetClock=%d after %d calls", a.GetClock(), k+1)
				}
				c.Check(bytes.Equal(key, key0), "keyed/key", "key modified")
				// a different key gives a different stream
				if kl > 0 {
					k2 := append([]byte(nil), key...)
					k2[c.R.Intn(kl)] ^= 1 << uint(c.R.Intn(8))
					d, _ := utils.NewKeyedPRNG(k2)
					e, _ := utils.NewKeyedPRNG(key)
					bd, be := make([]byte, 32), make([]byte, 32)
					d.Clock(bd)
					e.Clock(be)
					c.Check(!bytes.Equal(bd, be), "keyed/distinct", "one flipped key bit, same stream")
				}
			})
			r.Cases("setclock", 300, 5000, func(c *Case) {
				key := c.key(32)
				sz := 1 + c.R.Intn(64)
				a, _ := utils.NewKeyedPRNG(key)
				b, _ := utils.NewKeyedPRNG(key)
				buf, buf2 := make([]byte, sz), make([]byte, sz)
				pos := uint64(0)
				c.Feature("key=%x size=%d", key[:4], sz)
				for step := 0; step < 6; step++ {
					target := uint64(c.R.Intn(30))
					err := a.SetClock(buf, target)
					if target < pos {
						c.Check(err != nil, "setclock/past", "SetClock(%d) at clock %d: no error", target, pos)
					} else {
						c.Check(err == nil, "setclock/error", "SetClock(%d) at clock %d: %v", target, pos, err)
						for pos < target {
							b.Clock(buf2)
							pos++
						}
					}
					c.Check(a.GetClock() == pos, "setclock/clock", "GetClock=%d, want %d", a.GetClock(), pos)
					a.Clock(buf)
					b.Clock(buf2)
					pos++
					c.Check(bytes.Equal(buf, buf2), "setclock/stream", "stream after SetClock(%d) differs from the %d-th output", target, pos)
				}
			})
			r.Cases("fresh", 50, 500, func(c *Case) {
				seen := map[uint64]bool{}
				c.Feature("fresh %d", c.Idx)
				ones := 0
				for k := 0; k < 200; k++ {
					p, err := utils.NewPRNG()
					if err != nil {
						c.Fatal("fresh/error", "%v", err)
					}
					b := make([]byte, 8)
					p.Clock(b)
					v := binary.BigEndian.Uint64(b)
					c.Check(!seen[v], "fresh/repeat", "two fresh generators gave the same output")
					seen[v] = true
					u := utils.RandUint64()
					c.Check(!seen[u], "fresh/repeat-uint", "RandUint64 repeats")
					seen[u] = true
					ones += bits.OnesCount64(v)
				}
				c.binom("fresh/bits", int64(ones), 200*64, 0.5, "one bits")
			})
			r.Cases("oversize-key", 5, 5, func(c *Case) {
				c.Feature("%d", c.Idx)
				_, err := utils.NewKeyedPRNG(c.key(65 + c.R.Intn(100)))
				c.Check(err != nil, "keyed/oversize", "a key longer than 64 bytes was accepted")
			})
		})

	register("B01", "one case = random slices (including empty and single-element) and parameters; every helper compared with a naive definition; operands compared bit for bit, results checked for shared memory; distinct = lengths x parameters",
		func(r *Run) {
			r.Cases("slices", 800, 20000, func(c *Case) {
				n := c.R.Intn(20)
				if c.R.Intn(10) == 0 {
					n = 0
				}
				k := c.R.Intn(61) - 30
				c.Feature("n=%d k=%d", n, k)
				u := make([]uint64, n)
				for i := range u {
					u[i] = uint64(c.R.Intn(6))
					if c.R.Intn(3) == 0 {
						u[i] = c.R.Uint64()
					}
				}
				u0 := append([]uint64(nil), u...)
				at := func(i int) int { return ((i+k)%n + n) % n }
				rot := utils.RotateUint64Slice(u, k)
				i64, f64, c128 := make([]int64, n), make([]float64, n), make([]complex128, n)
				for i := range u {
					i64[i], f64[i], c128[i] = int64(u[i]), float64(u[i]), complex(float64(u[i]), -float64(i))
				}
				ri, rf, rc := utils.RotateInt64Slice(i64, k), utils.RotateFloat64Slice(f64, k), utils.RotateComplex128Slice(c128, k)
				gi, _ := utils.RotateSlice(i64, k).([]int64)
				gu, _ := utils.RotateSlice(u, k).([]uint64)
				gf, _ := utils.RotateSlice(f64, k).([]float64)
				gc, _ := utils.RotateSlice(c128, k).([]complex128)
				c.Check(len(rot) == n && len(ri) == n && len(rf) == n && len(rc) == n && len(gi) == n && len(gu) == n && len(gf) == n && len(gc) == n, "rotate/length", "rotated slice has another length")
				for i := range u {
					j := at(i)
					c.Check(rot[i] == u[j] && gu[i] == u[j], "RotateUint64Slice", "n=%d k=%d index %d", n, k, i)
					c.Check(ri[i] == i64[j] && gi[i] == i64[j], "RotateInt64Slice", "n=%d k=%d index %d", n, k, i)
					c.Check(rf[i] == f64[j] && gf[i] == f64[j], "RotateFloat64Slice", "n=%d k=%d index %d", n, k, i)
					c.Check(rc[i] == c128[j] && gc[i] == c128[j], "RotateComplex128Slice", "n=%d k=%d index %d", n, k, i)
				}
				if n > 0 {
					rot[0], ri[0], rf[0], rc[0] = ^u[0], ^i64[0], f64[0]+1e300, 1e300
					c.Check(utilsEq(u, u0) && i64[0] == int64(u0[0]) && f64[0] == float64(u0[0]) && real(c128[0]) == float64(u0[0]), "rotate/aliases", "k=%d: the result shares memory with the operand", k)
					rot[n-1], ri[n-1], rf[n-1], rc[n-1] = ^u[n-1], ^i64[n-1], f64[n-1]+1e300, 1e300
					for i := range u {
						c.Check(u[i] == u0[i] && i64[i] == int64(u0[i]) && f64[i] == float64(u0[i]), "rotate/aliases", "k=%d: the result shares memory with the operand", k)
					}
				}
				if n%2 == 0 {
					s := utils.RotateUint64Slots(u, k)
					h := n / 2
					for i := 0; i < h; i++ {
						j := ((i+k)%h + h) % h
						c.Check(s[i] == u[j] && s[h+i] == u[h+j], "RotateUint64Slots", "n=%d k=%d index %d", n, k, i)
					}
				}
				// comparisons
				w := append([]uint64(nil), u...)
				mode := c.R.Intn(4)
				switch {
				case mode == 1 && n > 0:
					w[c.R.Intn(n)]++
				case mode == 2:
					w = append(w, uint64(c.R.Intn(3)))
				case mode == 3 && n > 0:
					w = w[:n-1]
				}
				same := utilsEq(u, w)
				wi, w8, u8 := make([]int64, len(w)), make([]uint8, len(w)), make([]uint8, n)
				for i := range w {
					wi[i], w8[i] = int64(w[i]), uint8(w[i])
				}
				for i := range u {
					u8[i] = uint8(u[i])
				}
				c.Check(utils.EqualSliceUint64(u, w) == same, "EqualSliceUint64", "lengths %d %d, got %v", n, len(w), !same)
				c.Check(utils.EqualSliceInt64(i64, wi) == same, "EqualSliceInt64", "lengths %d %d, got %v", n, len(w), !same)
				c.Check(utils.EqualSliceUint8(u8, w8) == bytes.Equal(u8, w8), "EqualSliceUint8", "lengths %d %d", n, len(w))
				x := uint64(c.R.Intn(7))
				in, mx, dist := false, uint64(0), map[uint64]bool{}
				ints := make([]int, n)
				for i, v := range u {
					in = in || v == x
					if v > mx {
						mx = v
					}
					dist[v] = true
					ints[i] = int(v)
				}
				c.Check(utils.IsInSliceUint64(x, u) == in && utils.IsInSliceInt(int(x), ints) == in, "IsInSlice", "x=%d in %v", x, u)
				c.Check(utils.MaxSliceUint64(u) == mx, "MaxSliceUint64", "%v", u)
				c.Check(utils.AllDistinct(u) == (len(dist) == n), "AllDistinct", "%v", u)
				c.Check(utilsEq(u, u0), "slices/operand", "operand modified")
			})
			r.Cases("scalars", 500, 10000, func(c *Case) {
				a, b := wide(c.R, 7), wide(c.R, 7)
				if c.R.Intn(5) == 0 {
					b = a
				}
				c.Feature("a=%d b=%d", a, b)
				mx, mn := a, b
				if b > a {
					mx, mn = b, a
				}
				c.Check(utils.MaxUint64(a, b) == mx && utils.MinUint64(a, b) == mn, "MinMaxUint64", "%d %d", a, b)
				ia, ib := int(a), int(b)
				imx, imn := ia, ib
				if ib > ia {
					imx, imn = ib, ia
				}
				c.Check(utils.MaxInt(ia, ib) == imx && utils.MinInt(ia, ib) == imn && ring.Min(ia, ib) == imn, "MinMaxInt", "%d %d", ia, ib)
				c.Check(utils.MaxFloat64(float64(ia), float64(ib)) == math.Max(float64(ia), float64(ib)), "MaxFloat64", "%d %d", ia, ib)
				bl := uint64(1 + c.R.Intn(63))
				idx := a & (1<<bl - 1)
				rev := uint64(0)
				for i := uint64(0); i < bl; i++ {
					rev |= (idx >> i & 1) << (bl - 1 - i)
				}
				c.Check(utils.BitReverse64(idx, bl) == rev, "BitReverse64", "BitReverse64(%d,%d)", idx, bl)
				c.Check(utils.HammingWeight64(a) == uint64(bits.OnesCount64(a)), "HammingWeight64", "%d", a)
				lo := (c.R.Float64() - 0.5) * math.Pow(10, float64(c.R.Intn(12)))
				hi := lo + c.R.Float64()*math.Pow(10, float64(c.R.Intn(12)))
				for k := 0; k < 8; k++ {
					f := utils.RandFloat64(lo, hi)
					z := utils.RandComplex128(lo, hi)
					tol := 1e-9 * (math.Abs(lo) + math.Abs(hi))
					ok := func(v float64) bool { return v >= lo-tol && v <= hi+tol }
					c.Check(ok(f) && ok(real(z)) && ok(imag(z)), "RandFloat64", "[%g,%g]: %g %v", lo, hi, f, z)
				}
			})
			r.Cases("buffer", 500, 10000, func(c *Case) {
				type item struct {
					kind int
					u    []uint64
					b    []uint8
				}
				var items []item
				w := utils.NewBuffer(nil)
				if c.R.Intn(2) == 0 {
					w = utils.NewBuffer(make([]byte, 0, c.R.Intn(100)))
				}
				var ref []byte
				put := func(v uint64) {
					var t [8]byte
					binary.BigEndian.PutUint64(t[:], v)
					ref = append(ref, t[:]...)
				}
				n := c.R.Intn(20)
				for k := 0; k < n; k++ {
					it := item{kind: c.R.Intn(4)}
					m := 1
					if it.kind >= 2 {
						m = c.R.Intn(6)
					}
					for i := 0; i < m; i++ {
						it.u = append(it.u, wide(c.R, 251))
						it.b = append(it.b, uint8(c.R.Intn(256)))
					}
					switch it.kind {
					case 0:
						w.WriteUint8(it.b[0])
						ref = append(ref, it.b[0])
					case 1:
						w.WriteUint64(it.u[0])
						put(it.u[0])
					case 2:
						w.WriteUint8Slice(it.b)
						ref = append(ref, it.b...)
					case 3:
						w.WriteUint64Slice(it.u)
						for _, v := range it.u {
							put(v)
						}
					}
					items = append(items, it)
				}
				c.Feature("%d items %d bytes", n, len(ref))
				c.Check(bytes.Equal(w.Bytes(), ref), "buffer/bytes", "written bytes differ from the big-endian encoding")
				rd := utils.NewBuffer(w.Bytes())
				for _, it := range items {
					switch it.kind {
					case 0:
						c.Check(rd.ReadUint8() == it.b[0], "buffer/uint8", "round trip")
					case 1:
						c.Check(rd.ReadUint64() == it.u[0], "buffer/uint64", "round trip")
					case 2:
						o := make([]uint8, len(it.b))
						rd.ReadUint8Slice(o)
						c.Check(bytes.Equal(o, it.b), "buffer/uint8slice", "round trip")
					case 3:
						o := make([]uint64, len(it.u))
						rd.ReadUint64Slice(o)
						c.Check(utilsEq(o, it.u), "buffer/uint64slice", "round trip")
					}
				}
				c.Check(len(rd.Bytes()) == 0, "buffer/rest", "%d bytes left", len(rd.Bytes()))
			})
		})
}

func utilsEq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = rand.Int
