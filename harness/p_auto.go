package main

import (
	"math/bits"

	"fast-ksw/ring"
)

// autRef applies X -> X^g to coefficients in Z_q[X]/(X^N+1).
func autRef(a []uint64, g uint64, q uint64) []uint64 {
	N := uint64(len(a))
	out := make([]uint64, N)
	for i := uint64(0); i < N; i++ {
		e := (i * (g % (2 * N))) % (2 * N)
		v := a[i] % q
		if e >= N {
			out[e-N] = (q - v) % q
		} else {
			out[e] = v
		}
	}
	return out
}

func eqMod(got, want []uint64, q uint64) int {
	for j := range want {
		if got[j]%q != want[j]%q || got[j] > q {
			return j
		}
	}
	return -1
}

func init() {
	register("R05", "one case = ring, level, polynomial and an automorphism exponent, monomial degree or shift (including 0, negative and larger than the degree); result compared coefficient by coefficient with the definition, in both representations, operand compared bit for bit; distinct = operation x exponent x shape",
		func(r *Run) {
			r.Cases("automorphism", 500, 10000, func(c *Case) {
				R := c.randRingType(9, 4, ring.Standard)
				L := len(R.Modulus)
				level := c.R.Intn(L)
				N := uint64(R.N)
				g := c.R.Uint64()%(2*N) | 1
				switch c.R.Intn(4) {
				case 0:
					g = powMod(5, c.R.Uint64()%N, 2*N)
				case 1:
					g = 2*N - 1
				}
				a := randPoly(c.R, R.N, R.Modulus)
				keep := copyCoeffs(a)
				c.Feature("std N=%d L=%d level=%d g=%d", R.N, L, level, g)
				o := garbagePoly(c.R, R.N, L)
				R.Permute(a, g, o)
				na := R.NewPoly()
				R.NTT(a, na)
				nkeep := copyCoeffs(na)
				p := garbagePoly(c.R, R.N, L)
				pb := copyCoeffs(p)
				form := c.R.Intn(3)
				switch form {
				case 0:
					level = L - 1
					R.PermuteNTT(na, g, p)
				case 1:
					R.PermuteNTTLvl(level, na, g, p)
				case 2:
					R.PermuteNTTWithIndexLvl(level, na, R.PermuteNTTIndex(g), p)
				}
				acc := randPoly(c.R, R.N, R.Modulus)
				acc0 := copyCoeffs(acc)
				R.PermuteNTTWithIndexAndAddNoModLvl(level, na, R.PermuteNTTIndex(g), acc)
				c.Check(eqCoeffs(a.Coeffs, keep) && eqCoeffs(na.Coeffs, nkeep), "automorphism/operand", "operand modified")
				if level+1 < L {
					c.Check(eqCoeffs(p.Coeffs[level+1:], pb[level+1:]) && eqCoeffs(acc.Coeffs[level+1:], acc0[level+1:]), "automorphism/above-level", "wrote above level")
				}
				for i, q := range R.Modulus {
					want := autRef(a.Coeffs[i], g, q)
					if j := eqMod(o.Coeffs[i], want, q); j >= 0 {
						c.Fatal("Permute", "N=%d g=%d limb %d coefficient %d", R.N, g, i, j)
					}
					if i > level {
						continue
					}
					back := make([]uint64, R.N)
					R.InvNTTSingle(i, p.Coeffs[i], back)
					if j := eqMod(back, want, q); j >= 0 {
						c.Fatal("PermuteNTT", "form=%d N=%d g=%d limb %d coefficient %d", form, R.N, g, i, j)
					}
					for j := range back {
						c.Check(acc.Coeffs[i][j] == acc0[i][j]+p.Coeffs[i][j], "PermuteNTTAndAdd", "N=%d g=%d limb %d index %d", R.N, g, i, j)
					}
					c.Event(2 * R.N)
				}
			})
			r.Cases("lower-level-permute", 100, 1000, func(c *Case) {
				R := c.randRingType(7, 5, ring.Standard)
				L := len(R.Modulus)
				lvl := c.R.Intn(L)
				a := randPoly(c.R, R.N, R.Modulus[:lvl+1])
				o := garbagePoly(c.R, R.N, lvl+1)
				g := c.R.Uint64()%(2*uint64(R.N)) | 1
				c.Feature("N=%d L=%d lvl=%d g=%d", R.N, L, lvl, g)
				R.Permute(a, g, o)
				for i, q := range R.Modulus[:lvl+1] {
					if j := eqMod(o.Coeffs[i], autRef(a.Coeffs[i], g, q), q); j >= 0 {
						c.Fatal("Permute", "N=%d g=%d limb %d coefficient %d", R.N, g, i, j)
					}
				}
			})
			r.Cases("automorphism-ci", 250, 5000, func(c *Case) {
				R := c.randRingType(8, 3, ring.ConjugateInvariant)
				L := len(R.Modulus)
				level := c.R.Intn(L)
				g := powMod(5, c.R.Uint64()%uint64(R.N), uint64(4*R.N))
				a := randPoly(c.R, R.N, R.Modulus)
				c.Feature("ci N=%d L=%d level=%d g=%d", R.N, L, level, g)
				na := R.NewPoly()
				R.NTT(a, na)
				o := garbagePoly(c.R, R.N, L)
				R.PermuteNTTLvl(level, na, g, o)
				for i, q := range R.Modulus[:level+1] {
					want := autRef(ciUnfold(a.Coeffs[i], q), g, q)[:R.N]
					back := make([]uint64, R.N)
					R.InvNTTSingle(i, o.Coeffs[i], back)
					if j := eqMod(back, want, q); j >= 0 {
						c.Fatal("PermuteNTT/ci", "N=%d g=%d limb %d coefficient %d", R.N, g, i, j)
					}
					c.Event(R.N)
				}
			})
			r.Cases("composition", 150, 3000, func(c *Case) {
				R := c.randRingType(8, 3, ring.Standard)
				m := 2 * uint64(R.N)
				g, h := c.R.Uint64()%m|1, c.R.Uint64()%m|1
				c.Feature("N=%d g=%d h=%d", R.N, g, h)
				a := randPoly(c.R, R.N, R.Modulus)
				x, y, z := R.NewPoly(), R.NewPoly(), R.NewPoly()
				R.PermuteNTT(a, g, x)
				R.PermuteNTT(x, h, y)
				R.PermuteNTT(a, g*h%m, z)
				c.Check(eqCoeffs(y.Coeffs, z.Coeffs), "composition", "N=%d g=%d h=%d", R.N, g, h)
				gi := invMod2k(g, m)
				R.PermuteNTT(x, gi, y)
				c.Check(eqCoeffs(y.Coeffs, a.Coeffs), "inverse", "N=%d g=%d", R.N, g)
				n := uint64(1) << uint(2+c.R.Intn(16))
				l := ring.GenGaloisParams(n, 5)
				w := uint64(1)
				for i := range l {
					c.Check(l[i] == w, "GenGaloisParams", "n=%d i=%d", n, i)
					w = w * 5 % (2 * n)
				}
				c.Check(len(l) == int(n>>1), "GenGaloisParams/len", "n=%d", n)
			})
			r.Cases("monomial-shift", 500, 10000, func(c *Case) {
				R := c.randRingType(8, 3, ring.Standard)
				N := R.N
				a := randPoly(c.R, N, R.Modulus)
				if c.R.Intn(4) == 0 {
					for j := range a.Coeffs[0] {
						if c.R.Intn(2) == 0 {
							a.Coeffs[0][j] = 0
						}
					}
				}
				keep := copyCoeffs(a)
				d := c.R.Intn(4*N) - 2*N
				if c.R.Intn(8) == 0 {
					d = []int{0, N, 2 * N, -N, N - 1, N + 1, 1, -1, 5 * N}[c.R.Intn(9)]
				}
				inplace := c.R.Intn(3) == 0
				mode := c.Idx % 4
				o := garbagePoly(c.R, N, len(R.Modulus))
				src := a
				if inplace {
					src = a.CopyNew()
					o = src
				}
				c.Feature("mode=%d N=%d d=%d inplace=%v L=%d", mode, N, d, inplace, len(R.Modulus))
				var ref func(v []uint64, limb int, q uint64) []uint64
				switch mode {
				case 0: // multiplication by X^d
					if !inplace && c.R.Intn(2) == 0 {
						o = R.MultByMonomialNew(src, d)
					} else {
						R.MultByMonomial(src, d, o)
					}
					ref = func(v []uint64, limb int, q uint64) []uint64 {
						out := make([]uint64, N)
						for i := range v {
							e := ((i+d)%(2*N) + 2*N) % (2 * N)
							if e >= N {
								out[e-N] = (q - v[i]) % q
							} else {
								out[e] = v[i]
							}
						}
						return out
					}
				case 1: // circular shift to the left
					R.Shift(src, d, o)
					ref = func(v []uint64, limb int, q uint64) []uint64 {
						out := make([]uint64, N)
						for i := range out {
							out[i] = v[((i+d)%N+N)%N]
						}
						return out
					}
					if !inplace { // the result must not share memory with the operand
						x := o.Coeffs[0][0]
						src.Coeffs[0][((d%N)+N)%N] ^= 1
						c.Check(o.Coeffs[0][0] == x, "Shift/alias", "result of Shift(%d) shares memory with its operand", d)
						src.Coeffs[0][((d%N)+N)%N] ^= 1
					}
				case 2: // bit reversal
					R.BitReverse(src, o)
					lg := bits.Len(uint(N)) - 1
					ref = func(v []uint64, limb int, q uint64) []uint64 {
						out := make([]uint64, N)
						for i := range v {
							out[bits.Reverse64(uint64(i))>>uint(64-lg)] = v[i]
						}
						return out
					}
				case 3: // Rotate: shift of the bit-reversed evaluations
					R.Rotate(src, d, o)
					ref = func(v []uint64, limb int, q uint64) []uint64 {
						// transform(v) in natural order shifted left by d
						t := make([]uint64, N)
						R.NTTSingle(limb, v, t)
						lg := bits.Len(uint(N)) - 1
						u := make([]uint64, N)
						for i := range u {
							k := ((i+d)%N + N) % N
							u[bits.Reverse64(uint64(i))>>uint(64-lg)] = t[bits.Reverse64(uint64(k))>>uint(64-lg)]
						}
						R.InvNTTSingle(limb, u, u)
						return u
					}
				}
				name := []string{"MultByMonomial", "Shift", "BitReverse", "Rotate"}[mode]
				for i, q := range R.Modulus {
					if j := eqMod(o.Coeffs[i], ref(keep[i], i, q), q); j >= 0 {
						c.Fatal(name, "N=%d d=%d inplace=%v limb %d coefficient %d: got %d", N, d, inplace, i, j, o.Coeffs[i][j])
					}
					c.Event(N)
				}
				if !inplace {
					c.Check(eqCoeffs(a.Coeffs, keep), name+"/operand", "operand modified (d=%d)", d)
				}
			})
			r.Cases("map-dimension", 100, 2000, func(c *Case) {
				// Y = X^(N/n): the transform of p(X^gap) obtained from the transform of p
				n := 1 << uint(4+c.R.Intn(4))
				gap := 1 << uint(c.R.Intn(8))
				N := n * gap
				mod := pickPrimes(c.R, c.few(3), uint64(2*N), 30, 61)
				small, large := getRing(n, mod, ring.Standard), getRing(N, mod, ring.Standard)
				c.Feature("n=%d N=%d L=%d", n, N, len(mod))
				a := randPoly(c.R, n, mod)
				na := small.NewPoly()
				small.NTT(a, na)
				o := garbagePoly(c.R, N, len(mod))
				ring.MapSmallDimensionToLargerDimensionNTT(na, o)
				large.InvNTT(o, o)
				for i := range mod {
					for j := 0; j < N; j++ {
						want := uint64(0)
						if j%gap == 0 {
							want = a.Coeffs[i][j/gap]
						}
						c.Check(o.Coeffs[i][j] == want, "MapSmallDimension", "n=%d N=%d coefficient %d", n, N, j)
					}
				}
			})
			r.Cases("fold-unfold", 200, 4000, func(c *Case) {
				n, lo := 1<<uint(c.logN(4, 8)), 20
				if c.Large {
					lo = 30
				}
				mod := pickPrimes(c.R, c.few(4), uint64(4*n), lo, 61)
				ci, std := getRing(n, mod, ring.ConjugateInvariant), getRing(2*n, mod, ring.Standard)
				level := c.R.Intn(len(mod))
				c.Feature("n=%d moduli=%v level=%d", n, mod, level)
				a := randPoly(c.R, n, mod)
				na := ci.NewPoly()
				ci.NTT(a, na)
				keep := copyCoeffs(na)
				o := garbagePoly(c.R, 2*n, len(mod))
				ob := copyCoeffs(o)
				std.UnfoldConjugateInvariantToStandard(level, na, o)
				c.Check(eqCoeffs(na.Coeffs, keep), "unfold/operand", "operand modified")
				c.Check(eqCoeffs(o.Coeffs[level+1:], ob[level+1:]), "unfold/above-level", "wrote above level")
				for i, q := range mod[:level+1] {
					back := make([]uint64, 2*n)
					std.InvNTTSingle(i, o.Coeffs[i], back)
					if j := eqMod(back, ciUnfold(a.Coeffs[i], q), q); j >= 0 {
						c.Fatal("Unfold", "n=%d limb %d coefficient %d", n, i, j)
					}
				}
				b := randPoly(c.R, 2*n, mod)
				nb := std.NewPoly()
				std.NTT(b, nb)
				keep = copyCoeffs(nb)
				f := garbagePoly(c.R, n, len(mod))
				fb := copyCoeffs(f)
				ci.FoldStandardToConjugateInvariant(level, nb, std.PermuteNTTIndex(uint64(4*n-1)), f)
				c.Check(eqCoeffs(nb.Coeffs, keep), "fold/operand", "operand modified")
				c.Check(eqCoeffs(f.Coeffs[level+1:], fb[level+1:]), "fold/above-level", "wrote above level")
				for i, q := range mod[:level+1] {
					want := autRef(b.Coeffs[i], uint64(4*n-1), q)
					for j := range want {
						want[j] = addMod(want[j], b.Coeffs[i][j], q)
					}
					back := make([]uint64, n)
					ci.InvNTTSingle(i, f.Coeffs[i], back)
					if j := eqMod(ciUnfold(back, q), want, q); j >= 0 {
						c.Fatal("Fold", "n=%d limb %d coefficient %d", n, i, j)
					}
					c.Event(4 * n)
				}
			})
		})
}

func invMod2k(g, m uint64) uint64 {
	x := uint64(1)
	for i := 0; i < 7; i++ {
		x *= 2 - g*x
	}
	return x % m
}
