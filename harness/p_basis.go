package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
)

// bigUniform draws an integer in [0,Q), with the boundaries, the middle and small values over-represented.
func (c *Case) bigUniform(Q *big.Int) *big.Int {
	switch c.R.Intn(14) {
	case 0:
		return big.NewInt(int64(c.R.Intn(3)))
	case 1:
		return new(big.Int).Sub(Q, big.NewInt(int64(1+c.R.Intn(3))))
	case 2:
		x := new(big.Int).Rsh(Q, 1)
		x.Add(x, big.NewInt(int64(c.R.Intn(5)-2)))
		return x.Mod(x, Q)
	case 3:
		return new(big.Int).Rand(c.R, new(big.Int).Rsh(Q, uint(c.R.Intn(Q.BitLen()))).Add(new(big.Int), big.NewInt(1)))
	case 4:
		x := new(big.Int).Rand(c.R, new(big.Int).Add(new(big.Int).Rsh(Q, uint(20+c.R.Intn(30))), big.NewInt(1)))
		return x.Mod(x.Sub(Q, x), Q)
	}
	return new(big.Int).Rand(c.R, Q)
}

// basisValue is bigUniform over the basis, or a value whose reconstruction terms y_i = x*(Q/q_i)^-1 mod q_i are all
// next to q_i (the largest sums the conversion can meet), or all next to a chosen value.
func (c *Case) basisValue(m []uint64) *big.Int {
	Q := prodBig(m)
	if c.R.Intn(5) > 0 {
		return c.bigUniform(Q)
	}
	x := new(big.Int)
	half := c.R.Intn(4) == 0
	for _, q := range m {
		y := new(big.Int).SetUint64(q - 1 - uint64(c.R.Intn(3)))
		if half && c.R.Intn(2) == 0 {
			y.SetUint64(c.R.Uint64() % q)
		}
		x.Add(x, y.Mul(y, new(big.Int).Quo(Q, new(big.Int).SetUint64(q))))
	}
	return x.Mod(x, Q)
}

// nearBoundary: x mod Q lies within Q*2^-38 of a multiple of Q: the float correction term may round either way there.
func nearBoundary(x, Q *big.Int) bool {
	m := new(big.Int).Mod(x, Q)
	d := new(big.Int).Sub(Q, m)
	if d.Cmp(m) < 0 {
		m = d
	}
	return new(big.Int).Lsh(m, 38).Cmp(Q) < 0
}

// consistentExtension checks that the limbs of out are, for one k allowed, x + k*Q (k=0, or -1/+1 near a boundary).
func consistentExtension(get func(i int) uint64, moduli []uint64, x, Q *big.Int) (bool, string) {
	ks := []int64{0}
	if nearBoundary(x, Q) {
		ks = []int64{0, 1, -1}
	}
	why := ""
	for _, k := range ks {
		v := new(big.Int).Mul(Q, big.NewInt(k))
		v.Add(v, x)
		ok := true
		for i, p := range moduli {
			if get(i)%p != modU(v, p) {
				ok = false
				why = fmt.Sprintf("limb %d (mod %d): got %d, want residue %d of %v", i, p, get(i), modU(v, p), v)
				break
			}
		}
		if ok {
			return true, ""
		}
	}
	return false, why
}

// twoBases draws disjoint moduli for Q and P.
func (c *Case) twoBases(maxLogN, maxQ, maxP int, t ring.Type) (rq, rp *ring.Ring) {
	if c.Large {
		maxQ, maxP = minInt(maxQ, 4), minInt(maxP, 3)
	}
	logN := c.logN(4, maxLogN)
	nq, np := 1+c.R.Intn(maxQ), 1+c.R.Intn(maxP)
	lo := logN + 4
	if c.Large {
		lo = 28
	}
	if lo < 16 {
		lo = 16
	}
	l := 20 + c.R.Intn(42)
	if l < lo {
		l = lo
	}
	h := l
	if c.R.Intn(2) == 0 {
		l, h = lo, 61
	}
	if l == h && l < 30 {
		h = l + 6
	}
	ps := pickPrimes(c.R, nq+np, nthRootOf(1<<uint(logN), t), l, h)
	return getRing(1<<uint(logN), ps[:nq], t), getRing(1<<uint(logN), ps[nq:], t)
}

// largeBases draws bases with more moduli than usual: up to the 100 that parameters accept.
func (c *Case) largeBases(maxQ, maxP int) (rq, rp *ring.Ring) {
	nq, np := maxQ-c.R.Intn(3), maxP-c.R.Intn(3)
	switch c.R.Intn(3) {
	case 0:
		nq = 9 + c.R.Intn(maxQ-8)
	case 1:
		np = 9 + c.R.Intn(maxP-8)
	}
	lo := 30 + c.R.Intn(28)
	hi := minInt(61, lo+6)
	if c.R.Intn(2) == 0 {
		lo, hi = 57, 61
	}
	ps := widePrimes(c.R, nq+np, 64, lo, hi, nil)
	return getRing(16, ps[:nq], ring.Standard), getRing(16, ps[nq:], ring.Standard)
}

func init() {
	register("R06", "one case = two disjoint bases of 1-8 moduli (16-61 bits), or of up to 100, levels, and a full polynomial of integers including values at and around 0, Q/2 and Q; every limb compared with the math/big value of the extension, quotient or block representative; distinct = bases x levels x operation",
		func(r *Run) {
			modup := func(c *Case, large bool) {
				rq, rp := c.twoBases(7, 8, 8, ring.Standard)
				if large {
					rq, rp = c.largeBases(100, 100)
				}
				be := ring.NewBasisExtender(rq, rp)
				if c.R.Intn(2) == 0 {
					be = be.ShallowCopy()
				}
				for rep := 0; rep < 2; rep++ {
					lq, lp := c.R.Intn(len(rq.Modulus)), c.R.Intn(len(rp.Modulus))
					from, to, lf, lt, dir := rq, rp, lq, lp, "QtoP"
					if rep == 1 {
						from, to, lf, lt, dir = rp, rq, lp, lq, "PtoQ"
					}
					c.Feature("%s N=%d from=%v lvl=%d to=%v lvl=%d", dir, rq.N, from.Modulus, lf, to.Modulus, lt)
					fm := from.Modulus[:lf+1]
					Q := prodBig(fm)
					xs := make([]*big.Int, rq.N)
					for j := range xs {
						xs[j] = c.basisValue(fm)
					}
					in := garbagePoly(c.R, rq.N, len(from.Modulus))
					for i, q := range fm {
						for j := range xs {
							in.Coeffs[i][j] = modU(xs[j], q)
						}
					}
					keep := copyCoeffs(in)
					out := garbagePoly(c.R, rq.N, len(to.Modulus))
					ob := copyCoeffs(out)
					if rep == 0 {
						be.ModUpQtoP(lf, lt, in, out)
					} else {
						be.ModUpPtoQ(lf, lt, in, out)
					}
					c.Check(eqCoeffs(in.Coeffs, keep), "modup/operand", "operand modified")
					c.Check(eqCoeffs(out.Coeffs[lt+1:], ob[lt+1:]), "modup/above-level", "limbs above the level written")
					for j := range xs {
						ok, why := consistentExtension(func(i int) uint64 { return out.Coeffs[i][j] }, to.Modulus[:lt+1], xs[j], Q)
						c.Check(ok, "modup-"+dir, "coefficient %d x=%v Q=%v: %s", j, xs[j], Q, why)
						for i, p := range to.Modulus[:lt+1] {
							if out.Coeffs[i][j] >= 4*p {
								c.Fatal("modup/range", "limb %d value %d >= 4*%d", i, out.Coeffs[i][j], p)
							}
						}
						if nearBoundary(xs[j], Q) {
							c.Count("modup_boundary_coefficients", 1)
						}
					}
				}
			}
			moddown := func(c *Case, large bool) {
				t := ring.Standard
				if c.R.Intn(5) == 0 {
					t = ring.ConjugateInvariant
				}
				rq, rp := c.twoBases(7, 7, 7, t)
				if large {
					rq, rp = c.largeBases(100, 100)
				}
				be := ring.NewBasisExtender(rq, rp)
				for _, op := range []string{"QPtoQ", "QPtoQNTT", "QPtoP", "QPtoQ-inplace"} {
					lq, lp := c.R.Intn(len(rq.Modulus)), c.R.Intn(len(rp.Modulus))
					c.Feature("%s %s N=%d Q=%v lvl=%d P=%v lvl=%d", op, typeName(t), rq.N, rq.Modulus, lq, rp.Modulus, lp)
					mq, mp := rq.Modulus[:lq+1], rp.Modulus[:lp+1]
					Q, P := prodBig(mq), prodBig(mp)
					QP := new(big.Int).Mul(Q, P)
					div, divM, keepM := P, mp, mq
					if op == "QPtoP" {
						div, divM, keepM = Q, mq, mp
					}
					pq, pp := garbagePoly(c.R, rq.N, len(rq.Modulus)), garbagePoly(c.R, rq.N, len(rp.Modulus))
					xs := make([]*big.Int, rq.N)
					for j := range xs {
						switch c.R.Intn(3) {
						case 0: // a chosen quotient and remainder
							xs[j] = new(big.Int).Mul(c.bigUniform(new(big.Int).Quo(QP, div)), div)
							xs[j].Add(xs[j], c.basisValue(divM))
						default:
							xs[j] = c.bigUniform(QP)
						}
						for i, q := range mq {
							pq.Coeffs[i][j] = modU(xs[j], q)
						}
						for i, p := range mp {
							pp.Coeffs[i][j] = modU(xs[j], p)
						}
					}
					if op == "QPtoQNTT" {
						rq.NTTLvl(lq, pq, pq)
						rp.NTTLvl(lp, pp, pp)
					}
					kq, kp := copyCoeffs(pq), copyCoeffs(pp)
					var out *ring.Poly
					var ringOut *ring.Ring
					lo := lq
					switch op {
					case "QPtoQ":
						out = garbagePoly(c.R, rq.N, lq+1)
						be.ModDownQPtoQ(lq, lp, pq, pp, out)
					case "QPtoQ-inplace":
						out = pq
						be.ModDownQPtoQ(lq, lp, pq, pp, out)
					case "QPtoQNTT":
						out = garbagePoly(c.R, rq.N, lq+1)
						if c.R.Intn(2) == 0 {
							out = pq
						}
						be.ModDownQPtoQNTT(lq, lp, pq, pp, out)
						ringOut = rq
					case "QPtoP":
						out = garbagePoly(c.R, rq.N, lp+1)
						lo = lp
						be.ModDownQPtoP(lq, lp, pq, pp, out)
					}
					if out != pq {
						c.Check(eqCoeffs(pq.Coeffs, kq), "moddown/operand", "%s modified its Q operand", op)
					}
					c.Check(eqCoeffs(pp.Coeffs, kp), "moddown/operand", "%s modified its P operand", op)
					res := out
					if ringOut != nil {
						res = ring.NewPoly(rq.N, lo+1)
						ringOut.InvNTTLvl(lo, out, res)
						for i, q := range keepM[:lo+1] {
							for j, v := range out.Coeffs[i] {
								c.Check(v < q, "moddown-"+op+"/range", "limb %d coefficient %d: %d is not reduced modulo %d", i, j, v, q)
							}
						}
					}
					for j := range xs {
						fl := floorDiv(xs[j], div)
						// r = x mod div was extended with k*div: quotient is floor - k
						ok := false
						ks := []int64{0}
						if nearBoundary(xs[j], div) {
							ks = []int64{0, 1, -1}
						}
						for _, k := range ks {
							w := new(big.Int).Add(fl, big.NewInt(k))
							all := true
							for i, m := range keepM {
								if res.Coeffs[i][j] != modU(w, m) {
									all = false
									break
								}
							}
							ok = ok || all
						}
						c.Check(ok, "moddown-"+op, "coefficient %d: x=%v divisor=%v floor=%v got limb0=%d mod %d", j, xs[j], div, fl, res.Coeffs[0][j], keepM[0])
					}
				}
			}
			decompose := func(c *Case, large bool) {
				rq, rp := c.twoBases(7, 8, 6, ring.Standard)
				if large {
					rq, rp = c.largeBases(42, 38)
				}
				dec := ring.NewDecomposer(rq, rp)
				levelQ := c.R.Intn(len(rq.Modulus))
				alpha := 1 + c.R.Intn(len(rp.Modulus))
				if large && c.R.Intn(3) > 0 {
					alpha = len(rp.Modulus) - c.R.Intn(3)
				}
				levelP := alpha - 1
				if c.R.Intn(4) == 0 {
					levelP = c.R.Intn(alpha) // a part of the special moduli only
				}
				nb := (levelQ + alpha) / alpha
				beta := c.R.Intn(nb)
				c.Feature("N=%d Q=%v P=%v levelQ=%d levelP=%d alpha=%d block=%d", rq.N, rq.Modulus, rp.Modulus, levelQ, levelP, alpha, beta)
				lo, hi := beta*alpha, beta*alpha+alpha
				if hi > levelQ+1 {
					hi = levelQ + 1
				}
				blk := rq.Modulus[lo:hi]
				B := prodBig(blk)
				Q := prodBig(rq.Modulus[:levelQ+1])
				in := garbagePoly(c.R, rq.N, len(rq.Modulus))
				xs := make([]*big.Int, rq.N)
				for j := range xs {
					x := c.bigUniform(Q)
					if c.R.Intn(3) == 0 {
						x = c.basisValue(blk)
					}
					xs[j] = new(big.Int).Mod(x, B)
					for i, q := range rq.Modulus[:levelQ+1] {
						in.Coeffs[i][j] = modU(x, q)
					}
				}
				keep := copyCoeffs(in)
				oq, op := garbagePoly(c.R, rq.N, levelQ+1), garbagePoly(c.R, rq.N, levelP+1)
				dec.DecomposeAndSplit(levelQ, levelP, alpha, beta, in, oq, op)
				c.Check(eqCoeffs(in.Coeffs, keep), "decompose/operand", "operand modified")
				all := append(append([]uint64(nil), rq.Modulus[:levelQ+1]...), rp.Modulus[:levelP+1]...)
				for j := range xs {
					get := func(i int) uint64 {
						if i <= levelQ {
							return oq.Coeffs[i][j]
						}
						return op.Coeffs[i-levelQ-1][j]
					}
					ok, why := consistentExtension(get, all, xs[j], B)
					c.Check(ok, "decompose", "coefficient %d block value %v: %s", j, xs[j], why)
				}
			}
			small := func(f func(*Case, bool)) func(*Case) { return func(c *Case) { f(c, false) } }
			large := func(f func(*Case, bool)) func(*Case) { return func(c *Case) { f(c, true) } }
			r.Cases("modup", 400, 8000, small(modup))
			r.Cases("moddown", 500, 10000, small(moddown))
			r.Cases("decompose", 400, 8000, small(decompose))
			r.Cases("modup-large", 3, 60, large(modup))
			r.Cases("moddown-large", 3, 60, large(moddown))
			r.Cases("decompose-large", 3, 40, large(decompose))
		})

	register("R07", "one case = ring, level, number of rescales and a polynomial of integers including exact multiples and ties of the dropped moduli; result compared with the math/big floor or nearest integer of x/q in every limb; distinct = ring x level x operation",
		func(r *Run) {
			type op struct {
				name        string
				ntt, round  bool
				many, inplc bool
			}
			ops := []op{
				{"DivFloorByLastModulusNTTLvl", true, false, false, false},
				{"DivFloorByLastModulusLvl", false, false, false, false},
				{"DivFloorByLastModulusManyNTTLvl", true, false, true, false},
				{"DivFloorByLastModulusManyLvl", false, false, true, false},
				{"DivRoundByLastModulusNTTLvl", true, true, false, false},
				{"DivRoundByLastModulusLvl", false, true, false, false},
				{"DivRoundByLastModulusManyNTTLvl", true, true, true, false},
				{"DivRoundByLastModulusManyLvl", false, true, true, false},
			}
			r.Cases("rescale", 800, 16000, func(c *Case) {
				t := ring.Standard
				if c.R.Intn(4) == 0 {
					t = ring.ConjugateInvariant
				}
				rq, _ := c.twoBases(7, 7, 1, t)
				o := ops[c.R.Intn(len(ops))]
				level := c.R.Intn(len(rq.Modulus))
				nb := 1
				if o.many {
					nb = c.R.Intn(level + 1)
				} else if level == 0 {
					o = ops[2+c.R.Intn(2)]
					nb = 0
				}
				c.Feature("%s %s N=%d Q=%v level=%d nb=%d", o.name, typeName(t), rq.N, rq.Modulus, level, nb)
				m := rq.Modulus[:level+1]
				Q := prodBig(m)
				xs := make([]*big.Int, rq.N)
				in := garbagePoly(c.R, rq.N, len(rq.Modulus))
				drop := prodBig(m[level+1-nb:])
				for j := range xs {
					x := c.bigUniform(Q)
					if c.R.Intn(3) == 0 {
						x.Sub(x, new(big.Int).Mod(x, drop))
						switch c.R.Intn(3) {
						case 0:
							x.Add(x, new(big.Int).Rsh(drop, 1))
						case 1:
							x.Add(x, new(big.Int).Rsh(drop, 1))
							x.Add(x, big.NewInt(1))
						}
						x.Mod(x, Q)
					}
					xs[j] = x
					for i, q := range m {
						in.Coeffs[i][j] = modU(x, q)
					}
				}
				if o.ntt {
					rq.NTTLvl(level, in, in)
				}
				keep := copyCoeffs(in)
				pool := garbagePoly(c.R, rq.N, len(rq.Modulus))
				out := garbagePoly(c.R, rq.N, level+1)
				if c.R.Intn(2) == 0 && level-nb+1 > 0 {
					out = garbagePoly(c.R, rq.N, level-nb+1)
				}
				inplace := c.R.Intn(4) == 0
				if inplace {
					out = in
				}
				switch o.name {
				case "DivFloorByLastModulusNTTLvl":
					rq.DivFloorByLastModulusNTTLvl(level, in, pool, out)
				case "DivFloorByLastModulusLvl":
					rq.DivFloorByLastModulusLvl(level, in, out)
				case "DivFloorByLastModulusManyNTTLvl":
					rq.DivFloorByLastModulusManyNTTLvl(level, nb, in, pool, out)
				case "DivFloorByLastModulusManyLvl":
					rq.DivFloorByLastModulusManyLvl(level, nb, in, pool, out)
				case "DivRoundByLastModulusNTTLvl":
					rq.DivRoundByLastModulusNTTLvl(level, in, pool, out)
				case "DivRoundByLastModulusLvl":
					rq.DivRoundByLastModulusLvl(level, in, out)
				case "DivRoundByLastModulusManyNTTLvl":
					rq.DivRoundByLastModulusManyNTTLvl(level, nb, in, pool, out)
				case "DivRoundByLastModulusManyLvl":
					rq.DivRoundByLastModulusManyLvl(level, nb, in, pool, out)
				}
				if !inplace {
					c.Check(eqCoeffs(in.Coeffs, keep), "rescale/operand", "%s modified its operand", o.name)
				}
				res := ring.NewPoly(rq.N, level-nb+1)
				if o.ntt {
					rq.InvNTTLvl(level-nb, out, res)
					for i, q := range m[:level-nb+1] {
						for j, v := range out.Coeffs[i] {
							c.Check(v < q, o.name+"/range", "limb %d coefficient %d: %d is not reduced modulo %d", i, j, v, q)
						}
					}
				} else {
					for i := range res.Coeffs {
						copy(res.Coeffs[i], out.Coeffs[i])
					}
				}
				for j := range xs {
					w := new(big.Int).Set(xs[j])
					for k := 0; k < nb; k++ {
						q := bigU(m[level-k])
						if o.round { // floor((x + (q-1)/2)/q): ties cannot occur, q is odd
							w.Add(w, new(big.Int).Rsh(new(big.Int).Sub(q, big.NewInt(1)), 1))
						}
						w = floorDiv(w, q)
					}
					for i, q := range m[:level-nb+1] {
						want := modU(w, q)
						got := res.Coeffs[i][j]
						c.Event(1)
						if got != want && !(got == q && want == 0) {
							c.Fatal(o.name, "coefficient %d limb %d: x=%v got %d want %d mod %d", j, i, xs[j], got, want, q)
						}
					}
				}
			})
			r.Cases("scaler", 250, 5000, func(c *Case) {
				rq, rt := c.twoBases(6, 5, 1, ring.Standard)
				T := rt.Modulus[0]
				rt = getRing(rq.N, []uint64{T}, ring.Standard)
				simple := c.R.Intn(2) == 0
				tt := T
				if simple && c.R.Intn(3) == 0 {
					tt = uint64(1) << uint(1+c.R.Intn(30))
				}
				Q := prodBig(rq.Modulus)
				c.Feature("simple=%v N=%d Q=%v t=%d", simple, rq.N, rq.Modulus, tt)
				var s ring.Scaler
				if simple {
					s = ring.NewSimpleScaler(tt, rq)
				} else {
					s = ring.NewRNSScaler(rq, rt)
				}
				for rep := 0; rep < 2; rep++ {
					in := ring.NewPoly(rq.N, len(rq.Modulus))
					xs := make([]*big.Int, rq.N)
					for j := range xs {
						x := c.bigUniform(Q)
						if c.R.Intn(3) == 0 { // near a rounding boundary: x ~ Q(2k+1)/2t
							k := new(big.Int).Rand(c.R, bigU(tt))
							k.Lsh(k, 1).Add(k, big.NewInt(1)).Mul(k, Q)
							x = floorDiv(k, new(big.Int).Lsh(bigU(tt), 1))
							x.Add(x, big.NewInt(int64(c.R.Intn(3)-1)))
							x.Mod(x, Q)
						}
						xs[j] = x
						for i, q := range rq.Modulus {
							in.Coeffs[i][j] = modU(x, q)
						}
					}
					keep := copyCoeffs(in)
					out := garbagePoly(c.R, rq.N, 1)
					if simple { // the result of a SimpleScaler goes to every row
						out = garbagePoly(c.R, rq.N, 1+c.R.Intn(3))
					}
					s.DivByQOverTRounded(in, out)
					c.Check(eqCoeffs(in.Coeffs, keep), "scaler/operand", "operand modified")
					tQ := new(big.Int).Mul(bigU(tt), Q)
					lim := new(big.Int).Rsh(Q, 1)
					if !simple {
						lim.Add(lim, new(big.Int).Rsh(Q, 40))
					}
					for j := range xs {
						g := out.Coeffs[0][j]
						for i := range out.Coeffs {
							c.Check(out.Coeffs[i][j] == g, "scaler-rows", "row %d coefficient %d is %d, row 0 has %d", i, j, out.Coeffs[i][j], g)
						}
						d := new(big.Int).Mul(bigU(g), Q)
						d.Sub(d, new(big.Int).Mul(xs[j], bigU(tt)))
						d.Mod(d, tQ)
						if e := new(big.Int).Sub(tQ, d); e.Cmp(d) < 0 {
							d = e
						}
						c.Check(d.Cmp(new(big.Int).Add(lim, big.NewInt(1))) <= 0, "scaler-value", "simple=%v coefficient %d: x=%v t=%d Q=%v got %d", simple, j, xs[j], tt, Q, g)
						c.Check(g < tt, "scaler-range", "simple=%v coefficient %d: got %d, not reduced modulo t=%d", simple, j, g, tt)
					}
				}
			})
		})
}
