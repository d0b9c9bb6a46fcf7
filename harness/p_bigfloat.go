package main

import (
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
)

// bigFloat draws a float of at most prec bits and moderate exponent; zero and exact small integers happen.
func (c *Case) bigFloat(prec uint) *big.Float {
	x := new(big.Float).SetPrec(prec)
	switch c.R.Intn(8) {
	case 0:
		return x
	case 1:
		return x.SetInt64(int64(c.R.Intn(9) - 4))
	}
	m := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), prec))
	x.SetInt(m)
	x.SetMantExp(x, -int(prec)+c.R.Intn(40)-20)
	if c.R.Intn(2) == 0 {
		x.Neg(x)
	}
	return x
}

func (c *Case) bigComplex(prec uint) *ring.Complex {
	return ring.NewComplex(c.bigFloat(prec), c.bigFloat(prec))
}

func rat(x *big.Float) *big.Rat {
	r, _ := x.Rat(nil)
	if r == nil {
		r = new(big.Rat)
	}
	return r
}

func pow2Rat(e int) *big.Rat {
	if e >= 0 {
		return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(e)))
	}
	return new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-e)))
}

func absRat(x *big.Rat) *big.Rat { return new(big.Rat).Abs(x) }

// cosRef sums the Taylor series.
func cosRef(x *big.Float, prec uint) *big.Float {
	f := func() *big.Float { return new(big.Float).SetPrec(prec) }
	x2 := f().Mul(x, x)
	term, sum := f().SetInt64(1), f().SetInt64(1)
	for k := int64(1); k < 4000; k++ {
		term.Mul(term, x2)
		term.Quo(term, f().SetInt64((2*k-1)*(2*k)))
		term.Neg(term)
		if term.Sign() == 0 {
			break
		}
		sum.Add(sum, term)
		if term.MantExp(nil) < -int(prec) {
			break
		}
	}
	return sum
}

func (c *Case) randPrec() uint {
	return uint([]int{24, 53, 64, 80, 100, 128, 200, 256, 500, 24 + c.R.Intn(600)}[c.R.Intn(10)])
}

func (c *Case) bigComplexCase(mul *ring.ComplexMultiplier, history *uint) {
	pa, pb, pc := c.randPrec(), c.randPrec(), c.randPrec()
	if c.R.Intn(2) == 0 {
		pb, pc = pa, pa
	}
	a, b := c.bigComplex(pa), c.bigComplex(pb)
	var out *ring.Complex
	how := c.R.Intn(5)
	switch how {
	case 0:
		out = ring.NewComplex(nil, nil) // takes the precision of the result
		pc = pa
		if pb > pa {
			pc = pb
		}
	case 1:
		out, pc = a, pa
	case 2:
		out, pc = b, pb
	case 3:
		b, out, pb, pc = a, a, pa, pa
	default:
		out = c.bigComplex(pc)
	}
	op := c.R.Intn(4)
	if op == 3 && b[0].Sign() == 0 && b[1].Sign() == 0 {
		op = 2
	}
	c.Feature("op=%d how=%d prec=%d,%d,%d after %d", op, how, pa, pb, pc, *history)
	a0, a1, b0, b1 := rat(a[0]), rat(a[1]), rat(b[0]), rat(b[1])
	keepA, keepB := a.Copy(), b.Copy()
	m := func(x, y *big.Rat) *big.Rat { return new(big.Rat).Mul(x, y) }
	var w0, w1, s0, s1 *big.Rat // wanted parts and the size of what was summed to get them
	switch op {
	case 0, 1:
		y0, y1 := b0, b1
		if op == 0 {
			out.Add(a, b)
		} else {
			out.Sub(a, b)
			y0, y1 = new(big.Rat).Neg(b0), new(big.Rat).Neg(b1)
		}
		w0, w1 = new(big.Rat).Add(a0, y0), new(big.Rat).Add(a1, y1)
		s0, s1 = absRat(w0), absRat(w1)
	case 2:
		mul.Mul(a, b, out)
		w0 = new(big.Rat).Sub(m(a0, b0), m(a1, b1))
		w1 = new(big.Rat).Add(m(a0, b1), m(a1, b0))
		s0 = new(big.Rat).Add(absRat(m(a0, b0)), absRat(m(a1, b1)))
		s1 = new(big.Rat).Add(absRat(m(a0, b1)), absRat(m(a1, b0)))
	case 3:
		mul.Div(a, b, out)
		d := new(big.Rat).Inv(new(big.Rat).Add(m(b0, b0), m(b1, b1)))
		w0 = m(new(big.Rat).Add(m(a0, b0), m(a1, b1)), d)
		w1 = m(new(big.Rat).Sub(m(a1, b0), m(a0, b1)), d)
		s0 = m(new(big.Rat).Add(absRat(m(a0, b0)), absRat(m(a1, b1))), d)
		s1 = m(new(big.Rat).Add(absRat(m(a1, b0)), absRat(m(a0, b1))), d)
	}
	pm := pa
	if pb > pm {
		pm = pb
	}
	for i, x := range []struct{ got, want, size *big.Rat }{{rat(out[0]), w0, s0}, {rat(out[1]), w1, s1}} {
		e := absRat(new(big.Rat).Sub(x.got, x.want))
		lim := new(big.Rat).Add(m(x.size, pow2Rat(4-int(pm))), m(absRat(x.want), pow2Rat(1-int(pc))))
		c.Event(1)
		c.Check(e.Cmp(lim) <= 0, []string{"Add", "Sub", "Mul", "Div"}[op], "part %d of op %d (precisions %d, %d -> %d, multiplier used with %d before) is off by %v, more than %v", i, op, pa, pb, pc, *history, e.FloatString(80), lim.FloatString(80))
		c.Check(out[i].Prec() == pc || out[i].Prec() == 0, "precision", "result has precision %d instead of %d", out[i].Prec(), pc)
	}
	if op >= 2 {
		*history = pm
	}
	if a != out {
		c.Check(a[0].Cmp(keepA[0]) == 0 && a[1].Cmp(keepA[1]) == 0, "operand-modified", "first operand changed")
	}
	if b != out {
		c.Check(b[0].Cmp(keepB[0]) == 0 && b[1].Cmp(keepB[1]) == 0, "operand-modified", "second operand changed")
	}
}

func init() {
	register("B02", "one case = a history of arbitrary-precision operations (mixed precisions, aliased operands, one multiplier reused), or one transcendental, conversion or statistics call; compared with exact rationals; distinct = operation x precisions x aliasing x history",
		func(r *Run) {
			r.Cases("complex", 6000, 200000, func(c *Case) {
				mul := ring.NewComplexMultiplier()
				h := uint(0)
				for i := 0; i < 6; i++ {
					c.bigComplexCase(mul, &h)
				}
			})
			r.Cases("objects", 2000, 20000, func(c *Case) {
				p := c.randPrec()
				a, b := c.bigFloat(p), c.bigFloat(p)
				c.Feature("prec=%d %v %v", p, a.Sign(), b.Sign())
				z := ring.NewComplex(a, b)
				c.Check(z[0].Cmp(a) == 0 && z[1].Cmp(b) == 0, "NewComplex", "not the given parts")
				c.Check(z[0] != a && z[1] != b && z[0] != z[1], "NewComplex/shared", "shares memory with its arguments")
				c.Check(z.Real() == z[0] && z.Imag() == z[1], "parts", "Real, Imag")
				n := ring.NewComplex(nil, nil)
				c.Check(n[0] != nil && n[1] != nil && n[0].Sign() == 0 && n[1].Sign() == 0 && n[0] != n[1], "NewComplex/nil", "not zero")
				k := z.Copy()
				n.Set(z)
				fr, _ := a.Float64()
				fi, _ := b.Float64()
				c.Check(z.Float64() == complex(fr, fi), "Float64", "%v instead of %v", z.Float64(), complex(fr, fi))
				z[0].SetInt64(77)
				z[1].SetInt64(78)
				c.Check(k[0].Cmp(a) == 0 && k[1].Cmp(b) == 0, "Copy", "the copy changed with its source")
				c.Check(n[0].Cmp(a) == 0 && n[1].Cmp(b) == 0 && n[0].Prec() == a.Prec(), "Set", "not the source's parts")

				x := math.Ldexp(c.R.Float64()*2-1, c.R.Intn(200)-100)
				y := ring.NewFloat(x, int(p))
				w := new(big.Float).SetPrec(p).SetFloat64(x)
				c.Check(y.Prec() == p && y.Cmp(w) == 0, "NewFloat", "NewFloat(%v, %d) = %v at precision %d", x, p, y, y.Prec())
			})
			r.Cases("cos", 1500, 20000, func(c *Case) {
				p := c.randPrec()
				x := new(big.Float).SetPrec(p).SetFloat64((2*c.R.Float64() - 1) * 6.3)
				switch c.R.Intn(6) {
				case 0:
					x.SetFloat64(0)
				case 1:
					x.Quo(x, new(big.Float).SetInt64(1<<40))
				case 2:
					x.Quo(x, new(big.Float).SetInt64(3))
				}
				keep := new(big.Float).Copy(x)
				got := ring.Cos(x)
				want := cosRef(x, p+100)
				e := absRat(new(big.Rat).Sub(rat(got), rat(want)))
				xx := absRat(rat(x))
				xx.Mul(xx, xx).Add(xx, big.NewRat(1, 1))
				// truncation x^2 4^-k plus the rounding of the k doublings, each enlarged by the later ones
				lim := new(big.Rat).Mul(xx, pow2Rat(10-int(p)))
				c.Feature("prec=%d", p)
				c.Event(1)
				c.Check(e.Cmp(lim) <= 0, "Cos", "Cos(%v) at %d bits is off by %v", x, p, new(big.Float).SetRat(e))
				c.Check(x.Cmp(keep) == 0 && x.Prec() == p, "Cos/operand-modified", "the argument changed")
				c.Check(got.Prec() >= p, "Cos/precision", "result of %d bits", got.Prec())
			})
			r.Cases("divround", 3000, 40000, func(c *Case) {
				big1 := func() *big.Int {
					x := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(1+c.R.Intn(200))))
					if c.R.Intn(2) == 0 {
						x.Neg(x)
					}
					return x
				}
				a, b := big1(), big1()
				if b.Sign() == 0 {
					b.SetInt64(2)
				}
				switch c.R.Intn(4) {
				case 0: // a tie or next to one
					b.Lsh(b, 1)
					a.Mul(b, big1())
					a.Add(a, new(big.Int).Rsh(b, 1))
					a.Add(a, big.NewInt(int64(c.R.Intn(3)-1)))
				case 1:
					a.Mul(b, big1())
				}
				// half away from zero
				q := new(big.Int).Abs(a)
				q.Lsh(q, 1).Add(q, new(big.Int).Abs(b))
				q.Quo(q, new(big.Int).Lsh(new(big.Int).Abs(b), 1))
				if a.Sign()*b.Sign() < 0 {
					q.Neg(q)
				}
				a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
				out := big1()
				how := c.R.Intn(4)
				switch how {
				case 1:
					out = a
				case 2:
					out = b
				}
				c.Feature("how=%d sign=%d,%d bits=%d,%d", how, a.Sign(), b.Sign(), a.BitLen(), b.BitLen())
				ring.DivRound(a, b, out)
				c.Check(out.Cmp(q) == 0, "DivRound", "%v / %v rounded is %v, not %v (receiver %d)", a0, b0, q, out, how)
				c.Check((a == out || a.Cmp(a0) == 0) && (b == out || b.Cmp(b0) == 0), "DivRound/operand-modified", "operands changed")
			})
			r.Cases("statistics", 3000, 30000, func(c *Case) {
				n := 1 + c.R.Intn(100)
				v := make([]float64, n)
				off := c.R.NormFloat64() * 10
				for i := range v {
					v[i] = c.R.NormFloat64()*math.Exp2(float64(c.R.Intn(6)-3)) + off
				}
				keep := append([]float64{}, v...)
				scale := math.Exp2(float64(c.R.Intn(40)))
				mean, sq := 0.0, 0.0
				for _, x := range v {
					mean += x
				}
				mean /= float64(n)
				for _, x := range v {
					sq += (x - mean) * (x - mean)
				}
				want := math.Sqrt(sq/float64(n)) * scale
				got := ckks.StandardDeviation(v, scale)
				c.Feature("n=%d", n)
				c.Check(math.Abs(got-want) <= 1e-9*(want+math.Abs(off)*scale), "StandardDeviation", "%v instead of %v", got, want)
				for i := range v {
					c.Check(v[i] == keep[i], "StandardDeviation/operand-modified", "the values changed")
				}
			})
			r.Cases("bitreverse", 1000, 10000, func(c *Case) {
				ln := c.R.Intn(9)
				n := 1 << uint(ln)
				extra := c.R.Intn(3)
				a := make([]complex128, n+extra)
				b := make([]*ring.Complex, n+extra)
				for i := range a {
					a[i] = complex(float64(i), float64(-i))
					b[i] = ring.NewComplex(big.NewFloat(float64(i)), nil)
				}
				ckks.SliceBitReverseInPlaceComplex128(a, n)
				ckks.SliceBitReverseInPlaceRingComplex(b, n)
				c.Feature("n=%d", n)
				for i := range a {
					k := 0
					for t := 0; t < ln; t++ {
						k |= (i >> uint(t) & 1) << uint(ln-1-t)
					}
					if i >= n {
						k = i
					}
					x, _ := b[i][0].Float64()
					c.Check(real(a[i]) == float64(k) && imag(a[i]) == -float64(k) && x == float64(k), "bit-reversal", "position %d of %d holds %v, %v", i, n, a[i], x)
				}
			})
		})
}
