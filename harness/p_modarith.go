package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"reflect"

	"fast-ksw/ring"
)

// oddModulus draws a modulus of 5..61 bits: mostly NTT primes, also arbitrary odd primes.
func (c *Case) oddPrime() uint64 {
	if c.R.Intn(2) == 0 {
		lq := 8 + c.R.Intn(54)
		l := nttPrimes(lq, 32, 16)
		if len(l) > 0 {
			return l[c.R.Intn(len(l))]
		}
	}
	for {
		b := 5 + c.R.Intn(57)
		x := uint64(1)<<uint(b-1) | c.R.Uint64()>>uint(64-b) | 1
		for k := 0; k < 2000; k++ {
			if bits.Len64(x) > 61 {
				break
			}
			if bigU(x).ProbablyPrime(10) {
				return x
			}
			x += 2
		}
	}
}

func init() {
	register("R01", "one case = one prime modulus (5-61 bits) and 256 operand tuples (uniform plus extremes 0,1,q-1,2q-1,2^64-1,multiples of q); every scalar primitive compared with math/big; distinct = modulus",
		func(r *Run) {
			r.Cases("scalar-primitives", 3000, 60000, func(c *Case) {
				q := c.oddPrime()
				c.Feature("q=%d", q)
				u := ring.BRedParams(q)
				qi := ring.MRedParams(q)
				c.Check(qi*q == 1, "mredparams", "MRedParams(%d)*q != 1 mod 2^64", q)
				ref := new(big.Int).Quo(new(big.Int).Lsh(big.NewInt(1), 128), bigU(q))
				c.Check(len(u) == 2 && ref.Cmp(new(big.Int).Add(new(big.Int).Lsh(bigU(u[0]), 64), bigU(u[1]))) == 0, "bredparams", "BRedParams(%d)=%v", q, u)
				r64 := pow2ModU(64, q)
				r64inv := invMod(r64, q)
				for k := 0; k < 256; k++ {
					a := wide(c.R, q)
					x, y := resid(c.R, q), resid(c.R, q)
					w := wide(c.R, q)
					eq := func(name string, got, want uint64) {
						c.Check(got == want, name, "%s q=%d a=%d x=%d y=%d w=%d: got %d want %d", name, q, a, x, y, w, got, want)
					}
					lazy := func(name string, got, want uint64) {
						c.Check(got < 2*q && got%q == want, name, "%s q=%d a=%d x=%d y=%d w=%d: got %d want ==%d mod q and <2q", name, q, a, x, y, w, got, want)
					}
					eq("MForm", ring.MForm(a, q, u), mulMod(a, r64, q))
					lazy("MFormConstant", ring.MFormConstant(a, q, u), mulMod(a, r64, q))
					eq("InvMForm", ring.InvMForm(a, q, qi), mulMod(a, r64inv, q))
					lazy("InvMFormConstant", ring.InvMFormConstant(a, q, qi), mulMod(a, r64inv, q))
					mr := mulMod(mulMod(w, y, q), r64inv, q)
					eq("MRed", ring.MRed(w, y, q, qi), mr)
					lazy("MRedConstant", ring.MRedConstant(w, y, q, qi), mr)
					eq("BRedAdd", ring.BRedAdd(a, q, u), a%q)
					lazy("BRedAddConstant", ring.BRedAddConstant(a, q, u), a%q)
					eq("BRed", ring.BRed(w, a, q, u), mulMod(w, a, q))
					lazy("BRedConstant", ring.BRedConstant(w, a, q, u), mulMod(w, a, q))
					lz := w % (2 * q)
					eq("CRed", ring.CRed(lz, q), lz%q)
					n := c.R.Intn(64)
					eq("PowerOf2", ring.PowerOf2(mulMod(x, r64, q), n, q, qi), mulMod(x, pow2ModU(n, q), q))
					if k < 16 {
						e := c.R.Uint64()
						switch c.R.Intn(4) {
						case 0:
							e = uint64(c.R.Intn(5))
						case 1:
							e = q - 2
						}
						eq("ModExp", ring.ModExp(x, e, q), powMod(x, e, q))
						ei := int(e >> 1)
						eq("ModexpMontgomery", ring.ModexpMontgomery(mulMod(x, r64, q), ei, q, qi, u), mulMod(powMod(x, uint64(ei), q), r64, q))
					}
				}
			})
			r.Cases("divround", 2000, 40000, func(c *Case) {
				bl := 1 + c.R.Intn(200)
				b := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(bl)))
				b.Add(b, big.NewInt(1))
				a := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(1+c.R.Intn(300))))
				if c.R.Intn(3) == 0 { // around a tie
					a.Mul(b, big.NewInt(int64(c.R.Intn(1000))))
					a.Add(a, new(big.Int).Rsh(b, 1))
					a.Add(a, big.NewInt(int64(c.R.Intn(3)-1)))
					a.Abs(a)
				}
				if c.R.Intn(2) == 0 {
					a.Neg(a)
				}
				if c.R.Intn(4) == 0 {
					b.Neg(b)
				}
				c.Feature("a=%d bits b=%d bits signs %d %d", a.BitLen(), b.BitLen(), a.Sign(), b.Sign())
				a0, b0 := new(big.Int).Set(a), new(big.Int).Set(b)
				out := new(big.Int)
				ring.DivRound(a, b, out)
				c.Check(a.Cmp(a0) == 0 && b.Cmp(b0) == 0, "divround-operands", "DivRound modified its operands")
				// nearest integer: |a - out*b|*2 <= |b|
				d := new(big.Int).Mul(out, b)
				d.Sub(a, d)
				d.Abs(d)
				d.Lsh(d, 1)
				c.Check(d.CmpAbs(b) <= 0, "divround", "DivRound(%v,%v)=%v is not a nearest integer", a, b, out)
			})
			r.Cases("int-parsing", 200, 2000, func(c *Case) {
				x := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), 300))
				c.Feature("%d bits", x.BitLen())
				c.Check(ring.NewIntFromString(x.String()).Cmp(x) == 0, "newintfromstring", "NewIntFromString(%v)", x)
				c.Check(ring.NewUint(x.Uint64()).Uint64() == x.Uint64(), "newuint", "NewUint")
				v := int64(x.Uint64())
				c.Check(ring.NewInt(v).Cmp(big.NewInt(v)) == 0, "newint", "NewInt(%d)", v)
				m := new(big.Int).Add(new(big.Int).Rsh(x, uint(c.R.Intn(300))), big.NewInt(1))
				for k := 0; k < 20; k++ {
					y := ring.RandInt(m)
					c.Check(y.Sign() >= 0 && y.Cmp(m) < 0, "randint", "RandInt(%v)=%v", m, y)
				}
			})
		})
}

// ---- R02: coefficient-wise operations of the RNS ring --------------------------

// opKind says how an output must relate to the reference.
type opKind int

const (
	exact   opKind = iota // canonical residue, or q for a zero residue where allowed
	lazy2q                // congruent and < 2q
	integer               // the exact integer (no modular reduction)
	lazyAdd               // congruent; at most addend+2q
)

// ternary op: out = f(a,b,old)
type ringOp struct {
	name   string
	arity  int // number of polynomial inputs (1 or 2)
	acc    bool
	kind   opKind
	zeroQ  bool // may write q for 0
	wideA  bool // accepts any uint64 in a
	domain func(c *Case, q uint64) (a, b, o uint64)
	run    func(r *ring.Ring, level int, useLvl bool, a, b, o *ring.Poly)
	ref    func(a, b, o, q uint64) uint64
}

func pick3(useLvl bool, f func(a, b, o *ring.Poly), g func(level int, a, b, o *ring.Poly), level int, a, b, o *ring.Poly) {
	if useLvl || f == nil {
		g(level, a, b, o)
	} else {
		f(a, b, o)
	}
}

func pick2(useLvl bool, f func(a, o *ring.Poly), g func(level int, a, o *ring.Poly), level int, a, o *ring.Poly) {
	if useLvl || f == nil {
		g(level, a, o)
	} else {
		f(a, o)
	}
}

func ringOps() []ringOp {
	mm := func(a, b, q uint64) uint64 { return mulMod(a, b, q) }
	mont := func(a, b, q uint64) uint64 { return invMontRefC(mulMod(a, b, q), q) }
	smallAcc := func(c *Case, q uint64) (uint64, uint64, uint64) { // accumulators below 2^64-4q
		o := wide(c.R, q)
		lim := ^uint64(0) - 4*q
		if o > lim {
			o %= lim
		}
		return resid(c.R, q), resid(c.R, q), o
	}
	return []ringOp{
		{name: "Add", arity: 2, kind: exact, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick3(u, r.Add, r.AddLvl, l, a, b, o) }, ref: func(a, b, o, q uint64) uint64 { return addMod(a, b, q) }},
		{name: "AddNoMod", arity: 2, kind: integer, domain: func(c *Case, q uint64) (uint64, uint64, uint64) {
			return wide(c.R, q) >> 1, wide(c.R, q) >> 1, 0
		}, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick3(u, r.AddNoMod, r.AddNoModLvl, l, a, b, o) }, ref: func(a, b, o, q uint64) uint64 { return a + b }},
		{name: "Sub", arity: 2, kind: exact, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick3(u, r.Sub, r.SubLvl, l, a, b, o) }, ref: func(a, b, o, q uint64) uint64 { return subMod(a, b, q) }},
		{name: "SubNoMod", arity: 2, kind: lazyAdd, domain: func(c *Case, q uint64) (uint64, uint64, uint64) {
			return wide(c.R, q) >> 1, resid(c.R, q), 0
		}, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick3(u, r.SubNoMod, r.SubNoModLvl, l, a, b, o) }, ref: func(a, b, o, q uint64) uint64 { return subMod(a, b, q) }},
		{name: "Neg", arity: 1, kind: exact, zeroQ: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick2(u, r.Neg, r.NegLvl, l, a, o) }, ref: func(a, b, o, q uint64) uint64 { return subMod(0, a, q) }},
		{name: "Reduce", arity: 1, kind: exact, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick2(u, r.Reduce, r.ReduceLvl, l, a, o) }, ref: func(a, b, o, q uint64) uint64 { return a % q }},
		{name: "ReduceConstant", arity: 1, kind: lazy2q, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick2(u, r.ReduceConstant, r.ReduceConstantLvl, l, a, o)
		}, ref: func(a, b, o, q uint64) uint64 { return a % q }},
		{name: "MulCoeffs", arity: 2, kind: exact, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffs, r.MulCoeffsLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return mm(a, b, q) }},
		{name: "MulCoeffsAndAdd", arity: 2, acc: true, kind: exact, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsAndAdd, r.MulCoeffsAndAddLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return addMod(o, mm(a, b, q), q) }},
		{name: "MulCoeffsAndAddNoMod", arity: 2, acc: true, kind: lazyAdd, domain: smallAcc, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsAndAddNoMod, r.MulCoeffsAndAddNoModLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return addMod(o, mm(a, b, q), q) }},
		{name: "MulCoeffsMontgomery", arity: 2, kind: exact, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsMontgomery, r.MulCoeffsMontgomeryLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return mont(a, b, q) }},
		{name: "MulCoeffsMontgomeryConstant", arity: 2, kind: lazy2q, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsMontgomeryConstant, r.MulCoeffsMontgomeryConstantLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return mont(a, b, q) }},
		{name: "MulCoeffsMontgomeryConstantAndNeg", arity: 2, kind: lazyAdd, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			r.MulCoeffsMontgomeryConstantAndNegLvl(l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return subMod(0, mont(a, b, q), q) }},
		{name: "MulCoeffsMontgomeryAndAdd", arity: 2, acc: true, kind: exact, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsMontgomeryAndAdd, r.MulCoeffsMontgomeryAndAddLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return addMod(o, mont(a, b, q), q) }},
		{name: "MulCoeffsMontgomeryAndAddNoMod", arity: 2, acc: true, kind: lazyAdd, domain: smallAcc, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsMontgomeryAndAddNoMod, r.MulCoeffsMontgomeryAndAddNoModLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return addMod(o, mont(a, b, q), q) }},
		{name: "MulCoeffsMontgomeryConstantAndAddNoMod", arity: 2, acc: true, kind: lazyAdd, domain: smallAcc, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsMontgomeryConstantAndAddNoMod, r.MulCoeffsMontgomeryConstantAndAddNoModLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return addMod(o, mont(a, b, q), q) }},
		{name: "MulCoeffsMontgomeryAndSub", arity: 2, acc: true, kind: exact, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsMontgomeryAndSub, r.MulCoeffsMontgomeryAndSubLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return subMod(o, mont(a, b, q), q) }},
		{name: "MulCoeffsMontgomeryAndSubNoMod", arity: 2, acc: true, kind: lazyAdd, domain: smallAcc, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsMontgomeryAndSubNoMod, r.MulCoeffsMontgomeryAndSubNoModLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return subMod(o, mont(a, b, q), q) }},
		{name: "MulCoeffsMontgomeryConstantAndSubNoMod", arity: 2, acc: true, kind: lazyAdd, domain: smallAcc, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			r.MulCoeffsMontgomeryConstantAndSubNoModLvl(l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return subMod(o, mont(a, b, q), q) }},
		{name: "MulCoeffsConstant", arity: 2, kind: lazy2q, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) {
			pick3(u, r.MulCoeffsConstant, r.MulCoeffsConstantLvl, l, a, b, o)
		}, ref: func(a, b, o, q uint64) uint64 { return mm(a, b, q) }},
		{name: "MForm", arity: 1, kind: exact, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick2(u, r.MForm, r.MFormLvl, l, a, o) }, ref: func(a, b, o, q uint64) uint64 { return montRefC(a, q) }},
		{name: "MFormConstant", arity: 1, kind: lazy2q, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { r.MFormConstantLvl(l, a, o) }, ref: func(a, b, o, q uint64) uint64 { return montRefC(a, q) }},
		{name: "InvMForm", arity: 1, kind: exact, wideA: true, run: func(r *ring.Ring, l int, u bool, a, b, o *ring.Poly) { pick2(u, r.InvMForm, r.InvMFormLvl, l, a, o) }, ref: func(a, b, o, q uint64) uint64 { return invMontRefC(a, q) }},
	}
}

func montRefC(a, q uint64) uint64 { return mulMod(a, r64of(q), q) }
func r64of(q uint64) uint64 {
	if v, ok := invCache.Load(^q); ok {
		return v.(uint64)
	}
	v := pow2ModU(64, q)
	invCache.Store(^q, v)
	return v
}
func invMontRefC(a, q uint64) uint64 {
	if v, ok := invCache.Load(q); ok {
		return mulMod(a, v.(uint64), q)
	}
	v := invMod(pow2ModU(64, q), q)
	invCache.Store(q, v)
	return mulMod(a, v, q)
}

// few is a number of moduli, usually at most n.
func (c *Case) few(n int) int {
	if !c.Large && c.R.Intn(24) == 0 {
		n = 14
	}
	return 1 + c.R.Intn(n)
}

func (c *Case) randRing(maxLogN, maxModuli int) *ring.Ring {
	return c.randRingType(maxLogN, maxModuli, ring.Type(c.R.Intn(2)))
}

func (c *Case) randRingType(maxLogN, maxModuli int, t ring.Type) *ring.Ring {
	if c.Large {
		maxModuli = minInt(maxModuli, 3)
	}
	wide := !c.Large && c.R.Intn(24) == 0 // now and then many more moduli than usual, over a small degree
	if wide {
		maxLogN, maxModuli = minInt(maxLogN, 5), 20
	}
	N := 1 << uint(c.logN(4, maxLogN))
	nm := 1 + c.R.Intn(maxModuli)
	lo, hi := 30, 61
	switch c.R.Intn(4) {
	case 0:
		lo, hi = 14, 30
	case 1:
		lo, hi = 58, 61
	}
	if lo < 20 && maxLogN > 8 {
		lo = 20
	}
	if lo < 28 && c.Large {
		lo = 28
	}
	if wide {
		return getRing(N, widePrimes(c.R, nm, nthRootOf(N, t), lo, hi, nil), t)
	}
	return getRing(N, pickPrimes(c.R, nm, nthRootOf(N, t), lo, hi), t)
}

func cmpLimb(c *Case, op string, kind opKind, zeroQ bool, addend, got, want, q uint64, ctx string) {
	ok := false
	switch kind {
	case exact:
		ok = got == want || (zeroQ && want == 0 && got == q)
	case lazy2q:
		ok = got < 2*q && got%q == want%q
	case integer:
		ok = got == want
	case lazyAdd:
		ok = got%q == want%q && got <= addend+2*q
	}
	if !ok {
		c.Fatal(op, "%s: got %d, want %d (mod q=%d, kind %d)", ctx, got, want, q, kind)
	}
}

func init() {
	ops := ringOps()
	register("R02", "one case = one ring (N 16-256, 1-6 prime moduli of 14-61 bits, both ring types), one operation, a level, an aliasing pattern, operands from the operation's documented input range (extremes included); every output coefficient compared with a uint128/math-big reference, and inputs plus limbs above the level compared bit for bit; distinct = operation x aliasing x level class x N x moduli sizes",
		func(r *Run) {
			r.Cases("coeffwise", 23*160, 23*4000, func(c *Case) {
				op := ops[c.Idx%len(ops)]
				R := c.randRing(8, 6)
				L := len(R.Modulus)
				level := c.R.Intn(L)
				useLvl := c.R.Intn(2) == 0
				a := randPoly(c.R, R.N, R.Modulus)
				b := randPoly(c.R, R.N, R.Modulus)
				o := randPoly(c.R, R.N, R.Modulus)
				if !op.acc {
					o = garbagePoly(c.R, R.N, L)
				}
				if op.wideA {
					for i, q := range R.Modulus {
						for j := range a.Coeffs[i] {
							a.Coeffs[i][j] = wide(c.R, q)
						}
					}
				}
				if op.domain != nil {
					for i, q := range R.Modulus {
						for j := range a.Coeffs[i] {
							x, y, z := op.domain(c, q)
							a.Coeffs[i][j], b.Coeffs[i][j] = x, y
							if op.acc {
								o.Coeffs[i][j] = z
							}
						}
					}
				}
				if !useLvl { // receivers and operands of different levels: the smallest counts
					level = L - 1
					for _, p := range []*ring.Poly{a, b, o} {
						if c.R.Intn(3) == 0 {
							l := c.R.Intn(L)
							if p == b && op.arity == 1 {
								continue
							}
							p.Coeffs = p.Coeffs[:l+1]
							if l < level {
								level = l
							}
						}
					}
					if len(op.name) > 8 && (op.name == "MulCoeffsMontgomeryConstantAndNeg" || op.name == "MulCoeffsMontgomeryConstantAndSubNoMod" || op.name == "MFormConstant") {
						useLvl = true
					}
				}
				alias := "none"
				pa, pb, po := a, b, o
				switch c.R.Intn(5) {
				case 0:
					po, alias = a, "out=a"
				case 1:
					if op.arity == 2 && op.domain == nil && !op.wideA {
						po, alias = b, "out=b"
					}
				case 2:
					if op.arity == 2 && op.domain == nil && !op.wideA {
						pb, alias = a, "a=b"
					}
				case 3:
					if op.arity == 2 && op.domain == nil && !op.wideA {
						pb, po, alias = a, a, "a=b=out"
					}
				}
				if op.acc && op.domain != nil && alias != "none" {
					pa, pb, po, alias = a, b, o, "none"
				}
				if !useLvl {
					level = pa.Level()
					if po.Level() < level {
						level = po.Level()
					}
					if op.arity == 2 && pb.Level() < level {
						level = pb.Level()
					}
				}
				c.Feature("%s N=%d L=%d lvl=%d uselvl=%v alias=%s type=%s bits=%d", op.name, R.N, L, level, useLvl, alias, typeName(R.Type()), bits.Len64(R.Modulus[0]))
				set := []*ring.Poly{pa}
				if pb != pa {
					set = append(set, pb)
				}
				if po != pa && po != pb {
					set = append(set, po)
				}
				c.outsize(R, set...)
				ia, ib, io := copyCoeffs(pa), copyCoeffs(pb), copyCoeffs(po)
				if !useLvl {
					level = minInt(L-1, minInt(pa.Level(), po.Level()))
					if op.arity == 2 {
						level = minInt(level, pb.Level())
					}
				}
				op.run(R, level, useLvl, pa, pb, po)
				for i, q := range R.Modulus {
					if i > level || i >= len(po.Coeffs) {
						break
					}
					for j := 0; j < R.N; j++ {
						var bv uint64
						if op.arity == 2 {
							bv = ib[i][j]
						}
						addend := uint64(0)
						if op.kind == lazyAdd {
							if op.acc {
								addend = io[i][j]
							} else if op.name == "SubNoMod" {
								addend = ia[i][j]
							}
						}
						cmpLimb(c, op.name, op.kind, op.zeroQ, addend, po.Coeffs[i][j], op.ref(ia[i][j], bv, io[i][j], q), q, op.name)
					}
					c.Event(R.N)
				}
				c.checkTail(op.name, R, level, po, io)
				c.checkUntouched(op.name, level, pa, pb, po, ia, ib, io)
			})
			r.Cases("vectors", 18*60, 18*2000, func(c *Case) { vectorOps(c) })
			r.Cases("scalar", 9*120, 9*3000, func(c *Case) { scalarOps(c) })
			r.Cases("bigint-views", 400, 8000, func(c *Case) { bigintViews(c) })
			r.Cases("equality", 300, 6000, func(c *Case) { ringEqual(c) })
		})
}

// checkUntouched: operands other than the receiver unchanged; receiver limbs above the level unchanged.
func (c *Case) checkUntouched(name string, level int, pa, pb, po *ring.Poly, ia, ib, io [][]uint64) {
	c.Event(3)
	if pa != po && !eqCoeffs(pa.Coeffs, ia) {
		c.Fatal(name+"/operand", "%s modified its first operand", name)
	}
	if pb != nil && pb != po && !eqCoeffs(pb.Coeffs, ib) {
		c.Fatal(name+"/operand", "%s modified its second operand", name)
	}
	if level+1 < len(io) && !eqCoeffs(po.Coeffs[level+1:], io[level+1:]) {
		c.Fatal(name+"/above-level", "%s wrote above level %d", name, level)
	}
}

// outsize gives polynomials more rows than the ring has moduli and rows longer than its degree (ring operations only
// touch the part that the ring describes).
func (c *Case) outsize(R *ring.Ring, ps ...*ring.Poly) (rows, long bool) {
	rows, long = c.R.Intn(5) == 0, c.R.Intn(6) == 0
	for _, p := range ps {
		if long {
			for i := range p.Coeffs {
				p.Coeffs[i] = append(p.Coeffs[i], garbagePoly(c.R, R.N, 1).Coeffs[0]...)
			}
		}
		if rows && len(p.Coeffs) == len(R.Modulus) {
			n := len(p.Coeffs[0])
			p.Coeffs = append(p.Coeffs[:len(p.Coeffs):len(p.Coeffs)], garbagePoly(c.R, n, 1+c.R.Intn(2)).Coeffs...)
		}
	}
	return
}

func (c *Case) checkTail(name string, R *ring.Ring, level int, po *ring.Poly, io [][]uint64) {
	for i := 0; i <= level && i < len(po.Coeffs); i++ {
		if len(io[i]) > R.N && !reflect.DeepEqual(po.Coeffs[i][R.N:], io[i][R.N:]) {
			c.Fatal(name+"/beyond-degree", "%s wrote beyond the ring degree %d in row %d", name, R.N, i)
		}
	}
}

// vectorOps: the exported vector functions by themselves, on vectors of any multiple of eight.
func vectorOps(c *Case) {
	q := pickPrimes(c.R, 1, 32, 14, 61)[0]
	u, qi := ring.BRedParams(q), ring.MRedParams(q)
	n := 8 * (1 + c.R.Intn(12))
	alias := c.R.Intn(4)
	s := resid(c.R, q)
	vec := func(f func() uint64) []uint64 {
		v := make([]uint64, n)
		for i := range v {
			v[i] = f()
		}
		return v
	}
	res := func() uint64 { return resid(c.R, q) }
	lazy := func() uint64 { return resid(c.R, q) + uint64(c.R.Intn(2))*q }
	any := func() uint64 { return wide(c.R, q) }
	half := func() uint64 { return wide(c.R, q) >> 1 }
	inv := func(x uint64) uint64 { return invMontRefC(x, q) }
	type op struct {
		name    string
		x, y, z func() uint64
		kind    opKind
		run     func(x, y, z []uint64)
		ref     func(x, y, z uint64) uint64
	}
	ops := []op{
		{"SubVecAndMulScalarMontgomeryTwoQiVec", res, lazy, any, exact, func(x, y, z []uint64) { ring.SubVecAndMulScalarMontgomeryTwoQiVec(x, y, z, s, q, qi) }, func(x, y, z uint64) uint64 { return inv(mulMod(subMod(x, y, q), s, q)) }},
		{"SubVecAndMulScalarMontgomeryTwoQiVec", half, lazy, any, exact, func(x, y, z []uint64) { ring.SubVecAndMulScalarMontgomeryTwoQiVec(x, y, z, s, q, qi) }, func(x, y, z uint64) uint64 { return inv(mulMod(subMod(x, y, q), s, q)) }},
		{"AddVecNoModAndMulScalarMontgomeryVec", half, half, any, exact, func(x, y, z []uint64) { ring.AddVecNoModAndMulScalarMontgomeryVec(x, y, z, s, q, qi) }, func(x, y, z uint64) uint64 { return inv(mulMod((x+y)%q, s, q)) }},
		{"AddScalarNoModAndNegTwoQiNoModVec", lazy, nil, any, integer, func(x, y, z []uint64) { ring.AddScalarNoModAndNegTwoQiNoModVec(x, z, s, q) }, func(x, y, z uint64) uint64 { return s + 2*q - x }},
		{"AddScalarNoModVec", half, nil, any, integer, func(x, y, z []uint64) { ring.AddScalarNoModVec(x, z, s) }, func(x, y, z uint64) uint64 { return s + x }},
		{"MulScalarMontgomeryAndAddVec", any, nil, res, exact, func(x, y, z []uint64) { ring.MulScalarMontgomeryAndAddVec(x, z, s, q, qi) }, func(x, y, z uint64) uint64 { return addMod(z, inv(mulMod(x%q, s, q)), q) }},
		{"MulScalarMontgomeryVec", any, nil, any, exact, func(x, y, z []uint64) { ring.MulScalarMontgomeryVec(x, z, s, q, qi) }, func(x, y, z uint64) uint64 { return inv(mulMod(x%q, s, q)) }},
		{"MulScalarMontgomeryConstantVec", any, nil, any, lazy2q, func(x, y, z []uint64) { ring.MulScalarMontgomeryConstantVec(x, z, s, q, qi) }, func(x, y, z uint64) uint64 { return inv(mulMod(x%q, s, q)) }},
		{"MulByPow2Vec", res, nil, any, exact, func(x, y, z []uint64) { ring.MulByPow2Vec(x, z, int(s%64), q, qi) }, func(x, y, z uint64) uint64 { return inv(mulMod(x, pow2ModU(int(s%64), q), q)) }},
		{"AddScalarVec", res, nil, any, exact, func(x, y, z []uint64) { ring.AddScalarVec(x, z, s, q) }, func(x, y, z uint64) uint64 { return addMod(x, s, q) }},
		{"SubScalarVec", res, nil, any, exact, func(x, y, z []uint64) { ring.SubScalarVec(x, z, s, q) }, func(x, y, z uint64) uint64 { return subMod(x, s, q) }},
		{"AddVec", res, res, any, exact, func(x, y, z []uint64) { ring.AddVec(x, y, z, q) }, func(x, y, z uint64) uint64 { return addMod(x, y, q) }},
		{"SubVec", res, res, any, exact, func(x, y, z []uint64) { ring.SubVec(x, y, z, q) }, func(x, y, z uint64) uint64 { return subMod(x, y, q) }},
		{"MulCoeffsVec", res, res, any, exact, func(x, y, z []uint64) { ring.MulCoeffsVec(x, y, z, q, u) }, func(x, y, z uint64) uint64 { return mulMod(x, y, q) }},
		{"MulCoeffsMontgomeryVec", any, res, any, exact, func(x, y, z []uint64) { ring.MulCoeffsMontgomeryVec(x, y, z, q, qi) }, func(x, y, z uint64) uint64 { return inv(mulMod(x%q, y, q)) }},
		{"ReduceVec", any, nil, any, exact, func(x, y, z []uint64) { ring.ReduceVec(x, z, q, u) }, func(x, y, z uint64) uint64 { return x % q }},
		{"MFormVec", any, nil, any, exact, func(x, y, z []uint64) { ring.MFormVec(x, z, q, u) }, func(x, y, z uint64) uint64 { return montRefC(x%q, q) }},
		{"InvMFormVec", any, nil, any, exact, func(x, y, z []uint64) { ring.InvMFormVec(x, z, q, qi) }, func(x, y, z uint64) uint64 { return inv(x % q) }},
	}
	o := ops[c.Idx%len(ops)]
	x, z := vec(o.x), vec(o.z)
	var y []uint64
	if o.y != nil {
		y = vec(o.y)
	}
	if alias == 1 && o.name != "MulScalarMontgomeryAndAddVec" {
		z = x
	}
	if alias == 2 && y != nil {
		z = y
	}
	// the vectors are windows of longer ones, and nothing around them moves
	c.Feature("%s n=%d bits=%d alias=%d", o.name, n, bits.Len64(q), alias)
	x0, y0, z0 := append([]uint64(nil), x...), append([]uint64(nil), y...), append([]uint64(nil), z...)
	room := append(z, 11, 12, 13, 14, 15, 16, 17, 18)
	zw := room[:n]
	xw, yw := x, y
	if alias == 1 && o.name != "MulScalarMontgomeryAndAddVec" {
		xw = zw
	}
	if alias == 2 && y != nil {
		yw = zw
	}
	o.run(xw, yw, zw)
	for j := range zw {
		var yv uint64
		if y0 != nil {
			yv = y0[j]
		}
		cmpLimb(c, o.name, o.kind, false, 0, zw[j], o.ref(x0[j], yv, z0[j]), q, o.name)
	}
	c.Event(n)
	for i, v := range room[n:] {
		c.Check(v == uint64(11+i), o.name+"/beyond", "%s wrote beyond the end of its receiver (length %d)", o.name, n)
	}
	if alias != 1 || o.name == "MulScalarMontgomeryAndAddVec" {
		c.Check(reflect.DeepEqual(x, x0), o.name+"/operand", "%s modified its first operand", o.name)
	}
	if alias != 2 && y != nil {
		c.Check(reflect.DeepEqual(y, y0), o.name+"/operand", "%s modified its second operand", o.name)
	}
}

func scalarOps(c *Case) {
	R := c.randRing(8, 6)
	L := len(R.Modulus)
	a, o := randPoly(c.R, R.N, R.Modulus), garbagePoly(c.R, R.N, L)
	alias := c.R.Intn(2) == 0
	if alias {
		o = a
	}
	level := c.R.Intn(L)
	lvl := c.R.Intn(2) == 0
	if !lvl {
		level = L - 1
		if c.R.Intn(2) == 0 {
			level = c.R.Intn(L)
			o.Coeffs = o.Coeffs[:level+1]
		}
	}
	if alias {
		c.outsize(R, a)
	} else {
		c.outsize(R, a, o)
	}
	if !lvl {
		level = minInt(L-1, minInt(a.Level(), o.Level()))
	}
	ia, io := copyCoeffs(a), copyCoeffs(o)
	minq := R.Modulus[0]
	for _, q := range R.Modulus {
		if q < minq {
			minq = q
		}
	}
	s := resid(c.R, minq)
	sb := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(1+c.R.Intn(200))))
	if c.R.Intn(2) == 0 {
		sb.Neg(sb)
	}
	name := []string{"AddScalar", "AddScalarBigint", "SubScalar", "SubScalarBigint", "MulScalar", "MulScalarBigint", "MulByPow2", "Mod", "MulByVectorMontgomery"}[c.Idx%9]
	c.Feature("%s N=%d L=%d lvl=%d uselvl=%v alias=%v type=%s bits=%d", name, R.N, L, level, lvl, alias, typeName(R.Type()), bits.Len64(R.Modulus[0]))
	var ref func(x uint64, j int, q uint64) uint64
	switch name {
	case "AddScalar":
		if c.R.Intn(3) == 0 {
			s = c.R.Uint64()
		}
		ref = func(x uint64, j int, q uint64) uint64 { return addMod(x, s, q) }
		if lvl {
			R.AddScalarLvl(level, a, s, o)
		} else {
			R.AddScalar(a, s, o)
		}
	case "AddScalarBigint":
		ref = func(x uint64, j int, q uint64) uint64 { return addMod(x, modU(sb, q), q) }
		if lvl {
			R.AddScalarBigintLvl(level, a, sb, o)
		} else {
			R.AddScalarBigint(a, sb, o)
		}
	case "SubScalar":
		if c.R.Intn(3) == 0 {
			s = c.R.Uint64()
		}
		ref = func(x uint64, j int, q uint64) uint64 { return subMod(x, s, q) }
		if lvl {
			R.SubScalarLvl(level, a, s, o)
		} else {
			R.SubScalar(a, s, o)
		}
	case "SubScalarBigint":
		ref = func(x uint64, j int, q uint64) uint64 { return subMod(x, modU(sb, q), q) }
		if lvl {
			R.SubScalarBigintLvl(level, a, sb, o)
		} else {
			R.SubScalarBigint(a, sb, o)
		}
	case "MulScalar":
		s = wide(c.R, minq)
		ref = func(x uint64, j int, q uint64) uint64 { return mulMod(x, s, q) }
		if lvl {
			R.MulScalarLvl(level, a, s, o)
		} else {
			R.MulScalar(a, s, o)
		}
	case "MulScalarBigint":
		ref = func(x uint64, j int, q uint64) uint64 { return mulMod(x, modU(sb, q), q) }
		if lvl {
			R.MulScalarBigintLvl(level, a, sb, o)
		} else {
			R.MulScalarBigint(a, sb, o)
		}
	case "MulByPow2":
		n := c.R.Intn(64)
		ref = func(x uint64, j int, q uint64) uint64 { return mulMod(x, pow2ModU(n, q), q) }
		switch {
		case lvl:
			R.MulByPow2Lvl(level, a, n, o)
		case !alias && level == L-1 && c.R.Intn(2) == 0:
			o = R.MulByPow2New(a, n)
			c.Check(o != a && !shared(a, o) && eqCoeffs(a.Coeffs, ia), name+"New/operand", "MulByPow2New changed or returned its operand")
			io = copyCoeffs(o)
		default:
			R.MulByPow2(a, n, o)
		}
	case "Mod":
		m := 2 + (c.R.Uint64()-2)>>uint(c.R.Intn(53))
		for i := range a.Coeffs { // any representative
			for j := range a.Coeffs[i] {
				a.Coeffs[i][j] = wide(c.R, m)
			}
		}
		ia = copyCoeffs(a)
		if alias {
			io = copyCoeffs(o)
		}
		ref = func(x uint64, j int, q uint64) uint64 { return x % m }
		if lvl {
			R.ModLvl(level, a, m, o)
		} else {
			R.Mod(a, m, o)
		}
	case "MulByVectorMontgomery":
		v := make([]uint64, R.N)
		for j := range v {
			v[j] = resid(c.R, minq)
		}
		acc := c.R.Intn(2) == 0
		if acc && !alias {
			for i, q := range R.Modulus {
				if i < len(o.Coeffs) {
					for j := range o.Coeffs[i] {
						o.Coeffs[i][j] = c.R.Uint64() % q
					}
				}
			}
			io = copyCoeffs(o)
		}
		v0 := append([]uint64(nil), v...)
		if acc && !alias {
			if lvl {
				R.MulByVectorMontgomeryAndAddNoModLvl(level, a, v, o)
			} else {
				R.MulByVectorMontgomeryAndAddNoMod(a, v, o)
			}
			for i, q := range R.Modulus {
				if i > level {
					break
				}
				for j := 0; j < R.N; j++ {
					cmpLimb(c, name+"AndAdd", lazyAdd, false, io[i][j], o.Coeffs[i][j], addMod(io[i][j], invMontRefC(mulMod(ia[i][j], v[j], q), q), q), q, name+"AndAdd")
				}
				c.Event(R.N)
			}
			c.checkUntouched(name, level, a, nil, o, ia, nil, io)
			return
		}
		ref = func(x uint64, j int, q uint64) uint64 { return invMontRefC(mulMod(x, v[j], q), q) }
		if lvl {
			R.MulByVectorMontgomeryLvl(level, a, v, o)
		} else {
			R.MulByVectorMontgomery(a, v, o)
		}
		for j := range v {
			if v[j] != v0[j] {
				c.Fatal(name+"/operand", "vector modified")
			}
		}
	}
	for i, q := range R.Modulus {
		if i > level {
			break
		}
		for j := 0; j < R.N; j++ {
			cmpLimb(c, name, exact, false, 0, o.Coeffs[i][j], ref(ia[i][j], j, q), q, name)
		}
		c.Event(R.N)
	}
	c.checkTail(name, R, level, o, io)
	c.checkUntouched(name, level, a, nil, o, ia, nil, io)
}

func bigintViews(c *Case) {
	R := c.randRing(7, 6)
	L := len(R.Modulus)
	level := c.R.Intn(L)
	C := newCRT(R.Modulus[:level+1])
	p := randPoly(c.R, R.N, R.Modulus)
	keep := copyCoeffs(p)
	c.Feature("N=%d L=%d level=%d", R.N, L, level)
	gap := 1 << uint(c.R.Intn(3))
	n := R.N / gap
	out := make([]*big.Int, n)
	for i := range out {
		if c.R.Intn(2) == 0 {
			out[i] = big.NewInt(int64(c.R.Uint64())) // stale values
		} else {
			out[i] = new(big.Int)
		}
	}
	R.PolyToBigintLvl(level, p, gap, out)
	for i := range out {
		c.Check(out[i].Cmp(C.lift(p.Coeffs, i*gap)) == 0, "PolyToBigintLvl", "coefficient %d (gap %d, level %d)", i*gap, gap, level)
	}
	for i := range out {
		if c.R.Intn(2) == 0 {
			out[i] = big.NewInt(int64(c.R.Uint64())) // stale values
		} else {
			out[i] = new(big.Int)
		}
	}
	R.PolyToBigintCenteredLvl(level, p, gap, out)
	for i := range out {
		want := C.liftCentered(p.Coeffs, i*gap)
		d := new(big.Int).Sub(out[i], want)
		// the two centred representatives of +-Q/2 are both accepted
		c.Check(d.Sign() == 0 || (new(big.Int).Abs(d).Cmp(C.Q) == 0 && new(big.Int).Lsh(new(big.Int).Abs(out[i]), 1).CmpAbs(new(big.Int).Add(C.Q, big.NewInt(1))) <= 0),
			"PolyToBigintCenteredLvl", "coefficient %d: got %v want %v", i*gap, out[i], want)
	}
	c.Check(eqCoeffs(p.Coeffs, keep), "bigint-operand", "conversion modified the polynomial")
	// full level: string view and setters
	full := newCRT(R.Modulus)
	s := R.PolyToString(p)
	for i := range s {
		c.Check(s[i] == full.lift(p.Coeffs, i).String(), "PolyToString", "coefficient %d", i)
	}
	q2 := garbagePoly(c.R, R.N, L)
	R.SetCoefficientsString(s, q2)
	c.Check(eqCoeffs(q2.Coeffs, p.Coeffs), "SetCoefficientsString", "round trip")
	// polynomials of lower level
	low := &ring.Poly{Coeffs: p.Coeffs[:level+1]}
	for i := range out {
		out[i] = nil
	}
	R.PolyToBigint(low, gap, out)
	for i := range out {
		c.Check(out[i] != nil && out[i].Cmp(C.lift(p.Coeffs, i*gap)) == 0, "PolyToBigint", "coefficient %d (gap %d, level %d)", i*gap, gap, level)
	}
	if ls := R.PolyToString(low); true {
		c.Check(len(ls) == R.N, "PolyToString/low", "%d strings", len(ls))
		for i := range ls {
			c.Check(ls[i] == C.lift(p.Coeffs, i).String(), "PolyToString/low", "coefficient %d at level %d", i, level)
		}
	}
	vals := make([]*big.Int, R.N)
	ints := make([]int64, R.N)
	us := make([]uint64, R.N)
	for i := range vals {
		vals[i] = new(big.Int).Rand(c.R, full.Q)
		vals[i].Lsh(vals[i], uint(c.R.Intn(70)))
		if c.R.Intn(2) == 0 {
			vals[i].Neg(vals[i])
		}
		ints[i] = int64(c.R.Uint64())
		if c.R.Intn(2) == 0 {
			ints[i] >>= uint(c.R.Intn(63))
		}
		us[i] = c.R.Uint64() >> uint(c.R.Intn(64))
	}
	check := func(name string, lvl int, q *ring.Poly, f func(i int, m uint64) uint64, before [][]uint64) {
		for k := 0; k <= lvl; k++ {
			for i := 0; i < R.N; i++ {
				c.Check(q.Coeffs[k][i]%R.Modulus[k] == f(i, R.Modulus[k]) && q.Coeffs[k][i] <= R.Modulus[k], name, "limb %d coefficient %d: got %d want %d", k, i, q.Coeffs[k][i], f(i, R.Modulus[k]))
			}
		}
		if lvl+1 < len(before) {
			c.Check(eqCoeffs(q.Coeffs[lvl+1:], before[lvl+1:]), name+"/above-level", "wrote above level")
		}
	}
	q3 := garbagePoly(c.R, R.N, L)
	b3 := copyCoeffs(q3)
	R.SetCoefficientsBigintLvl(level, vals, q3)
	check("SetCoefficientsBigintLvl", level, q3, func(i int, m uint64) uint64 { return modU(vals[i], m) }, b3)
	R.SetCoefficientsBigint(vals, q3)
	check("SetCoefficientsBigint", L-1, q3, func(i int, m uint64) uint64 { return modU(vals[i], m) }, b3)
	R.SetCoefficientsInt64(ints, q3)
	check("SetCoefficientsInt64", L-1, q3, func(i int, m uint64) uint64 { return modU(big.NewInt(ints[i]), m) }, b3)
	for i := range s {
		// any integer literal of Go
		s[i] = fmt.Sprintf([]string{"%d", "%#x", "%#o", "%#b"}[c.R.Intn(4)], vals[i])
	}
	R.SetCoefficientsString(s, q3)
	check("SetCoefficientsString", L-1, q3, func(i int, m uint64) uint64 { return modU(vals[i], m) }, b3)
	R.SetCoefficientsUint64(us, q3)
	check("SetCoefficientsUint64", L-1, q3, func(i int, m uint64) uint64 { return us[i] % m }, b3)
}

func ringEqual(c *Case) {
	R := c.randRing(7, 5)
	L := len(R.Modulus)
	p := randPoly(c.R, R.N, R.Modulus)
	q := p.CopyNew()
	level := c.R.Intn(L)
	i, j := c.R.Intn(L), c.R.Intn(R.N)
	if c.R.Intn(2) == 0 { // other representatives of the same residues
		side := c.R.Intn(3) // which operand is left unreduced, 2 for both
		for k := range q.Coeffs {
			for m := range q.Coeffs[k] {
				if side != 0 {
					q.Coeffs[k][m] += R.Modulus[k] * uint64(c.R.Intn(3))
				}
				if side != 1 {
					p.Coeffs[k][m] += R.Modulus[k] * uint64(c.R.Intn(3))
				}
			}
		}
	}
	mode := c.Idx % 3
	c.Feature("mode=%d N=%d L=%d level=%d limb=%d pos=%d", mode, R.N, L, level, i, j%8)
	if mode == 0 {
		c.Check(R.Equal(p.CopyNew(), q.CopyNew()), "Equal/false-negative", "equal polynomials reported different")
		c.Check(R.EqualLvl(level, p.CopyNew(), q.CopyNew()), "EqualLvl/false-negative", "equal polynomials reported different at level %d", level)
		return
	}
	if c.R.Intn(4) == 0 { // polynomials of different degrees
		o := q.CopyNew()
		if c.R.Intn(2) == 0 {
			o.Coeffs[i] = o.Coeffs[i][:R.N/2]
		} else {
			o.Coeffs[i] = append(o.Coeffs[i], make([]uint64, R.N)...)
		}
		a, b := p.CopyNew(), o
		if c.R.Intn(2) == 0 {
			a, b = b, a
		}
		c.Check(!R.Equal(a, b), "Equal/degrees", "polynomials of different degrees reported equal (limb %d)", i)
		if i <= level {
			c.Check(!R.EqualLvl(level, a, b), "EqualLvl/degrees", "polynomials of different degrees reported equal (limb %d, level %d)", i, level)
		}
	}
	q.Coeffs[i][j] = addMod(q.Coeffs[i][j], 1+c.R.Uint64()%(R.Modulus[i]-1), R.Modulus[i])
	c.Check(!R.Equal(p.CopyNew(), q.CopyNew()), "Equal/false-positive", "polynomials differing in limb %d coefficient %d reported equal", i, j)
	c.Check(R.EqualLvl(level, p.CopyNew(), q.CopyNew()) == (i > level), "EqualLvl/wrong", "difference in limb %d, compared at level %d", i, level)
}
