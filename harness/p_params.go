package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func pow5(k int, m uint64) uint64 { // 5^k mod m for any k, by the definition (m a power of two)
	g := uint64(5)
	if k < 0 {
		g, k = invMod2k(5, m), -k
	}
	r := uint64(1)
	for ; k > 0; k-- {
		r = r * g & (m - 1)
	}
	return r
}

// checkRLWEParams compares every getter with its definition.
func (c *Case) checkRLWEParams(p rlwe.Parameters, logN int, q, pp []uint64, h int, sigma float64, t ring.Type) {
	N := 1 << uint(logN)
	root := nthRootOf(N, t)
	eq := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	qp := append(append([]uint64{}, q...), pp...)
	c.Check(p.N() == N && p.LogN() == logN, "getter/N", "N=%d LogN=%d", p.N(), p.LogN())
	c.Check(eq(p.Q(), q) && eq(p.P(), pp) && eq(p.QP(), qp), "getter/moduli", "Q=%v P=%v QP=%v", p.Q(), p.P(), p.QP())
	c.Check(p.QCount() == len(q) && p.PCount() == len(pp) && p.QPCount() == len(qp) && p.MaxLevel() == len(q)-1 && p.Alpha() == len(pp), "getter/count", "counts %d %d %d, level %d, alpha %d", p.QCount(), p.PCount(), p.QPCount(), p.MaxLevel(), p.Alpha())
	c.Check(p.QBigInt().Cmp(prodBig(q)) == 0 && p.PBigInt().Cmp(prodBig(pp)) == 0 && p.QPBigInt().Cmp(prodBig(qp)) == 0, "getter/big", "products of the moduli")
	c.Check(p.LogQ() == prodBig(q).BitLen() && p.LogP() == prodBig(pp).BitLen() && p.LogQP() == prodBig(qp).BitLen(), "getter/log", "sizes %d %d %d", p.LogQ(), p.LogP(), p.LogQP())
	beta := 1
	if len(pp) > 0 {
		beta = (len(q) + len(pp) - 1) / len(pp)
	}
	c.Check(p.Beta() == beta, "getter/beta", "beta %d instead of %d", p.Beta(), beta)
	c.Check(p.HammingWeight() == h && p.Sigma() == sigma && p.RingType() == t, "getter/distribution", "h=%d sigma=%v type=%v", p.HammingWeight(), p.Sigma(), p.RingType())
	margin := func(m []uint64) int {
		mx := uint64(0)
		for _, x := range m {
			if x > mx {
				mx = x
			}
		}
		return int(new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 64), bigU(mx)).Int64())
	}
	safe := func(got int, m []uint64) bool { return got == margin(m) }
	for l := range q {
		c.Check(p.QiFloat64(l) == float64(q[l]), "getter/QiFloat64", "level %d", l)
		c.Check(safe(p.QiOverflowMargin(l), q[:l+1]), "getter/margin", "QiOverflowMargin(%d)=%d instead of %d", l, p.QiOverflowMargin(l), margin(q[:l+1]))
	}
	for l := range pp {
		c.Check(safe(p.PiOverflowMargin(l), pp[:l+1]), "getter/margin", "PiOverflowMargin(%d)=%d instead of %d", l, p.PiOverflowMargin(l), margin(pp[:l+1]))
	}
	rq, rp := p.RingQ(), p.RingP()
	if c.Check(rq != nil && rq.N == N && eq(rq.Modulus, q) && rq.Type() == t && rq.NthRoot == root, "getter/RingQ", "ring Q") && len(pp) > 0 {
		c.Check(rp != nil && rp.N == N && eq(rp.Modulus, pp) && rp.Type() == t && rp.NthRoot == root, "getter/RingP", "ring P")
	}
	if qpr := p.RingQP(); c.Check(qpr != nil, "getter/RingQP", "ring QP") {
		c.Check(qpr.RingQ == rq && qpr.RingP == rp, "getter/RingQP", "ring QP has other rings")
	}
	// Galois elements
	for i := 0; i < 4; i++ {
		k := c.R.Intn(4*N) - 2*N
		g := p.GaloisElementForColumnRotationBy(k)
		c.Check(g == pow5(k, root), "galois/column", "rotation by %d: %d instead of %d", k, g, pow5(k, root))
		c.Check(p.InverseGaloisElement(g)*g&(root-1) == 1, "galois/inverse", "inverse of %d: %d", g, p.InverseGaloisElement(g))
		c.Check(p.GaloisElementForColumnRotationBy(-k) == p.InverseGaloisElement(g), "galois/negative", "rotation by %d", -k)
		x := uint64(2*c.R.Int63n(int64(root)/2) + 1)
		c.Check(p.InverseGaloisElement(x)*x&(root-1) == 1, "galois/inverse", "inverse of %d: %d", x, p.InverseGaloisElement(x))
	}
	if t == ring.Standard {
		c.Check(p.GaloisElementForRowRotation() == root-1, "galois/row", "row rotation %d", p.GaloisElementForRowRotation())
	} else {
		bad, _, _ := c.Try(func() { p.GaloisElementForRowRotation() })
		c.Check(bad, "galois/row", "row rotation in the conjugate-invariant ring")
	}
	// the automorphisms of the inner sum reach every slot: their products are as many distinct ones as there are rotations
	reach := map[uint64]bool{1: true}
	els := p.GaloisElementsForRowInnerSum()
	for _, g := range els {
		for x := range copyKeys(reach) {
			reach[x*g&(root-1)] = true
		}
	}
	want := N // rotations of N/2 and the conjugation, or N rotations
	c.Check(len(els) == logN && len(reach) == want, "galois/inner-sum", "%d automorphisms reach %d positions instead of %d", len(els), len(reach), want)
	// a returned slice is a copy
	if len(q) > 0 {
		p.Q()[0], p.QP()[0] = 1, 1
		if len(pp) > 0 {
			p.P()[0] = 1
		}
		c.Check(eq(p.Q(), q) && eq(p.P(), pp) && eq(p.QP(), qp), "getter/alias", "writing to a returned slice changed the parameters")
	}
	// copies and equality
	cp := p.CopyNew()
	c.Check(cp.Equals(p) && p.Equals(cp) && p.Equals(p), "equals/copy", "a copy differs")
	c.Check(eq(cp.RingQ().Modulus, q) && cp.RingQ().Type() == t && (len(pp) == 0) == (cp.RingP() == nil) && (len(pp) == 0 || eq(cp.RingP().Modulus, pp)), "copy/rings", "rings of a copy")
	other := func(logN2 int, q2, p2 []uint64, h2 int, s2 float64, what string) {
		o, err := rlwe.NewParameters(logN2, q2, p2, h2, s2, t)
		if err == nil {
			c.Check(!o.Equals(p) && !p.Equals(o), "equals/different", "parameters with another %s are equal", what)
		}
	}
	other(logN, q, pp, h+1, sigma, "weight")
	if o, err := rlwe.NewParameters(logN, q, pp, h, sigma, t^1); err == nil {
		c.Check(!o.Equals(p) && !p.Equals(o), "equals/different", "parameters of another ring type are equal")
	}
	other(logN, q, pp, h, sigma+1, "deviation")
	if len(q) > 1 {
		other(logN, q[:len(q)-1], pp, h, sigma, "Q")
		other(logN, append(append([]uint64{}, q[1:]...), q[0]), pp, h, sigma, "order of Q")
		other(logN, q[:len(q)-1], append([]uint64{q[len(q)-1]}, pp...), h, sigma, "split of QP")
	}
	if len(pp) > 0 {
		other(logN, q, pp[:len(pp)-1], h, sigma, "P")
	}
	if logN > 4 {
		other(logN-1, q, pp, h, sigma, "degree")
	}
	st, err := p.StandardParameters()
	if c.Check(err == nil, "standard/refused", "%v", err) {
		ln := logN
		if t == ring.ConjugateInvariant {
			ln++
		}
		c.Check(st.LogN() == ln && st.N() == 1<<uint(ln) && st.RingType() == ring.Standard && eq(st.Q(), q) && eq(st.P(), pp) && st.HammingWeight() == h && st.Sigma() == sigma, "standard/values", "standard parameters %v", st.LogN())
		c.Check(st.RingQ().N == st.N() && st.RingQ().Type() == ring.Standard && eq(st.RingQ().Modulus, q), "standard/ring", "standard ring Q")
		c.Check(len(pp) == 0 || st.RingP().N == st.N() && st.RingP().Type() == ring.Standard, "standard/ring", "standard ring P")
		c.Check(p.N() == N && p.RingType() == t && rq.N == N && rq.Type() == t, "standard/receiver-modified", "the receiver changed")
	}
	c.Event(60)
}

func copyKeys(m map[uint64]bool) map[uint64]bool {
	o := map[uint64]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

// faultyModuli plants a defect in a valid chain of moduli; it says whether the chain is now invalid.
func (c *Case) faultyModuli(m []uint64, root uint64) ([]uint64, string) {
	m = append([]uint64{}, m...)
	i := c.R.Intn(len(m))
	switch c.R.Intn(9) {
	case 0: // a product of two primes, with the right residue
		l := nttPrimes(22, root, 2)
		if len(l) < 2 {
			return m, ""
		}
		m[i] = l[0] * l[1]
		return m, "composite"
	case 1: // the square of a prime
		l := nttPrimes(25, root, 1)
		if len(l) < 1 {
			return m, ""
		}
		m[i] = l[0] * l[0]
		return m, "square"
	case 2: // a prime with the wrong residue
		for x := uint64(1)<<uint(30+c.R.Intn(20)) + 3; ; x += 2 {
			if x%root != 1 && bigU(x).ProbablyPrime(20) {
				m[i] = x
				return m, "not-ntt"
			}
		}
	case 3:
		if len(m) < 2 {
			return m, ""
		}
		m[i] = m[(i+1)%len(m)]
		return m, "duplicate"
	case 4:
		m[i] = uint64(c.R.Intn(2))
		return m, "trivial"
	case 5: // too large: just above 2^61, anywhere above, or at the end of the range
		x := ^uint64(0) - (^uint64(0) % root) + 1
		switch c.R.Intn(3) {
		case 0:
			x = uint64(1)<<62 - uint64(1)<<40 + 1
		case 1:
			x = uint64(1)<<uint(61+c.R.Intn(3)) + uint64(c.R.Int63n(1<<61))&^(root-1) + 1<<40 + 1
		}
		for ; ; x -= root {
			if bigU(x).ProbablyPrime(20) {
				m[i] = x
				return m, fmt.Sprintf("%d-bit", bits.Len64(x))
			}
		}
	case 6:
		for len(m) <= 100 {
			m = append(m, m...)
		}
		return m, "count"
	case 7:
		m[i]++
		return m, "even"
	default: // prime for half of the root only
		for x := uint64(1)<<40 + root/2 + 1; ; x += root {
			if bigU(x).ProbablyPrime(20) {
				m[i] = x
				return m, "half-root"
			}
		}
	}
}

func (c *Case) paramsCase() {
	t := []ring.Type{ring.Standard, ring.ConjugateInvariant}[c.R.Intn(2)]
	logN := 4 + c.R.Intn(6)
	N := 1 << uint(logN)
	nq, np := 1+c.R.Intn(8), c.R.Intn(5)
	lo := 20 + c.R.Intn(38)
	ps := widePrimes(c.R, nq+np, nthRootOf(N, t), lo, minInt(lo+c.R.Intn(10), 61), nil)
	q, p := ps[:nq], ps[nq:]
	h := 1 + c.R.Intn(N)
	sigma := []float64{0, 1, 3.2, 10}[c.R.Intn(4)]
	bad := ""
	switch c.R.Intn(8) {
	case 0:
		q, bad = c.faultyModuli(q, nthRootOf(N, t))
	case 1:
		if np > 0 {
			p, bad = c.faultyModuli(p, nthRootOf(N, t))
		}
	case 2:
		logN = []int{-1, 0, 1, 3, 18, 64}[c.R.Intn(6)]
		bad = "logN"
	case 3:
		if c.R.Intn(3) == 0 {
			q, bad = []uint64{}, "empty"
		}
	case 4:
		if c.R.Intn(3) == 0 {
			t, bad = ring.Type(2+c.R.Intn(200)), "type"
		}
	}
	c.Feature("t=%v logN=%d q=%d p=%d bad=%s", t, logN, len(q), len(p), bad)
	q0, p0 := append([]uint64{}, q...), append([]uint64{}, p...)
	var params rlwe.Parameters
	var err error
	if panicked, msg, _ := c.Try(func() { params, err = rlwe.NewParameters(logN, q, p, h, sigma, t) }); panicked {
		c.Fail("NewParameters/panic", "invalid parameters (%s) caused a panic: %v", bad, msg)
		return
	}
	for i := range q {
		c.Check(q[i] == q0[i], "NewParameters/modifies", "the moduli changed")
	}
	if bad != "" {
		c.Check(err != nil, "NewParameters/accepts", "invalid parameters (%s) were accepted: logN=%d q=%v p=%v", bad, logN, q, p)
		c.Check(params.Equals(rlwe.Parameters{}) && params.RingQ() == nil, "NewParameters/not-empty", "refused parameters are not empty")
		lit := rlwe.ParametersLiteral{LogN: logN, Q: q, P: p, H: h, Sigma: 3.2, RingType: t}
		pan, msg, _ := c.Try(func() { params, err = rlwe.NewParametersFromLiteral(lit) })
		if c.Check(!pan, "FromLiteral/panic", "invalid literal (%s) caused a panic: %v", bad, msg) {
			c.Check(err != nil && params.Equals(rlwe.Parameters{}), "FromLiteral/accepts", "an invalid literal (%s) was accepted", bad)
		}
		return
	}
	if !c.Check(err == nil, "NewParameters/refuses", "valid parameters refused: %v", err) {
		return
	}
	// the parameters do not share memory with the arguments
	for i := range q {
		q[i] = 1
	}
	for i := range p {
		p[i] = 1
	}
	c.checkRLWEParams(params, logN, q0, p0, h, sigma, t)
	c.ckksOf(params, t)
}

// ckksOf checks the CKKS parameters over given RLWE parameters.
func (c *Case) ckksOf(rp rlwe.Parameters, t ring.Type) {
	max := rp.LogN() - 1
	if t == ring.ConjugateInvariant {
		max = rp.LogN()
	}
	ls := c.R.Intn(max+4) - 1
	scale := math.Exp2(60 * c.R.Float64())
	p, err := ckks.NewParameters(rp, ls, scale)
	if ls < 0 || ls > max {
		c.Check(err != nil && p.Equals(ckks.Parameters{}), "ckks/accepts-slots", "%d slots of at most %d accepted", ls, max)
		return
	}
	if !c.Check(err == nil, "ckks/refuses", "%v", err) {
		return
	}
	c.Check(p.LogSlots() == ls && p.Slots() == 1<<uint(ls) && p.MaxLogSlots() == max && p.MaxSlots() == 1<<uint(max) && p.DefaultScale() == scale, "ckks/getters", "slots %d/%d of %d/%d", p.LogSlots(), p.Slots(), p.MaxLogSlots(), p.MaxSlots())
	c.Check(p.MaxLevel() == rp.MaxLevel(), "ckks/level", "level %d", p.MaxLevel())
	q := rp.Q()
	for l := range q {
		w := prodBig(q[:l+1])
		c.Check(p.QLvl(l).Cmp(w) == 0 && p.LogQLvl(l) == w.BitLen(), "ckks/QLvl", "level %d: %v", l, p.QLvl(l))
	}
	cp := p.CopyNew()
	c.Check(cp.Equals(p) && p.Equals(cp), "ckks/copy", "a copy differs")
	if o, err := ckks.NewParameters(rp, ls, scale*1.5); err == nil {
		c.Check(!o.Equals(p) && !p.Equals(o), "ckks/equals", "another scale is equal")
	}
	if o, err := ckks.NewParameters(rp, (ls+1)%(max+1), scale); err == nil {
		c.Check(!o.Equals(p) && !p.Equals(o), "ckks/equals", "another number of slots is equal")
	}
	st, err := p.StandardParameters()
	if c.Check(err == nil, "ckks/standard", "%v", err) {
		c.Check(st.LogSlots() == ls && st.DefaultScale() == scale && st.RingType() == ring.Standard && st.N() == 2<<uint(max), "ckks/standard", "standard parameters")
		c.Check(p.RingType() == t && p.N() == rp.N(), "ckks/standard-modifies", "the receiver changed")
	}
	e, err := ckks.NewParameters(rlwe.Parameters{}, 3, 1)
	c.Check(err != nil && e.Equals(ckks.Parameters{}), "ckks/empty", "empty RLWE parameters were accepted")
}

func (c *Case) literalCase() {
	t := []ring.Type{ring.Standard, ring.ConjugateInvariant}[c.R.Intn(2)]
	logN := 4 + c.R.Intn(6)
	root := nthRootOf(1<<uint(logN), t)
	pl := ckks.ParametersLiteral{LogN: logN, RingType: t, DefaultScale: math.Exp2(30)}
	var logQ, logP []int
	for i := 1 + c.R.Intn(6); i > 0; i-- {
		logQ = append(logQ, 25+c.R.Intn(36))
		if c.R.Intn(2) == 0 {
			logQ[len(logQ)-1] = logQ[0]
		}
	}
	logP = []int{}
	for i := c.R.Intn(4); i > 0; i-- {
		logP = append(logP, 25+c.R.Intn(37))
		if c.R.Intn(3) == 0 {
			logP[len(logP)-1] = logQ[0]
		}
	}
	ps := widePrimes(c.R, 3, root, 30, 50, nil)
	kind := c.R.Intn(4)
	switch kind {
	case 0, 1:
		pl.LogQ, pl.LogP = logQ, logP
	case 2:
		pl.Q, pl.P = ps[:2], ps[2:]
	case 3: // contradictory
		pl.Q, pl.P, pl.LogQ, pl.LogP = ps[:2], ps[2:], logQ, logP
		switch c.R.Intn(4) {
		case 0:
			pl.Q = nil
		case 1:
			pl.LogQ = nil
		case 2:
			pl.Q, pl.P = nil, nil
			pl.LogQ[c.R.Intn(len(logQ))] = []int{0, -3, 61, 62, 64, 100}[c.R.Intn(6)]
		}
	}
	if c.R.Intn(2) == 0 {
		pl.H = 1 + c.R.Intn(1<<uint(logN))
	}
	if c.R.Intn(2) == 0 {
		pl.Sigma = 1 + 10*c.R.Float64()
	}
	if c.R.Intn(2) == 0 {
		pl.LogSlots = 1 + c.R.Intn(logN-1)
	}
	c.Feature("literal kind=%d t=%v logN=%d logQ=%v logP=%v h=%d s=%v slots=%d", kind, t, logN, logQ, logP, pl.H, pl.Sigma, pl.LogSlots)
	var p ckks.Parameters
	var err error
	if pan, msg, _ := c.Try(func() { p, err = ckks.NewParametersFromLiteral(pl) }); pan {
		c.Fail("literal/panic", "%+v caused a panic: %v", pl, msg)
		return
	}
	if kind == 3 {
		c.Check(err != nil && p.Equals(ckks.Parameters{}), "literal/accepts", "%+v was accepted", pl)
		return
	}
	if !c.Check(err == nil, "literal/refused", "%+v was refused: %v", pl, err) {
		return
	}
	h, s, ls := pl.H, pl.Sigma, pl.LogSlots
	if h == 0 {
		h = 1 << uint(logN-1)
	}
	if s == 0 {
		s = 3.2
	}
	if ls == 0 {
		ls = logN - 1
		if t == ring.ConjugateInvariant {
			ls = logN
		}
	}
	q, pp := p.Q(), p.P()
	if kind == 2 {
		q, pp = pl.Q, pl.P
	} else {
		c.Check(len(q) == len(logQ) && len(pp) == len(logP), "literal/count", "%d and %d moduli instead of %d and %d", len(q), len(pp), len(logQ), len(logP))
		c.chain(append(append([]uint64{}, q...), pp...), append(append([]int{}, logQ...), logP...), root)
	}
	c.Check(p.LogSlots() == ls && p.DefaultScale() == pl.DefaultScale, "literal/ckks", "%d slots, scale %v", p.LogSlots(), p.DefaultScale())
	c.checkRLWEParams(p.Parameters, logN, q, pp, h, s, t)
	r, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: pl.Q, P: pl.P, LogQ: pl.LogQ, LogP: pl.LogP, Sigma: pl.Sigma, H: pl.H, RingType: t})
	c.Check(err == nil && r.Equals(p.Parameters), "literal/rlwe", "the RLWE literal gives other parameters: %v", err)
}

// chain checks generated moduli: distinct NTT primes of the requested sizes.
func (c *Case) chain(m []uint64, sizes []int, root uint64) {
	seen := map[uint64]bool{}
	for i, x := range m {
		c.Check(bigU(x).ProbablyPrime(20) && x%root == 1, "moduli/prime", "%d is not a prime equal to 1 mod %d", x, root)
		c.Check(math.Abs(math.Log2(float64(x))-float64(sizes[i])) < 0.3, "moduli/size", "%d (%d bits) for size %d", x, bits.Len64(x), sizes[i])
		c.Check(!seen[x], "moduli/distinct", "%d occurs twice", x)
		seen[x] = true
	}
	c.Event(len(m))
}

// checkModuliCase calls the check of the moduli on its own: any number of primes up to the size limit, in any ring.
func (c *Case) checkModuliCase() {
	list := func() []uint64 {
		n := c.R.Intn(6)
		if c.R.Intn(12) == 0 {
			n = rlwe.MaxModuliCount - 1 + c.R.Intn(3)
		}
		v := make([]uint64, n)
		lo := 2 + c.R.Intn(58)
		for i := range v {
			if i > 5 {
				v[i] = v[c.R.Intn(5)]
				continue
			}
			x := uint64(1)<<uint(lo) | uint64(c.R.Int63())>>uint(63-lo) | 1
			for !new(big.Int).SetUint64(x).ProbablyPrime(0) {
				x += 2
			}
			v[i] = x
		}
		return v
	}
	q, p := list(), list()
	valid := len(q) <= rlwe.MaxModuliCount && len(p) <= rlwe.MaxModuliCount
	side := q
	if c.R.Intn(2) == 0 {
		side = p
	}
	what := c.R.Intn(4)
	if len(side) > 0 && what > 1 {
		i := c.R.Intn(len(side))
		if c.R.Intn(3) == 0 {
			i = len(side) - 1
		}
		if what == 2 { // two primes' product, or an even number
			side[i] = []uint64{91, 1373653, 3215031751, 2147483647 * 536870909, 1 << 40, 1, 0}[c.R.Intn(7)]
		} else { // primes of 62 and 64 bits
			side[i] = []uint64{2305843009213693967, 18446744073709551557, 4611686018427387847}[c.R.Intn(3)]
		}
		valid = false
	}
	c.Feature("CheckModuli #q=%d #p=%d valid=%v", len(q), len(p), valid)
	kq, kp := append([]uint64{}, q...), append([]uint64{}, p...)
	err := rlwe.CheckModuli(q, p)
	c.Check((err == nil) == valid, "CheckModuli", "valid=%v but the answer is %v (q=%v p=%v)", valid, err, q, p)
	c.Check(eqCoeffs([][]uint64{q, p}, [][]uint64{kq, kp}), "CheckModuli/modifies", "the lists changed")
	c.Event(1)
}

func (c *Case) moduliCase() {
	logN := 4 + c.R.Intn(12)
	var logQ, logP []int
	lo := 35 + c.R.Intn(25)
	for i := 1 + c.R.Intn(10); i > 0; i-- {
		logQ = append(logQ, lo+c.R.Intn(61-lo))
	}
	for i := c.R.Intn(5); i > 0; i-- {
		logP = append(logP, lo+c.R.Intn(62-lo))
	}
	sizes := append(append([]int{}, logQ...), logP...)
	bad := ""
	switch c.R.Intn(6) {
	case 0:
		logN, bad = []int{3, 0, -1, 18, 40}[c.R.Intn(5)], "logN"
	case 1:
		logQ[c.R.Intn(len(logQ))], bad = []int{0, -1, 61, 62, 70}[c.R.Intn(5)], "size"
	case 2:
		if len(logP) > 0 {
			logP[c.R.Intn(len(logP))], bad = []int{0, -1, 62, 70}[c.R.Intn(4)], "size"
		}
	case 3:
		if c.R.Intn(4) == 0 {
			logQ, bad = make([]int, 101), "count"
			for i := range logQ {
				logQ[i] = 45
			}
		}
	}
	c.Feature("GenModuli logN=%d logQ=%v logP=%v", logN, logQ, logP)
	q, p, err := rlwe.GenModuli(logN, logQ, logP)
	if bad != "" {
		c.Check(err != nil && len(q) == 0 && len(p) == 0, "GenModuli/accepts", "invalid %s accepted", bad)
		return
	}
	if !c.Check(err == nil && len(q) == len(logQ) && len(p) == len(logP), "GenModuli/refuses", "%v", err) {
		return
	}
	c.chain(append(append([]uint64{}, q...), p...), sizes, 2<<uint(logN))
	q2, p2, _ := rlwe.GenModuli(logN, logQ, logP)
	for i := range q {
		c.Check(q2[i] == q[i], "GenModuli/deterministic", "another call gave other moduli")
	}
	for i := range p {
		c.Check(p2[i] == p[i], "GenModuli/deterministic", "another call gave other moduli")
	}
}

// rotationsCase checks that the announced rotations suffice for what they are announced for.
func (c *Case) rotationsCase() {
	rp := getRLWE(4, []uint64{nttPrimes(40, 32, 1)[0]}, nil, ring.Standard)
	p, err := ckks.NewParameters(rp, 3, 1)
	if err != nil {
		c.Fatal("params", "%v", err)
	}
	batch, n := 1+c.R.Intn(50), 1+c.R.Intn(70)
	c.Feature("batch=%d n=%d", batch, n)
	for _, sign := range []int{1, -1} {
		plain, lg := p.RotationsForInnerSum(batch, n), p.RotationsForInnerSumLog(batch, n)
		if sign < 0 {
			plain, lg = p.RotationsForReplicate(batch, n), p.RotationsForReplicateLog(batch, n)
		}
		has := map[int]bool{}
		for _, r := range plain {
			c.Check(!has[r], "rotations/repeated", "rotation %d occurs twice", r)
			has[r] = true
		}
		c.Check(len(plain) == n-1, "rotations/inner-sum", "%d rotations for %d terms", len(plain), n)
		for i := 1; i < n; i++ {
			c.Check(has[sign*i*batch], "rotations/inner-sum", "rotation %d is missing", sign*i*batch)
		}
		have := map[int]bool{}
		for _, r := range lg {
			c.Check(!have[r], "rotations/repeated", "rotation %d occurs twice", r)
			have[r] = true
		}
		// the doubling algorithm: the current block covers 2^i terms; terms counts what each offset was added
		c.Check(len(lg) <= 2*bits.Len(uint(n)), "rotations/log", "%d rotations for %d terms", len(lg), n)
		want := map[int]bool{} // by every power of two below n, and by the part of n above every one of its bits
		for i := 1; i < n; i <<= 1 {
			want[sign*batch*i], want[sign*batch*(n-n%(2*i))] = true, true
		}
		for _, r := range lg {
			c.Check(want[r], "rotations/log", "rotation %d is not one of batch %d, n %d", r, batch, n)
		}
		c.Check(len(have) == len(want), "rotations/log", "%d rotations instead of %d for batch %d, n %d", len(have), len(want), batch, n)
		for i := 0; 1<<uint(i) < n; i++ {
			r := sign * batch << uint(i)
			if 2<<uint(i) <= n {
				c.Check(have[r], "rotations/log", "doubling rotation %d is missing for batch %d, n %d: %v", r, batch, n, lg)
			}
			if n>>uint(i)&1 == 1 {
				r = sign * batch * (n - n&(2<<uint(i)-1))
				c.Check(r == 0 || have[r], "rotations/log", "remainder rotation %d is missing for batch %d, n %d: %v", r, batch, n, lg)
			}
		}
		c.Event(n)
	}
	a, b := c.R.Intn(18), c.R.Intn(18)
	tr := p.RotationsForTrace(a, b)
	c.Check(len(tr) == maxInt(0, b-a), "rotations/trace", "%d rotations from %d to %d", len(tr), a, b)
	for i, r := range tr {
		c.Check(r == 1<<uint(a+i), "rotations/trace", "rotation %d", r)
	}
}

// fastParamsCase checks the parameters of the fast key switch.
func (c *Case) fastParamsCase() {
	pl := c.fastLit(7, c.R.Intn(4) == 0)
	bad := ""
	root := uint64(2) << uint(pl.LogN)
	gen := c.R.Intn(4) == 0
	if gen {
		pl.Q, pl.P = nil, nil
		n := 1 + c.R.Intn(5)
		for i := 0; i < n; i++ {
			pl.LogQ = append(pl.LogQ, 30+c.R.Intn(28))
		}
		pl.LogP = []int{30 + c.R.Intn(28)}
	} else {
		switch c.R.Intn(6) {
		case 0:
			pl.Q, bad = c.faultyModuli(pl.Q, root)
		case 1:
			pl.T, bad = c.faultyModuli(pl.T, root)
			if bad == "count" {
				bad = "duplicate"
			}
		}
	}
	c.Feature("fast bad=%s gen=%v", bad, gen)
	var fp frlwe.Parameters
	var cp fckks.Parameters
	pan1, _, _ := c.Try(func() {
		fp = frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: pl.LogN, Q: pl.Q, P: pl.P, T: pl.T, LogQ: pl.LogQ, LogP: pl.LogP, H: pl.H, Sigma: pl.Sigma, Gamma: pl.Gamma})
	})
	pan2, _, _ := c.Try(func() { cp = fckks.NewParametersFromLiteral(pl) })
	c.Check(pan1 == (bad != "") && pan2 == (bad != ""), "fast/accepts", "defect %q: panics %v %v", bad, pan1, pan2)
	if bad != "" || pan1 || pan2 {
		return
	}
	h, s, ls := pl.H, pl.Sigma, pl.LogSlots
	if h == 0 {
		h = 1 << uint(pl.LogN-1)
	}
	if s == 0 {
		s = 3.2
	}
	if ls == 0 {
		ls = pl.LogN - 1
	}
	q, p := pl.Q, pl.P
	if gen {
		q, p = fp.Q(), fp.P()
		c.chain(append(append([]uint64{}, q...), p...), append(append([]int{}, pl.LogQ...), pl.LogP...), root)
	}
	c.checkRLWEParams(fp.Parameters, pl.LogN, q, p, h, s, ring.Standard)
	c.checkRLWEParams(cp.Parameters.Parameters, pl.LogN, q, p, h, s, ring.Standard)
	R := append(append([]uint64{}, p...), q...)
	for _, r := range []*ring.Ring{fp.RingR(), cp.RingR()} {
		if c.Check(r != nil && r.N == 1<<uint(pl.LogN) && len(r.Modulus) == len(R), "fast/ring-R", "ring R") {
			for i, m := range R {
				c.Check(r.Modulus[i] == m, "fast/ring-R", "modulus %d of R is %d instead of %d", i, r.Modulus[i], m)
			}
		}
	}
	r := fp.RingT()
	if c.Check(r != nil && r.N == 1<<uint(pl.LogN) && len(r.Modulus) == len(pl.T), "fast/ring-T", "ring T") {
		mx := uint64(0)
		for i, m := range pl.T {
			c.Check(r.Modulus[i] == m, "fast/ring-T", "modulus %d of T", i)
			if m > mx {
				mx = m
			}
			w := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 64), bigU(mx)).Int64()
			c.Check(fp.TiOverflowMargin(i) == int(w), "fast/margin", "margin at level %d: %d instead of %d", i, fp.TiOverflowMargin(i), w)
		}
	}
	c.Check(fp.Gamma() == pl.Gamma && cp.LogSlots() == ls && cp.DefaultScale() == pl.DefaultScale, "fast/values", "gamma %d slots %d scale %v", fp.Gamma(), cp.LogSlots(), cp.DefaultScale())
}

func init() {
	register("P01", "one case = a set of parameters (degree, moduli, distribution, ring type, slots, scale), valid or with one planted defect, given by moduli or by sizes; every getter, derived ring, Galois element, copy and comparison is checked against its definition; distinct = parameters",
		func(r *Run) {
			r.Cases("accept", 6000, 80000, func(c *Case) { c.paramsCase() })
			r.Cases("literal", 3000, 40000, func(c *Case) { c.literalCase() })
			r.Cases("moduli", 1500, 20000, func(c *Case) { c.moduliCase() })
			r.Cases("check-moduli", 1500, 20000, func(c *Case) { c.checkModuliCase() })
			r.Cases("rotations", 4000, 20000, func(c *Case) { c.rotationsCase() })
			r.Cases("fast", 1500, 20000, func(c *Case) { c.fastParamsCase() })
			var sets []ckks.ParametersLiteral
			for _, l := range [][]ckks.ParametersLiteral{ckks.DefaultParams, ckks.DefaultConjugateInvariantParams, ckks.DefaultPostQuantumParams, ckks.DefaultPostQuantumConjugateInvariantParams} {
				sets = append(sets, l...)
			}
			budget := map[int][2]int{12: {109, 101}, 13: {218, 202}, 14: {438, 411}, 15: {881, 827}, 16: {1772, 1654}}
			r.Cases("default-sets", 20, 20, func(c *Case) {
				if !c.Check(len(sets) == 20, "default/count", "%d default parameter sets", len(sets)) {
					return
				}
				pl := sets[c.Idx]
				c.Feature("set %d logN=%d", c.Idx, pl.LogN)
				p, err := ckks.NewParametersFromLiteral(pl)
				if !c.Check(err == nil, "default/refused", "default set %d is refused: %v", c.Idx, err) {
					return
				}
				pq := c.Idx / 10
				ci := c.Idx/5%2 == 1
				c.Check((p.RingType() == ring.ConjugateInvariant) == ci && p.Slots() == p.MaxSlots(), "default/type", "type and slots")
				c.Check(p.LogN() == 12+c.Idx%5, "default/degree", "degree 2^%d", p.LogN())
				seen := map[uint64]bool{}
				for _, x := range p.QP() {
					c.Check(!seen[x], "default/distinct", "modulus %d occurs twice in QP", x)
					seen[x] = true
				}
				c.Check(math.Log2(float64(p.QP()[0])) < 61 && logBig(p.QPBigInt()) <= float64(budget[p.LogN()][pq])+0.5, "default/budget", "log QP = %.2f", logBig(p.QPBigInt()))
				// the moduli above the first are close to the scale, so that rescaling keeps it
				for i, x := range p.Q() {
					if i > 0 {
						c.Check(math.Abs(math.Log2(float64(x))-math.Log2(p.DefaultScale())) < 0.01, "default/scale", "modulus %d is far from the scale", x)
					}
				}
				c.checkRLWEParams(p.Parameters, pl.LogN, pl.Q, pl.P, 1<<uint(pl.LogN-1), 3.2, pl.RingType)
			})
		})
}

func logBig(x *big.Int) float64 {
	f := new(big.Float).SetInt(x)
	m := new(big.Float)
	e := f.MantExp(m)
	v, _ := m.Float64()
	return float64(e) + math.Log2(v)
}
