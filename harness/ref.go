package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"sync"

	"fast-ksw/ring"
)

// ---- independent references -------------------------------------------------

func bigU(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func mulMod(a, b, q uint64) uint64 {
	hi, lo := bits.Mul64(a%q, b%q)
	_, r := bits.Div64(hi, lo, q)
	return r
}

func addMod(a, b, q uint64) uint64 {
	a, b = a%q, b%q
	s, c := bits.Add64(a, b, 0)
	if c == 1 || s >= q {
		s -= q
	}
	return s
}

func subMod(a, b, q uint64) uint64 { return addMod(a, q-(b%q), q) }

func powMod(x, e, q uint64) uint64 {
	r := uint64(1) % q
	x %= q
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = mulMod(r, x, q)
		}
		x = mulMod(x, x, q)
	}
	return r
}

// mont = a * 2^64 mod q ; invMont = a * 2^-64 mod q (q odd prime)
func montRef(a, q uint64) uint64 { return mulMod(a%q, pow2ModU(64, q), q) }
func invMontRef(a, q uint64) uint64 {
	return mulMod(a%q, invMod(pow2ModU(64, q), q), q)
}

var invCache sync.Map

func invMod(a, q uint64) uint64 { return new(big.Int).ModInverse(bigU(a), bigU(q)).Uint64() }

func pow2ModU(n int, q uint64) uint64 {
	return new(big.Int).Mod(new(big.Int).Lsh(big.NewInt(1), uint(n)), bigU(q)).Uint64()
}

// primes congruent to 1 modulo m with exactly logQ bits, found independently of the library.
var primeMu sync.Mutex
var primeCache = map[string][]uint64{}

// nttPrimes returns n distinct primes = 1 mod m near 2^logQ (below for down, above otherwise).
func nttPrimes(logQ int, m uint64, n int) []uint64 {
	key := fmt.Sprintf("%d/%d", logQ, m)
	primeMu.Lock()
	defer primeMu.Unlock()
	l := primeCache[key]
	if len(l) < n {
		l = nil
		want := n
		if want < 16 {
			want = 16
		}
		x := uint64(1)<<uint(logQ) + 1
		if x%m != 1 {
			x = x - x%m + 1
		}
		for x > m && len(l) < want {
			x -= m
			if bits.Len64(x) != logQ {
				break
			}
			if bigU(x).ProbablyPrime(20) {
				l = append(l, x)
			}
		}
		primeCache[key] = l
	}
	if len(l) < n {
		return l
	}
	return l[:n]
}

// primesAbove returns n primes = 1 mod m just above 2^logQ, as moduli of that size often are.
func primesAbove(logQ int, m uint64, n int) []uint64 {
	key := fmt.Sprintf("above %d/%d", logQ, m)
	primeMu.Lock()
	defer primeMu.Unlock()
	l, ok := primeCache[key]
	if !ok || len(l) < n {
		l = nil
		x := uint64(1)<<uint(logQ) + 1
		x += (m - (x-1)%m) % m
		for ; len(l) < n && x < uint64(1)<<uint(logQ)+1<<uint(logQ-2); x += m {
			if bigU(x).ProbablyPrime(20) {
				l = append(l, x)
			}
		}
		primeCache[key] = l
	}
	return l
}

// nearPrimes are primes just below or just above 2^logQ; none is above 2^61.
func nearPrimes(rg *rand.Rand, logQ int, m uint64, n int) []uint64 {
	if logQ <= 60 && rg.Intn(3) == 0 {
		return primesAbove(logQ, m, n)
	}
	return nttPrimes(logQ, m, n)
}

// pickPrimes draws n distinct NTT primes for nthRoot with bit sizes in [lo,hi].
func pickPrimes(rg *rand.Rand, n int, nthRoot uint64, lo, hi int) []uint64 {
	var out []uint64
	seen := map[uint64]bool{}
	for tries := 0; len(out) < n && tries < 10000; tries++ {
		l := nearPrimes(rg, lo+rg.Intn(hi-lo+1), nthRoot, 16)
		if len(l) == 0 {
			continue
		}
		p := l[rg.Intn(len(l))]
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	if len(out) < n {
		panic("harness: not enough primes")
	}
	return out
}

// widePrimes draws n distinct primes like pickPrimes, from a longer list per size and avoiding given ones.
func widePrimes(rg *rand.Rand, n int, nthRoot uint64, lo, hi int, avoid []uint64) []uint64 {
	seen := map[uint64]bool{}
	for _, x := range avoid {
		seen[x] = true
	}
	var out []uint64
	for tries := 0; len(out) < n && tries < 10000; tries++ {
		l := nearPrimes(rg, lo+rg.Intn(hi-lo+1), nthRoot, 80)
		if len(l) == 0 {
			continue
		}
		if p := l[rg.Intn(len(l))]; !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	if len(out) < n {
		panic("harness: not enough primes")
	}
	return out
}

type ringKey struct {
	n  int
	ci bool
	s  string
}

var ringCache sync.Map

// getRing builds (and caches) a ring.
func getRing(N int, moduli []uint64, t ring.Type) *ring.Ring {
	k := ringKey{N, t == ring.ConjugateInvariant, fmt.Sprint(moduli)}
	if v, ok := ringCache.Load(k); ok {
		return v.(*ring.Ring)
	}
	r, err := ring.NewRingFromType(N, moduli, t)
	if err != nil {
		panic(fmt.Sprintf("ring construction refused valid parameters N=%d %v: %v", N, moduli, err))
	}
	ringCache.Store(k, r)
	return r
}

func nthRootOf(N int, t ring.Type) uint64 {
	if t == ring.ConjugateInvariant {
		return uint64(4 * N)
	}
	return uint64(2 * N)
}

// ---- values ------------------------------------------------------------------

// resid draws a residue mod q, with extremes over-represented.
func resid(rg *rand.Rand, q uint64) uint64 {
	switch rg.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1 % q
	case 2:
		return q - 1
	case 3:
		return q >> 1
	case 4:
		return (q >> 1) + 1
	default:
		return rg.Uint64() % q
	}
}

// wide draws any uint64, with extremes and multiples of q over-represented.
func wide(rg *rand.Rand, q uint64) uint64 {
	switch rg.Intn(12) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return q
	case 3:
		return q - 1
	case 4:
		return 2*q - 1
	case 5:
		return 2 * q
	case 6:
		k := ^uint64(0) / q
		return k*q - uint64(rg.Intn(2))
	case 7:
		return ^uint64(0) - rg.Uint64()%q
	default:
		return rg.Uint64()
	}
}

// fillPoly fills each limb with residues following a per-poly style.
func fillPoly(rg *rand.Rand, p *ring.Poly, moduli []uint64) {
	style := rg.Intn(8)
	for i := range p.Coeffs {
		q := moduli[i]
		for j := range p.Coeffs[i] {
			switch style {
			case 0:
				p.Coeffs[i][j] = q - 1
			case 1:
				p.Coeffs[i][j] = resid(rg, q)
			case 2:
				if rg.Intn(8) == 0 {
					p.Coeffs[i][j] = rg.Uint64() % q
				} else {
					p.Coeffs[i][j] = 0
				}
			default:
				p.Coeffs[i][j] = rg.Uint64() % q
			}
		}
	}
}

func randPoly(rg *rand.Rand, N int, moduli []uint64) *ring.Poly {
	p := ring.NewPoly(N, len(moduli))
	fillPoly(rg, p, moduli)
	return p
}

func garbagePoly(rg *rand.Rand, N, n int) *ring.Poly {
	p := ring.NewPoly(N, n)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = rg.Uint64()
		}
	}
	return p
}

func copyCoeffs(p *ring.Poly) [][]uint64 {
	out := make([][]uint64, len(p.Coeffs))
	for i := range out {
		out[i] = append([]uint64(nil), p.Coeffs[i]...)
	}
	return out
}

func eqCoeffs(a, b [][]uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func prodBig(m []uint64) *big.Int {
	r := big.NewInt(1)
	for _, q := range m {
		r.Mul(r, bigU(q))
	}
	return r
}

// crtCoeff reconstructs the integer in [0, prod moduli[:level+1]) of coefficient j.
type crt struct {
	Q    *big.Int
	half *big.Int
	b    []*big.Int
	m    []uint64
}

var crtCache sync.Map

func newCRT(moduli []uint64) *crt {
	key := fmt.Sprint(moduli)
	if v, ok := crtCache.Load(key); ok {
		return v.(*crt)
	}
	c := &crt{Q: prodBig(moduli), m: append([]uint64(nil), moduli...)}
	c.half = new(big.Int).Rsh(c.Q, 1)
	for _, q := range moduli {
		qh := new(big.Int).Quo(c.Q, bigU(q))
		inv := new(big.Int).ModInverse(new(big.Int).Mod(qh, bigU(q)), bigU(q))
		qh.Mul(qh, inv)
		qh.Mod(qh, c.Q)
		c.b = append(c.b, qh)
	}
	crtCache.Store(key, c)
	return c
}

func (c *crt) lift(coeffs [][]uint64, j int) *big.Int {
	r := new(big.Int)
	t := new(big.Int)
	for i := range c.m {
		t.SetUint64(coeffs[i][j])
		t.Mul(t, c.b[i])
		r.Add(r, t)
	}
	return r.Mod(r, c.Q)
}

func (c *crt) liftCentered(coeffs [][]uint64, j int) *big.Int {
	r := c.lift(coeffs, j)
	if r.Cmp(c.half) > 0 {
		r.Sub(r, c.Q)
	}
	return r
}

func (c *crt) liftPolyCentered(p *ring.Poly) []*big.Int {
	out := make([]*big.Int, len(p.Coeffs[0]))
	for j := range out {
		out[j] = c.liftCentered(p.Coeffs, j)
	}
	return out
}

func modU(x *big.Int, q uint64) uint64 { return new(big.Int).Mod(x, bigU(q)).Uint64() }

// setBig writes integers (any sign) into an RNS polynomial.
func setBig(p *ring.Poly, moduli []uint64, v []*big.Int) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = modU(v[j], moduli[i])
		}
	}
}

// floorDiv: floor(a/b), b>0
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean: m >= 0
	return q
}

// negaMul is the schoolbook product modulo X^N+1 and q.
func negaMul(a, b []uint64, q uint64) []uint64 {
	N := len(a)
	if N >= 64 {
		return negaMulBig(a, b, q)
	}
	out := make([]uint64, N)
	for i := 0; i < N; i++ {
		if a[i]%q == 0 {
			continue
		}
		for j := 0; j < N; j++ {
			p := mulMod(a[i], b[j], q)
			if i+j < N {
				out[i+j] = addMod(out[i+j], p, q)
			} else {
				out[i+j-N] = subMod(out[i+j-N], p, q)
			}
		}
	}
	return out
}

// negaMulBig is the same product through one multiplication of big integers with 192-bit digits.
func negaMulBig(a, b []uint64, q uint64) []uint64 {
	N := len(a)
	pack := func(v []uint64) *big.Int {
		w := make([]big.Word, 3*N)
		for i := range v {
			w[3*i] = big.Word(v[i] % q)
		}
		return new(big.Int).SetBits(w)
	}
	w := new(big.Int).Mul(pack(a), pack(b)).Bits()
	at := func(k int) uint64 {
		var r uint64
		for i := 3*k + 2; i >= 3*k; i-- {
			if i < len(w) {
				_, r = bits.Div64(r, uint64(w[i]), q)
			}
		}
		return r
	}
	out := make([]uint64, N)
	for k := range out {
		out[k] = subMod(at(k), at(k+N), q)
	}
	return out
}

// ciUnfold: coefficients of the standard-ring polynomial (degree 2N) represented by a conjugate-invariant polynomial of N coefficients:
// a_0 + sum_{i>=1} a_i (X^i + X^-i), X^-i = -X^(2N-i).
func ciUnfold(a []uint64, q uint64) []uint64 {
	N := len(a)
	out := make([]uint64, 2*N)
	out[0] = a[0] % q
	for i := 1; i < N; i++ {
		out[i] = a[i] % q
		out[2*N-i] = (q - a[i]%q) % q
	}
	return out
}

// ringMul is the reference product of two coefficient vectors in the ring type.
func ringMul(a, b []uint64, q uint64, t ring.Type) []uint64 {
	if t == ring.Standard {
		return negaMul(a, b, q)
	}
	p := negaMul(ciUnfold(a, q), ciUnfold(b, q), q)
	return p[:len(a)]
}

func typeName(t ring.Type) string {
	if t == ring.ConjugateInvariant {
		return "ci"
	}
	return "std"
}
