package main

import (
	"math/big"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// rns is a polynomial in coefficient representation, one row per modulus (the oracle's own arithmetic).
type rns struct {
	m []uint64
	t ring.Type
	v [][]uint64
}

func newRNS(N int, m []uint64, t ring.Type) rns {
	r := rns{m: m, t: t}
	for range m {
		r.v = append(r.v, make([]uint64, N))
	}
	return r
}

// coef reads a polynomial of ring R up to level as plain coefficients.
func coef(p *ring.Poly, R *ring.Ring, level int, ntt, mform bool) rns {
	r := rns{m: R.Modulus[:level+1], t: R.Type()}
	q := &ring.Poly{}
	for i := 0; i <= level; i++ {
		row := make([]uint64, R.N)
		for j := range row {
			row[j] = p.Coeffs[i][j] % R.Modulus[i]
		}
		q.Coeffs = append(q.Coeffs, row)
	}
	if ntt {
		R.InvNTTLvl(level, q, q)
	}
	if mform {
		for i := 0; i <= level; i++ {
			qi := R.Modulus[i]
			inv := invMod(pow2ModU(64, qi), qi)
			for j := range q.Coeffs[i] {
				q.Coeffs[i][j] = mulMod(q.Coeffs[i][j], inv, qi)
			}
		}
	}
	r.v = q.Coeffs
	return r
}

func coefFlag(p *ring.Poly, R *ring.Ring, level int) rns {
	return coef(p, R, level, p.IsNTT, p.IsMForm)
}

// coefQP reads a polynomial of QP.
func coefQP(p rlwe.PolyQP, params rlwe.Parameters, levelQ, levelP int, ntt, mform bool) rns {
	r := coef(p.Q, params.RingQ(), levelQ, ntt, mform)
	if levelP < 0 || params.RingP() == nil {
		return r
	}
	s := coef(p.P, params.RingP(), levelP, ntt, mform)
	return rns{m: append(append([]uint64{}, r.m...), s.m...), t: r.t, v: append(r.v, s.v...)}
}

func (a rns) upto(n int) rns { return rns{m: a.m[:n], t: a.t, v: a.v[:n]} }

func (a rns) mul(b rns) rns {
	o := rns{m: a.m, t: a.t}
	for i, q := range a.m {
		o.v = append(o.v, ringMul(a.v[i], b.v[i], q, a.t))
	}
	return o
}

func (a rns) zip(b rns, f func(x, y, q uint64) uint64) rns {
	o := newRNS(len(a.v[0]), a.m, a.t)
	for i, q := range a.m {
		for j := range a.v[i] {
			o.v[i][j] = f(a.v[i][j], b.v[i][j], q)
		}
	}
	return o
}
func (a rns) add(b rns) rns { return a.zip(b, addMod) }
func (a rns) sub(b rns) rns { return a.zip(b, subMod) }

// scale multiplies by an integer.
func (a rns) scale(k *big.Int) rns {
	o := newRNS(len(a.v[0]), a.m, a.t)
	for i, q := range a.m {
		w := modU(k, q)
		for j := range a.v[i] {
			o.v[i][j] = mulMod(a.v[i][j], w, q)
		}
	}
	return o
}

// aut applies X -> X^g (for conjugate-invariant polynomials in the standard ring they live in).
func (a rns) aut(g uint64) rns {
	o := rns{m: a.m, t: a.t}
	for i, q := range a.m {
		if a.t == ring.Standard {
			o.v = append(o.v, autRef(a.v[i], g, q))
		} else {
			o.v = append(o.v, autRef(ciUnfold(a.v[i], q), g, q)[:len(a.v[i])])
		}
	}
	return o
}

// centered returns the centred integers.
func (a rns) centered() []*big.Int {
	c := newCRT(a.m)
	out := make([]*big.Int, len(a.v[0]))
	for j := range out {
		out[j] = c.liftCentered(a.v, j)
	}
	return out
}

func (a rns) maxAbs() *big.Int { return maxAbs(a.centered()) }

func fromInts(v []*big.Int, m []uint64, t ring.Type) rns {
	o := newRNS(len(v), m, t)
	for i, q := range m {
		for j := range v {
			o.v[i][j] = modU(v[j], q)
		}
	}
	return o
}

// poly writes the value as a library polynomial in the asked representation.
func (a rns) poly(R *ring.Ring, ntt, mform bool) *ring.Poly {
	p := &ring.Poly{IsNTT: ntt, IsMForm: mform}
	for i := range a.v {
		row := append([]uint64{}, a.v[i]...)
		if mform {
			for j := range row {
				row[j] = montRef(row[j], a.m[i])
			}
		}
		p.Coeffs = append(p.Coeffs, row)
	}
	if ntt {
		R.NTTLvl(len(a.v)-1, p, p)
	}
	return p
}

func isZeroInts(v []*big.Int) bool {
	for _, x := range v {
		if x.Sign() != 0 {
			return false
		}
	}
	return true
}
