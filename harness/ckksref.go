package main

import (
	"math"
	"math/big"

	"fast-ksw/ring"
)

// slotRoots returns exp(i*pi*5^j/(2*slots)) powers: w[t] = exp(2*pi*i*t/(4*slots)).
func slotRoots(slots int) []complex128 {
	w := make([]complex128, 4*slots)
	for t := range w {
		s, co := math.Sincos(2 * math.Pi * float64(t) / float64(4*slots))
		w[t] = complex(co, s)
	}
	return w
}

func fivePow(slots int) []int {
	o := make([]int, slots)
	x := 1
	for j := range o {
		o[j] = x
		x = x * 5 % (4 * slots)
	}
	return o
}

// embed returns the integer coefficients of the encoding of the values (canonical embedding, rounded).
func embed(c *Case, values []complex128, logSlots int, scale float64, N int, t ring.Type) []*big.Int {
	out := make([]*big.Int, N)
	for i, x := range embedReal(values, logSlots, scale, N, t) {
		out[i] = roundFloat(x)
	}
	return out
}

// embedReal is the same before rounding.
func embedReal(values []complex128, logSlots int, scale float64, N int, t ring.Type) []float64 {
	slots := 1 << uint(logSlots)
	w, five := slotRoots(slots), fivePow(slots)
	out := make([]float64, N)
	n := 2 * slots
	if t == ring.ConjugateInvariant {
		n = slots
	}
	gap := N / n
	for k := 0; k < n; k++ {
		acc := 0.0
		for j := 0; j < len(values); j++ {
			z := w[(4*slots-five[j]*k%(4*slots))%(4*slots)]
			v := values[j]
			if t == ring.ConjugateInvariant {
				v = complex(real(v), 0)
			}
			acc += real(v * z)
		}
		out[k*gap] = acc / float64(slots) * scale
	}
	return out
}

func roundFloat(x float64) *big.Int {
	f := new(big.Float).SetFloat64(x)
	if x < 0 {
		f.Sub(f, big.NewFloat(0.5))
	} else {
		f.Add(f, big.NewFloat(0.5))
	}
	v, _ := f.Int(nil)
	return v
}

// floatSlack is the error allowed for float64 transforms of values up to maxAbs at this scale.
func floatSlack(scale, maxAbs float64) *big.Int {
	return roundFloat(scale*maxAbs*math.Exp2(-44) + 1)
}

// diffReal is the largest difference, modulo the product of the moduli, between a polynomial and real numbers.
func diffReal(a rns, v []*big.Float) *big.Float {
	w := make([]*big.Int, len(v))
	for i := range w {
		w[i] = new(big.Int)
		if v[i] != nil {
			w[i] = roundBig(v[i])
		}
	}
	m := new(big.Float)
	for i, x := range a.sub(fromInts(w, a.m, a.t)).centered() {
		d := new(big.Float).SetPrec(2000).SetInt(x.Add(x, w[i]))
		if v[i] != nil {
			d.Sub(d, v[i])
		}
		if d.Abs(d).Cmp(m) > 0 {
			m = d
		}
	}
	return m
}

// diffBig is the largest difference, modulo the product of the moduli, between a polynomial and given integers.
func diffBig(a rns, v []*big.Int) *big.Int { return a.sub(fromInts(v, a.m, a.t)).maxAbs() }

// slotValues evaluates a polynomial with the given centred integer coefficients at the slots; size is the sum of the
// magnitudes of the terms (for error bounds).
func slotValues(v []*big.Int, logSlots int, scale float64, N int, t ring.Type) (out []complex128, size float64) {
	slots := 1 << uint(logSlots)
	w, five := slotRoots(slots), fivePow(slots)
	n := 2 * slots
	if t == ring.ConjugateInvariant {
		n = slots
	}
	gap := N / n
	co := make([]float64, n)
	for k := range co {
		co[k], _ = new(big.Float).SetInt(v[k*gap]).Float64()
		co[k] /= scale
		if t == ring.ConjugateInvariant && k > 0 {
			co[k] *= 2
		}
		size += math.Abs(co[k])
	}
	out = make([]complex128, slots)
	for j := range out {
		var acc complex128
		for k, x := range co {
			z := w[five[j]*k%(4*slots)]
			if t == ring.ConjugateInvariant {
				z = complex(real(z), 0)
			}
			acc += complex(x, 0) * z
		}
		out[j] = acc
	}
	return
}

// closeSlots compares decoded slots with reference values computed in float64 from terms of total magnitude size.
func (c *Case) closeSlots(got, want []complex128, size float64, sig string) bool {
	tol := size*math.Exp2(-44) + 1e-300
	for i := range want {
		d := got[i] - want[i]
		c.Event(1)
		if !(math.Abs(real(d)) <= tol && math.Abs(imag(d)) <= tol) {
			c.Fail(sig, "slot %d is %v instead of %v (tolerance %v)", i, got[i], want[i], tol)
			return false
		}
	}
	return true
}
