package main

import (
	"math"
	"reflect"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

// rowsOf lists every coefficient row of an object (by reflection, so that nothing is forgotten).
func rowsOf(v reflect.Value, out *[][]uint64) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			rowsOf(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			rowsOf(v.Field(i), out)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint64 {
			*out = append(*out, v.Interface().([]uint64))
			return
		}
		for i := 0; i < v.Len(); i++ {
			rowsOf(v.Index(i), out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			rowsOf(v.MapIndex(k), out)
		}
	}
}

func rows(x interface{}) (out [][]uint64) {
	rowsOf(reflect.ValueOf(x), &out)
	return
}

// shares says whether two objects have a coefficient row in common.
func shares(a, b interface{}) bool {
	at := map[*uint64]bool{}
	for _, r := range rows(a) {
		for i := range r {
			at[&r[i]] = true
		}
	}
	for _, r := range rows(b) {
		for i := range r {
			if at[&r[i]] {
				return true
			}
		}
	}
	return false
}

// object is something with an equality and possibly a copy.
type object struct {
	kind  string
	v     interface{}
	equal func(a, b interface{}) bool // nil: none
	clone func(a interface{}) interface{}
	copy  func(a interface{}) interface{} // the library's CopyNew, nil: none
	same  func(a, b interface{}) bool     // strict comparison of the harness
	shape func(c *Case, a interface{})    // changes the shape of a
}

func (c *Case) dropRow(p *ring.Poly) {
	if len(p.Coeffs) > 1 && c.R.Intn(2) == 0 {
		p.Coeffs = p.Coeffs[:len(p.Coeffs)-1]
	} else {
		p.Coeffs = append(p.Coeffs, make([]uint64, len(p.Coeffs[0])))
	}
}

func (c *Case) qpShape(p *rlwe.PolyQP) {
	switch {
	case c.R.Intn(3) == 0 && p.P != nil:
		p.P = nil
	case c.R.Intn(3) == 0 && p.P == nil:
		p.P = p.Q.CopyNew()
	case c.R.Intn(4) == 0 && p.P != nil:
		p.Q = nil
	case p.P != nil && c.R.Intn(2) == 0:
		c.dropRow(p.P)
	default:
		c.dropRow(p.Q)
	}
}

func (c *Case) swkShape(k *rlwe.SwitchingKey) {
	switch c.R.Intn(3) {
	case 0:
		if len(k.Value) > 1 {
			k.Value = k.Value[:len(k.Value)-1]
			return
		}
		fallthrough
	case 1:
		k.Value = append(k.Value, [2]rlwe.PolyQP{snapQP(k.Value[0][0]), snapQP(k.Value[0][1])})
	default:
		i, j := c.R.Intn(len(k.Value)), c.R.Intn(2)
		c.qpShape(&k.Value[i][j])
	}
}

func (c *Case) objects(p rlwe.Parameters) []object {
	level := c.R.Intn(p.QCount())
	poly := c.randPolyFlags(p.N(), p.Q()[:level+1])
	qp := c.randQP(p, level, p.PCount()-1)
	pk := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{c.randQP(p, p.QCount()-1, p.PCount()-1), c.randQP(p, p.QCount()-1, p.PCount()-1)}}
	sk := &rlwe.SecretKey{Value: c.randQP(p, p.QCount()-1, p.PCount()-1)}
	rlk := &rlwe.RelinearizationKey{}
	for i := 1 + c.R.Intn(3); i > 0; i-- {
		rlk.Keys = append(rlk.Keys, c.randSwk(p))
	}
	rtks := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
	for i := 1 + c.R.Intn(4); i > 0; i-- {
		rtks.Keys[uint64(2*c.R.Intn(p.N())+1)] = c.randSwk(p)
	}
	ct := &rlwe.Ciphertext{}
	for i := 1 + c.R.Intn(4); i > 0; i-- {
		ct.Value = append(ct.Value, c.randPolyFlags(p.N(), p.Q()[:level+1]))
	}
	return []object{
		{"ring.Poly", poly, func(a, b interface{}) bool { return a.(*ring.Poly).Equals(b.(*ring.Poly)) },
			func(a interface{}) interface{} { return snapPoly(a.(*ring.Poly)) },
			func(a interface{}) interface{} { return a.(*ring.Poly).CopyNew() },
			func(a, b interface{}) bool { return samePoly(a.(*ring.Poly), b.(*ring.Poly)) },
			func(c *Case, a interface{}) { c.dropRow(a.(*ring.Poly)) }},
		{"PolyQP", &qp, func(a, b interface{}) bool { return a.(*rlwe.PolyQP).Equals(*b.(*rlwe.PolyQP)) },
			func(a interface{}) interface{} { x := snapQP(*a.(*rlwe.PolyQP)); return &x },
			func(a interface{}) interface{} { x := a.(*rlwe.PolyQP).CopyNew(); return &x },
			func(a, b interface{}) bool { return sameQP(*a.(*rlwe.PolyQP), *b.(*rlwe.PolyQP)) },
			func(c *Case, a interface{}) { c.qpShape(a.(*rlwe.PolyQP)) }},
		{"PublicKey", pk, func(a, b interface{}) bool { return a.(*rlwe.PublicKey).Equals(b.(*rlwe.PublicKey)) },
			func(a interface{}) interface{} {
				k := a.(*rlwe.PublicKey)
				return &rlwe.PublicKey{Value: [2]rlwe.PolyQP{snapQP(k.Value[0]), snapQP(k.Value[1])}}
			},
			func(a interface{}) interface{} { return a.(*rlwe.PublicKey).CopyNew() },
			func(a, b interface{}) bool {
				x, y := a.(*rlwe.PublicKey), b.(*rlwe.PublicKey)
				return sameQP(x.Value[0], y.Value[0]) && sameQP(x.Value[1], y.Value[1])
			},
			func(c *Case, a interface{}) { c.qpShape(&a.(*rlwe.PublicKey).Value[c.R.Intn(2)]) }},
		{"SecretKey", sk, nil,
			func(a interface{}) interface{} { return &rlwe.SecretKey{Value: snapQP(a.(*rlwe.SecretKey).Value)} },
			func(a interface{}) interface{} { return a.(*rlwe.SecretKey).CopyNew() },
			func(a, b interface{}) bool { return sameQP(a.(*rlwe.SecretKey).Value, b.(*rlwe.SecretKey).Value) }, nil},
		{"SwitchingKey", c.randSwk(p), func(a, b interface{}) bool { return a.(*rlwe.SwitchingKey).Equals(b.(*rlwe.SwitchingKey)) },
			func(a interface{}) interface{} { return snapSwk(a.(*rlwe.SwitchingKey)) },
			func(a interface{}) interface{} { return a.(*rlwe.SwitchingKey).CopyNew() },
			func(a, b interface{}) bool { return sameSwk(a.(*rlwe.SwitchingKey), b.(*rlwe.SwitchingKey)) },
			func(c *Case, a interface{}) { c.swkShape(a.(*rlwe.SwitchingKey)) }},
		{"RelinearizationKey", rlk, func(a, b interface{}) bool { return a.(*rlwe.RelinearizationKey).Equals(b.(*rlwe.RelinearizationKey)) },
			func(a interface{}) interface{} { return snapRlk(a.(*rlwe.RelinearizationKey)) },
			func(a interface{}) interface{} { return a.(*rlwe.RelinearizationKey).CopyNew() },
			func(a, b interface{}) bool {
				return sameRlk(a.(*rlwe.RelinearizationKey), b.(*rlwe.RelinearizationKey))
			},
			func(c *Case, a interface{}) {
				k := a.(*rlwe.RelinearizationKey)
				switch c.R.Intn(3) {
				case 0:
					k.Keys = k.Keys[:len(k.Keys)-1]
				case 1:
					k.Keys = append(k.Keys, snapSwk(k.Keys[0]))
				default:
					c.swkShape(k.Keys[c.R.Intn(len(k.Keys))])
				}
			}},
		{"RotationKeySet", rtks, func(a, b interface{}) bool { return a.(*rlwe.RotationKeySet).Equals(b.(*rlwe.RotationKeySet)) },
			func(a interface{}) interface{} { return snapRtks(a.(*rlwe.RotationKeySet)) }, nil,
			func(a, b interface{}) bool { return sameRtks(a.(*rlwe.RotationKeySet), b.(*rlwe.RotationKeySet)) },
			func(c *Case, a interface{}) {
				k := a.(*rlwe.RotationKeySet)
				g := anyKey(c, k.Keys)
				switch c.R.Intn(4) {
				case 0:
					delete(k.Keys, g)
				case 1:
					k.Keys[g^2^uint64(4*p.N())] = snapSwk(k.Keys[g])
				case 2: // same number of keys, other element
					k.Keys[g^2^uint64(4*p.N())] = k.Keys[g]
					delete(k.Keys, g)
				default:
					c.swkShape(k.Keys[g])
				}
			}},
		{"Ciphertext", ct, nil,
			func(a interface{}) interface{} { return snapCt(a.(*rlwe.Ciphertext)) },
			func(a interface{}) interface{} { return a.(*rlwe.Ciphertext).CopyNew() },
			func(a, b interface{}) bool { return sameCt(a.(*rlwe.Ciphertext), b.(*rlwe.Ciphertext)) }, nil},
		{"ckks.Ciphertext", &ckks.Ciphertext{Ciphertext: snapCt(ct), Scale: math.Exp2(100*c.R.Float64() - 20)}, nil,
			func(a interface{}) interface{} {
				x := a.(*ckks.Ciphertext)
				return &ckks.Ciphertext{Ciphertext: snapCt(x.Ciphertext), Scale: x.Scale}
			},
			func(a interface{}) interface{} { return a.(*ckks.Ciphertext).CopyNew() },
			func(a, b interface{}) bool {
				x, y := a.(*ckks.Ciphertext), b.(*ckks.Ciphertext)
				return sameCt(x.Ciphertext, y.Ciphertext) && x.Scale == y.Scale
			}, nil},
	}
}

func anyKey(c *Case, m map[uint64]*rlwe.SwitchingKey) uint64 {
	var ks []uint64
	for k := range m {
		ks = append(ks, k)
	}
	min := ks[0] // the order of a map is random: take the smallest, so that a case can be replayed
	for _, k := range ks {
		if k < min {
			min = k
		}
	}
	return min
}

func (c *Case) equalityCase() {
	p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 5, minQ: 1, maxQ: 4, minP: 0, maxP: 3, lo: 25, hi: 61})
	c.Feature("%s", describe(p))
	var none *ring.Poly
	some := randPoly(c.R, p.N(), p.Q())
	c.Check(!some.Equals(none) && !none.Equals(some) && none.Equals(none) && some.Equals(some), "equal/absent", "a polynomial and an absent one")
	for _, o := range c.objects(p) {
		keep := o.clone(o.v)
		twin := o.clone(o.v)
		if o.equal != nil {
			c.Check(o.equal(o.v, twin) && o.equal(twin, o.v) && o.equal(o.v, o.v), "equal/identical/"+o.kind, "identical objects are not equal")
			for i := 0; i < 4; i++ {
				x := o.clone(o.v)
				if i == 3 {
					o.shape(c, x)
				} else {
					rs := rows(x)
					r := rs[c.R.Intn(len(rs))]
					if i == 2 {
						r = rs[len(rs)-1]
					}
					j := c.R.Intn(len(r))
					switch c.R.Intn(4) {
					case 0:
						j = 0
					case 1:
						j = len(r) - 1
					}
					r[j] ^= 1 << uint(c.R.Intn(64))
				}
				c.Check(!o.equal(o.v, x), "equal/different/"+o.kind, "different objects are equal (change %d)", i)
				c.Check(!o.equal(x, o.v), "equal/different-reversed/"+o.kind, "different objects are equal when compared the other way (change %d)", i)
				c.Event(2)
			}
			c.Check(o.same(keep, o.v), "equal/modifies/"+o.kind, "comparing modified an object")
		}
		if o.copy == nil {
			continue
		}
		cp := o.copy(o.v)
		c.Check(o.same(cp, keep) && o.same(o.v, keep), "copy/exact/"+o.kind, "a copy differs from its source")
		c.Check(!shares(cp, o.v), "copy/shared/"+o.kind, "a copy shares memory with its source")
		c.Event(2)
	}
	// absent objects
	var nilSwk *rlwe.SwitchingKey
	var nilRlk *rlwe.RelinearizationKey
	var nilSet *rlwe.RotationKeySet
	var nilPoly *ring.Poly
	swk := c.randSwk(p)
	rlk := &rlwe.RelinearizationKey{Keys: []*rlwe.SwitchingKey{swk}}
	set := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{5: swk}}
	c.Check(nilSwk.Equals(nil) && !nilSwk.Equals(swk) && !swk.Equals(nil), "nil/SwitchingKey", "absent switching keys")
	c.Check(nilRlk.Equals(nil) && !nilRlk.Equals(rlk) && !rlk.Equals(nil), "nil/RelinearizationKey", "absent relinearization keys")
	c.Check(nilSet.Equals(nil) && !nilSet.Equals(set) && !set.Equals(nil), "nil/RotationKeySet", "absent rotation keys")
	c.Check(nilPoly.Equals(nil) && !nilPoly.Equals(swk.Value[0][0].Q) && !swk.Value[0][0].Q.Equals(nil), "nil/Poly", "absent polynomials")
	c.Check(nilSwk.CopyNew() == nil && nilRlk.CopyNew() == nil && (*rlwe.SecretKey)(nil).CopyNew() == nil && (*rlwe.PublicKey)(nil).CopyNew() == nil, "nil/copy", "copies of absent keys")
	c.rotationSets(p)
}

func (c *Case) rotationSets(p rlwe.Parameters) {
	universe := []uint64{1, 3, 5, 7, 9, 11}
	mk := func() (*rlwe.RotationKeySet, map[uint64]bool) {
		s, m := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}, map[uint64]bool{}
		for _, g := range universe {
			if c.R.Intn(3) > 0 {
				s.Keys[g], m[g] = &rlwe.SwitchingKey{}, true
			}
		}
		return s, m
	}
	a, ma := mk()
	b, mb := mk()
	inc := true
	for g := range mb {
		inc = inc && ma[g]
	}
	c.Check(a.Includes(b) == inc, "includes", "%v includes %v: %v", ma, mb, !inc)
	c.Check(a.Includes(a), "includes", "a set does not include itself")
	c.Check(!a.Includes(nil) && !(*rlwe.RotationKeySet)(nil).Includes(a), "includes/nil", "absent sets")
	for _, g := range universe {
		k, ok := a.GetRotationKey(g)
		c.Check(ok == ma[g] && (k == a.Keys[g]), "get", "element %d: %v", g, ok)
	}
	_, ok := (&rlwe.RotationKeySet{}).GetRotationKey(5)
	c.Check(!ok, "get", "a key from an empty set")
}

// copyCase checks the copies into existing objects, with their level and flag rules.
func (c *Case) copyCase() {
	p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 5, minP: 0, maxP: 3, lo: 25, hi: 61})
	la, lb := c.R.Intn(p.QCount()), c.R.Intn(p.QCount())
	a, b := c.randPolyFlags(p.N(), p.Q()[:la+1]), c.randPolyFlags(p.N(), p.Q()[:lb+1])
	sa, sb := snapPoly(a), snapPoly(b)
	min := minInt(la, lb)
	l := c.R.Intn(min + 1)
	how := c.R.Intn(8)
	withFlags := how%2 == 1
	c.Feature("%s copy %d->%d how=%d l=%d", describe(p), la, lb, how, l)
	switch how {
	case 0:
		ring.CopyValues(a, b)
	case 1:
		ring.Copy(a, b)
	case 2:
		ring.CopyValuesLvl(l, a, b)
		min = l
	case 3:
		ring.CopyLvl(l, a, b)
		min = l
	case 4:
		b.CopyValues(a)
	case 5:
		b.Copy(a)
	case 6:
		if la > lb {
			a, b, sa, sb, la, lb = b, a, sb, sa, lb, la
		}
		b.SetCoefficients(a.Coeffs)
		min = la
	case 7:
		pt := &rlwe.Plaintext{Value: b}
		pt.Copy(&rlwe.Plaintext{Value: a})
		pt.Copy(nil)
		pt.Copy(&rlwe.Plaintext{})
	}
	c.Check(samePoly(a, sa), "copy-into/source", "the source changed")
	c.Check(!shares(a, b), "copy-into/shared", "the copy shares memory")
	c.Check(b.Level() == lb, "copy-into/level", "the level of the receiver changed")
	for i := range b.Coeffs {
		w := sb
		if i <= min {
			w = sa
		}
		if !eqCoeffs([][]uint64{b.Coeffs[i]}, [][]uint64{w.Coeffs[i]}) {
			c.Fail("copy-into/values", "row %d of a copy at level %d", i, min)
		}
	}
	f := sb
	if withFlags {
		f = sa
	}
	c.Check(b.IsNTT == f.IsNTT && b.IsMForm == f.IsMForm, "copy-into/flags", "flags of the receiver")
	self := snapPoly(a)
	a.Copy(a)
	ring.Copy(a, a)
	c.Check(samePoly(a, self), "copy-into/self", "a copy onto itself changed")
	g := a.GetCoefficients()
	c.Check(eqCoeffs(g, a.Coeffs) && !shares(g, a), "coefficients", "returned coefficients")
	a.Zero()
	for _, r := range a.Coeffs {
		for _, x := range r {
			if x != 0 {
				c.Fail("zero", "a coefficient is left")
				return
			}
		}
	}
	c.Check(a.Degree() == p.N() && a.LenModuli() == la+1 && a.Level() == la, "shape", "degree %d moduli %d", a.Degree(), a.LenModuli())
	c.Event(p.N())

	// over QP
	x, y := c.randQP(p, p.QCount()-1, p.PCount()-1), c.randQP(p, p.QCount()-1, p.PCount()-1)
	sx, sy := snapQP(x), snapQP(y)
	if c.R.Intn(2) == 0 {
		y.Copy(x)
		c.Check(sameQP(y, sx), "qp/copy", "copy over QP")
	} else {
		y.CopyValues(x)
		c.Check(eqCoeffs(y.Q.Coeffs, sx.Q.Coeffs) && y.Q.IsNTT == sy.Q.IsNTT && y.Q.IsMForm == sy.Q.IsMForm, "qp/copy-values", "copy over Q")
		c.Check(y.P == nil || eqCoeffs(y.P.Coeffs, sx.P.Coeffs) && y.P.IsNTT == sy.P.IsNTT && y.P.IsMForm == sy.P.IsMForm, "qp/copy-values", "copy over P")
	}
	c.Check(sameQP(x, sx) && !shares(x, y), "qp/source", "the source changed or is shared")

	// ciphertexts
	deg := c.R.Intn(7)
	mk := func(level int) *rlwe.Ciphertext {
		ct := &rlwe.Ciphertext{}
		for i := 0; i <= deg; i++ {
			ct.Value = append(ct.Value, c.randPolyFlags(p.N(), p.Q()[:level+1]))
		}
		return ct
	}
	u, v := mk(la), mk(la)
	su := snapCt(u)
	if c.R.Intn(2) == 0 {
		v.Copy(u)
		c.Check(sameCt(v, su), "ciphertext/copy", "copy of a ciphertext")
	} else {
		cu, cv := &ckks.Ciphertext{Ciphertext: u, Scale: 7}, &ckks.Ciphertext{Ciphertext: v, Scale: 9}
		cv.Copy(cu)
		c.Check(sameCt(v, su) && cv.Scale == 7 && cu.Scale == 7, "ciphertext/copy", "copy of a ciphertext")
		cv.Copy(cv)
		c.Check(sameCt(v, su) && cv.Scale == 7, "ciphertext/copy-self", "copy onto itself")
	}
	c.Check(sameCt(u, su) && !shares(u, v), "ciphertext/source", "the source changed or is shared")
	// copy onto a ciphertext of a larger degree: the components beyond the source's stay
	w := mk(la)
	w.Value = append(w.Value, c.randPolyFlags(p.N(), p.Q()[:la+1]))
	keepW := w.Value[deg+1].CopyNew()
	w.Copy(u)
	c.Check(sameCt(&rlwe.Ciphertext{Value: w.Value[:deg+1]}, su) && w.Degree() == deg+1 && samePoly(w.Value[deg+1], keepW), "ciphertext/copy-larger", "copy onto a ciphertext of a larger degree")
	// resizing
	nd := c.R.Intn(6)
	v.Resize(p, nd)
	if c.Check(v.Degree() == nd && v.Level() == la, "resize/degree", "degree %d instead of %d", v.Degree(), nd) {
		for i, q := range v.Value {
			if i <= deg {
				c.Check(samePoly(q, su.Value[i]), "resize/values", "component %d changed", i)
				continue
			}
			c.Check(q.Level() == la && q.IsNTT == su.Value[0].IsNTT && q.Degree() == p.N(), "resize/shape", "component %d", i)
			for _, r := range q.Coeffs {
				for _, x := range r {
					if x != 0 {
						c.Fail("resize/zero", "a new component is not zero")
						return
					}
				}
			}
			for j := 0; j < i; j++ {
				c.Check(!shares(q, v.Value[j]), "resize/shared", "components share memory")
			}
		}
	}
	s1, l1, same := rlwe.GetSmallestLargest(u, v)
	c.Check(same == (deg == nd) && s1.Degree() == minInt(deg, nd) && l1.Degree() == maxInt(deg, nd), "smallest-largest", "degrees %d %d", deg, nd)
	c.Check(!same || s1 == u && l1 == v, "smallest-largest", "order of equals")
	c.Check(u.El() == u && u.RLWEElement() == u, "element", "element of a ciphertext")
	vals := v.Value
	u.SetValue(vals)
	c.Check(u.Degree() == v.Degree() && &u.Value[0] == &vals[0], "set-value", "SetValue")
}

// allocCase checks freshly allocated objects: zero, independent, and of the right shape and domain.
func (c *Case) allocCase() {
	rp := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 6, minP: 1, maxP: 4, lo: 25, hi: 61})
	p, err := ckks.NewParameters(rp, rp.LogN()-1, 8)
	if err != nil {
		c.Fatal("params", "%v", err)
	}
	deg, level := c.R.Intn(9), c.R.Intn(p.QCount())
	c.Feature("%s alloc deg=%d level=%d", describe(rp), deg, level)
	zeroShape := func(x *ring.Poly, moduli int, ntt bool, what string) {
		ok := x != nil && len(x.Coeffs) == moduli && x.IsNTT == ntt && !x.IsMForm
		for i := 0; ok && i < moduli; i++ {
			ok = len(x.Coeffs[i]) == p.N()
			for _, v := range x.Coeffs[i] {
				ok = ok && v == 0
			}
		}
		c.Check(ok, "alloc/"+what, "a new %s is not a zero of the right shape and domain", what)
		c.Event(1)
	}
	disjoint := func(ps []*ring.Poly, what string) {
		seen := map[*uint64]bool{}
		for _, q := range ps {
			for _, r := range q.Coeffs {
				c.Check(!seen[&r[0]], "alloc/"+what, "components of a new %s share memory", what)
				seen[&r[0]] = true
			}
		}
	}
	ct := rlwe.NewCiphertext(rp, deg, level)
	cn := rlwe.NewCiphertextNTT(rp, deg, level)
	cc := ckks.NewCiphertext(p, deg, level, 12.5)
	c.Check(ct.Degree() == deg && cn.Degree() == deg && cc.Degree() == deg && ct.Level() == level && cn.Level() == level && cc.Level() == level && cc.ScalingFactor() == 12.5, "alloc/ciphertext", "degree, level or scale")
	for i := range ct.Value {
		zeroShape(ct.Value[i], level+1, false, "ciphertext")
		zeroShape(cn.Value[i], level+1, true, "ciphertext-ntt")
		zeroShape(cc.Value[i], level+1, true, "ckks-ciphertext")
	}
	disjoint(ct.Value, "ciphertext")
	disjoint(cn.Value, "ciphertext-ntt")
	disjoint(cc.Value, "ckks-ciphertext")
	cc.SetScalingFactor(3)
	pt, cp := rlwe.NewPlaintext(rp, level), ckks.NewPlaintext(p, level, 2.5)
	zeroShape(pt.Value, level+1, false, "plaintext")
	zeroShape(cp.Value, level+1, true, "ckks-plaintext")
	c.Check(pt.Degree() == 0 && pt.Level() == level && cp.Level() == level && cp.ScalingFactor() == 2.5 && cc.Scale == 3, "alloc/plaintext", "level or scale")
	cp.SetScalingFactor(5)
	c.Check(cp.Scale == 5 && pt.El().Degree() == 0 && pt.El().Value[0] == pt.Value, "alloc/plaintext", "element of a plaintext")
	// views of given polynomials
	a, b := c.randPolyFlags(p.N(), p.Q()), c.randPolyFlags(p.N(), p.Q())
	sa, sb := snapPoly(a), snapPoly(b)
	vp := ckks.NewPlaintextAtLevelFromPoly(level, a)
	vc := ckks.NewCiphertextAtLevelFromPoly(level, [2]*ring.Poly{a, b})
	c.Check(vp.Level() == level && vc.Level() == level && vc.Degree() == 1 && vp.Value.IsNTT && vc.Value[0].IsNTT && vc.Value[1].IsNTT, "view/shape", "views of polynomials")
	c.Check(eqCoeffs(vp.Value.Coeffs, sa.Coeffs[:level+1]) && eqCoeffs(vc.Value[0].Coeffs, sa.Coeffs[:level+1]) && eqCoeffs(vc.Value[1].Coeffs, sb.Coeffs[:level+1]), "view/values", "views of polynomials")
	c.Check(samePoly(a, sa) && samePoly(b, sb), "view/source", "viewing changed a polynomial")
	// keys
	lq, lp := c.R.Intn(p.QCount()), c.R.Intn(p.PCount())
	swkShape := func(k *rlwe.SwitchingKey, lq, lp int, what string) {
		if !c.Check(len(k.Value) == (lq+lp+1)/(lp+1), "alloc/"+what, "%d digits for levels %d %d", len(k.Value), lq, lp) {
			return
		}
		var all []*ring.Poly
		for _, v := range k.Value {
			for _, x := range v {
				zeroShape(x.Q, lq+1, false, what)
				zeroShape(x.P, lp+1, false, what)
				all = append(all, x.Q, x.P)
			}
		}
		disjoint(all, what)
	}
	swkShape(rlwe.NewSwitchingKey(rp, lq, lp), lq, lp, "switching-key")
	swkShape(ckks.NewSwitchingKey(p), p.QCount()-1, p.PCount()-1, "ckks-switching-key")
	ck := ckks.NewRelinearizationKey(p)
	if c.Check(len(ck.Keys) == 2, "alloc/ckks-relin-key", "%d keys", len(ck.Keys)) {
		swkShape(ck.Keys[0], p.QCount()-1, p.PCount()-1, "ckks-relin-key")
		swkShape(ck.Keys[1], p.QCount()-1, p.PCount()-1, "ckks-relin-key")
	}
	rk := rlwe.NewRelinKey(rp, deg)
	c.Check(len(rk.Keys) == deg, "alloc/relin-key", "%d keys instead of %d", len(rk.Keys), deg)
	for _, k := range rk.Keys {
		swkShape(k, p.QCount()-1, p.PCount()-1, "relin-key")
	}
	els := []uint64{5, 25, 2*uint64(p.N()) - 1, 5}[:c.R.Intn(5)]
	set := rlwe.NewRotationKeySet(rp, els)
	for _, g := range els {
		if k, ok := set.GetRotationKey(g); c.Check(ok, "alloc/rotation-keys", "element %d is missing", g) {
			swkShape(k, p.QCount()-1, p.PCount()-1, "rotation-keys")
		}
	}
	c.Check(len(set.Keys) == minInt(len(els), 3), "alloc/rotation-keys", "%d keys", len(set.Keys))
	cset := ckks.NewRotationKeySet(p, els)
	for g := range set.Keys {
		if k, ok := cset.GetRotationKey(g); c.Check(ok, "alloc/ckks-rotation-keys", "element %d is missing", g) {
			swkShape(k, p.QCount()-1, p.PCount()-1, "ckks-rotation-keys")
		}
	}
	c.Check(len(cset.Keys) == len(set.Keys), "alloc/ckks-rotation-keys", "%d keys", len(cset.Keys))
	sk, pk := rlwe.NewSecretKey(rp), rlwe.NewPublicKey(rp)
	csk, cpk := ckks.NewSecretKey(p), ckks.NewPublicKey(p)
	for _, x := range []rlwe.PolyQP{sk.Value, pk.Value[0], pk.Value[1], csk.Value, cpk.Value[0], cpk.Value[1]} {
		zeroShape(x.Q, p.QCount(), false, "key")
		zeroShape(x.P, p.PCount(), false, "key")
	}
	disjoint([]*ring.Poly{sk.Value.Q, sk.Value.P, pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}, "key")
	share, big := rlwe.NewAdditiveShareAtLevel(rp, level), rlwe.NewAdditiveShareBigint(rp, deg)
	zeroShape(&share.Value, level+1, false, "share")
	zeroShape(&rlwe.NewAdditiveShare(rp).Value, p.QCount(), false, "share")
	c.Check(len(big.Value) == deg, "alloc/share", "big share")
	for i, x := range big.Value {
		c.Check(x != nil && x.Sign() == 0 && (i == 0 || x != big.Value[i-1]), "alloc/share", "big share")
	}
	// random ciphertexts are reduced, differ between components, and depend on the source only
	key := []byte{byte(c.R.Intn(256)), byte(c.R.Intn(256)), 3}
	prng, _ := utils.NewKeyedPRNG(key)
	prng2, _ := utils.NewKeyedPRNG(key)
	r1, r2 := rlwe.NewCiphertextRandom(prng, rp, deg, level), ckks.NewCiphertextRandom(prng2, p, deg, level, 4)
	c.Check(r2.Scale == 4 && r1.Degree() == deg && r1.Level() == level, "random/shape", "random ciphertexts")
	for i := range r1.Value {
		c.Check(reducedPoly(r1.Value[i], p.Q()) && eqCoeffs(r1.Value[i].Coeffs, r2.Value[i].Coeffs), "random/values", "component %d", i)
		for j := 0; j < i; j++ {
			c.Check(!eqCoeffs(r1.Value[i].Coeffs, r1.Value[j].Coeffs), "random/repeated", "components %d and %d are the same", i, j)
		}
	}
}

func (c *Case) fastAllocCase() {
	pl := c.fastLit(5, c.R.Intn(3) == 0)
	fp := frlweOf(pl)
	n, beta := len(pl.Q)+len(pl.P), (len(pl.Q)+len(pl.P)-1)/len(pl.P)
	blocks := (n + pl.Gamma - 1) / pl.Gamma
	shape := func(k *frlwe.SwitchingKey) {
		ok := len(k.Value) == beta
		seen := map[*uint64]bool{}
		for i := 0; ok && i < beta; i++ {
			ok = len(k.Value[i]) == blocks
			for j := 0; ok && j < blocks; j++ {
				x := k.Value[i][j]
				ok = len(x.Coeffs) == len(pl.T)
				for _, r := range x.Coeffs {
					ok = ok && len(r) == fp.N() && !seen[&r[0]]
					seen[&r[0]] = true
					for _, v := range r {
						ok = ok && v == 0
					}
				}
			}
		}
		c.Check(ok, "alloc/fast-key", "a new fast key is not a zero of the right shape (%d x %d)", beta, blocks)
		c.Event(1)
	}
	shape(frlwe.NewSwitchingKey(fp))
	rl, rt := frlwe.NewRelinKey(fp), frlwe.NewRotationKey(fp, 77)
	for i := 0; i < 2; i++ {
		shape(rl.Value[i])
		shape(rt.Value[i])
	}
	c.Check(rl.Value[0] != rl.Value[1] && !shares(rl.Value[0], rl.Value[1]) && !shares(rt.Value[0], rt.Value[1]), "alloc/fast-shared", "the two halves of a fast key are one")
	c.Check(rt.Rotidx == 77, "alloc/fast-rotation", "rotation %d", rt.Rotidx)
	cp := fckks.NewParametersFromLiteral(pl)
	m := fckks.NewMessage(cp)
	ok := m.Slots() == cp.Slots() && len(m.Value) == cp.Slots()
	for _, v := range m.Value {
		ok = ok && v == 0
	}
	c.Check(ok, "alloc/message", "a new message")
}

func init() {
	register("E01", "one case = parameters and objects of every kind with arbitrary contents, levels and flags; comparisons against twins and against objects with one word or the shape changed, copies followed by a search for shared memory, resizing, and new objects; distinct = parameters x shapes",
		func(r *Run) {
			r.Cases("equality", 6000, 100000, func(c *Case) { c.equalityCase() })
			r.Cases("copies", 15000, 200000, func(c *Case) { c.copyCase() })
			r.Cases("allocation", 4000, 60000, func(c *Case) { c.allocCase() })
			r.Cases("fast-allocation", 1000, 10000, func(c *Case) { c.fastAllocCase() })
		})
}
