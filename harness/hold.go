package main

import (
	"hash/maphash"
	"unsafe"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// Retention monitor: what a call returned (or wrote into a receiver) must stay as it was until the case hands the same
// object to the library again. A result which shares memory with a buffer of the object that made it passes any
// comparison made right after the call.

type heldResult struct {
	sig  string
	rows [][]byte
	sum  uint64
	same func() bool
}

var holdSeed = maphash.MakeSeed()

func (h *heldResult) hash() uint64 {
	var m maphash.Hash
	m.SetSeed(holdSeed)
	for _, r := range h.rows {
		m.Write(r)
	}
	return m.Sum64()
}

func bytesOf[T any](v []T) []byte {
	if len(v) == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(&v[0])), len(v)*int(unsafe.Sizeof(v[0])))
}

func (c *Case) hold(key interface{}, h *heldResult) {
	if c.held == nil {
		c.held = map[interface{}]*heldResult{}
	}
	h.sum = h.hash()
	c.held[key] = h
	c.Count("results_held", 1)
}

// holdPolys holds the rows of polynomials until the end of the case, or until key is held again or released.
func (c *Case) holdPolys(key interface{}, sig string, ps ...*ring.Poly) {
	h := &heldResult{sig: sig}
	for _, p := range ps {
		if p != nil {
			for _, r := range p.Coeffs {
				h.rows = append(h.rows, bytesOf(r))
			}
		}
	}
	c.hold(key, h)
}

func (c *Case) holdPoly(sig string, p *ring.Poly)        { c.holdPolys(p, sig, p) }
func (c *Case) holdRLWE(sig string, ct *rlwe.Ciphertext) { c.holdPolys(ct, sig, ct.Value...) }
func (c *Case) holdCt(sig string, ct *ckks.Ciphertext)   { c.holdRLWE(sig, ct.Ciphertext) }
func (c *Case) holdQP(sig string, p rlwe.PolyQP)         { c.holdPolys(p.Q, sig, p.Q, p.P) }
func holdSlice[T any](c *Case, sig string, v []T) {
	if len(v) > 0 {
		c.hold(&v[0], &heldResult{sig: sig, rows: [][]byte{bytesOf(v)}})
	}
}

// holdFunc holds a result whose memory is not plain words.
func (c *Case) holdFunc(key interface{}, sig string, same func() bool) {
	c.hold(key, &heldResult{sig: sig, same: same})
}

// release forgets objects which the case itself is about to change.
func (c *Case) release(keys ...interface{}) {
	for _, k := range keys {
		delete(c.held, k)
	}
}

// checkHeld runs at the end of every case which was not ended early.
func (c *Case) checkHeld() {
	for _, h := range c.held {
		ok := h.hash() == h.sum
		if ok && h.same != nil {
			ok = h.same()
		}
		c.Check(ok, h.sig+"/retained", "a later call changed what an earlier one had returned")
	}
}

// shared says whether two polynomials, or two rows of one, lie in the same memory.
func shared(ps ...*ring.Poly) bool {
	seen := map[*uint64]bool{}
	for _, p := range ps {
		if p == nil {
			continue
		}
		for _, r := range p.Coeffs {
			if len(r) == 0 {
				continue
			}
			if seen[&r[0]] {
				return true
			}
			seen[&r[0]] = true
		}
	}
	return false
}
