package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"math"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

type codec interface {
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
}

// serialObject is one serializable object with its own structural comparison.
type serialObject struct {
	kind   string
	obj    codec
	fresh  func() codec
	same   func(a, b codec) bool
	dlen   int  // announced length, -1 when the type announces none
	stable bool // the encoding is a function of the value (maps are not ordered)
	full   bool // only whole encodings are accepted: truncated and extended inputs must be refused
}

var serialKinds = []string{"poly", "ring", "sk", "pk", "swk", "rlk", "rtks", "ct", "ckks-ct", "rlwe-params", "ckks-params"}

func (c *Case) serialObject(kind string) serialObject {
	p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 5, minP: 0, maxP: 3, lo: 20, hi: 61})
	levelQ := c.R.Intn(p.QCount())
	o := serialObject{kind: kind, dlen: -1, stable: true, full: true}
	c.Feature("%s %s level=%d", kind, describe(p), levelQ)
	switch kind {
	case "poly":
		v := c.randPolyFlags(p.N(), p.Q()[:levelQ+1])
		o.obj, o.fresh, o.dlen = v, func() codec { return new(ring.Poly) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return samePoly(a.(*ring.Poly), b.(*ring.Poly)) }
	case "ring":
		o.obj, o.fresh = getRing(p.N(), p.Q(), p.RingType()), func() codec { return new(ring.Ring) }
		o.same = func(a, b codec) bool { return sameRing(a.(*ring.Ring), b.(*ring.Ring)) }
		o.full = false // gob streams carry their own framing
	case "sk":
		v := &rlwe.SecretKey{Value: c.randQP(p, levelQ, p.PCount()-1)}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.SecretKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameQP(a.(*rlwe.SecretKey).Value, b.(*rlwe.SecretKey).Value) }
	case "pk":
		v := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{c.randQP(p, levelQ, p.PCount()-1), c.randQP(p, levelQ, p.PCount()-1)}}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.PublicKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool {
			x, y := a.(*rlwe.PublicKey), b.(*rlwe.PublicKey)
			return sameQP(x.Value[0], y.Value[0]) && sameQP(x.Value[1], y.Value[1])
		}
	case "swk":
		v := c.randSwk(p)
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.SwitchingKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameSwk(a.(*rlwe.SwitchingKey), b.(*rlwe.SwitchingKey)) }
	case "rlk":
		v := &rlwe.RelinearizationKey{}
		for i := c.R.Intn(3) + 1; i > 0; i-- {
			v.Keys = append(v.Keys, c.randSwk(p))
		}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.RelinearizationKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameRlk(a.(*rlwe.RelinearizationKey), b.(*rlwe.RelinearizationKey)) }
	case "rtks":
		v := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
		for i := c.R.Intn(5); i > 0; i-- {
			v.Keys[uint64(c.R.Intn(4<<17))|1] = c.randSwk(p)
		}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.RotationKeySet) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameRtks(a.(*rlwe.RotationKeySet), b.(*rlwe.RotationKeySet)) }
		o.stable, o.full = len(v.Keys) < 2, false
	case "ct", "ckks-ct":
		v := &rlwe.Ciphertext{}
		for i := c.R.Intn(5) + 1; i > 0; i-- {
			v.Value = append(v.Value, c.randPolyFlags(p.N(), p.Q()[:levelQ+1]))
		}
		if kind == "ct" {
			o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.Ciphertext) }, v.GetDataLen(true)
			o.same = func(a, b codec) bool { return sameCt(a.(*rlwe.Ciphertext), b.(*rlwe.Ciphertext)) }
			break
		}
		scale := math.Exp2(c.R.Float64() * 100)
		switch c.R.Intn(6) {
		case 0:
			scale = 0
		case 1:
			scale = math.Float64frombits(c.R.Uint64())
		}
		w := &ckks.Ciphertext{Ciphertext: v, Scale: scale}
		o.obj, o.fresh, o.dlen = w, func() codec { return new(ckks.Ciphertext) }, w.GetDataLen(true)
		o.same = func(a, b codec) bool {
			x, y := a.(*ckks.Ciphertext), b.(*ckks.Ciphertext)
			return sameCt(x.Ciphertext, y.Ciphertext) && math.Float64bits(x.Scale) == math.Float64bits(y.Scale)
		}
	case "rlwe-params":
		v := c.randParams(p)
		o.obj, o.fresh, o.dlen = &v, func() codec { return new(rlwe.Parameters) }, v.MarshalBinarySize()
		o.same = func(a, b codec) bool { return sameParams(*a.(*rlwe.Parameters), *b.(*rlwe.Parameters)) }
	case "ckks-params":
		r := c.randParams(p)
		max := r.LogN() - 1
		if r.RingType() == ring.ConjugateInvariant {
			max++
		}
		v, err := ckks.NewParameters(r, c.R.Intn(max+1), math.Exp2(c.R.Float64()*60))
		if err != nil {
			c.Fatal("params-refused", "valid CKKS parameters refused: %v", err)
		}
		o.obj, o.fresh, o.dlen = &v, func() codec { return new(ckks.Parameters) }, v.MarshalBinarySize()
		o.same = func(a, b codec) bool { return sameCkksParams(*a.(*ckks.Parameters), *b.(*ckks.Parameters)) }
	}
	return o
}

// randParams varies the scalar fields of a parameter set.
func (c *Case) randParams(p rlwe.Parameters) rlwe.Parameters {
	h := c.R.Intn(p.N() + 1)
	sigma := c.R.Float64() * 20
	if c.R.Intn(60) == 0 { // the largest degree
		p = c.randRLWE(rlweOpts{minLogN: 17, maxLogN: 17, minQ: 1, maxQ: 1, minP: 0, maxP: 1, lo: 25, hi: 60})
		h = p.N() - c.R.Intn(2)*p.N()/2
	}
	switch c.R.Intn(5) {
	case 0:
		h = 0
	case 1:
		sigma = 0
	}
	r, err := rlwe.NewParameters(p.LogN(), p.Q(), p.P(), h, sigma, p.RingType())
	if err != nil {
		c.Fatal("params-refused", "valid parameters refused: %v", err)
	}
	c.Desc("h=%d sigma=%v", h, sigma)
	return r
}

func sameRing(a, b *ring.Ring) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.N != b.N || fmt.Sprint(a.Modulus) != fmt.Sprint(b.Modulus) || a.NthRoot != b.NthRoot || a.AllowsNTT != b.AllowsNTT ||
		a.ModulusBigint.Cmp(b.ModulusBigint) != 0 || b.NumberTheoreticTransformer == nil || a.Type() != b.Type() {
		return false
	}
	return fmt.Sprint(a.NttPsi, a.NttPsiInv, a.NttNInv, a.BredParams, a.MredParams, a.RescaleParams, a.Mask) == fmt.Sprint(b.NttPsi, b.NttPsiInv, b.NttNInv, b.BredParams, b.MredParams, b.RescaleParams, b.Mask)
}

func sameParams(a, b rlwe.Parameters) bool {
	return a.LogN() == b.LogN() && fmt.Sprint(a.Q(), a.P()) == fmt.Sprint(b.Q(), b.P()) && a.HammingWeight() == b.HammingWeight() &&
		a.Sigma() == b.Sigma() && a.RingType() == b.RingType() && sameRing(a.RingQ(), b.RingQ()) && sameRing(a.RingP(), b.RingP())
}

func sameCkksParams(a, b ckks.Parameters) bool {
	return sameParams(a.Parameters, b.Parameters) && a.LogSlots() == b.LogSlots() && a.DefaultScale() == b.DefaultScale()
}

func init() {
	register("S01", "one case = one object (polynomial, ring, key, ciphertext or parameter set) of random shape, level, flags and extreme coefficients, encoded, decoded into a fresh and into a used receiver, and compared field by field by the harness; distinct = kind x shape",
		func(r *Run) {
			r.Cases("binary", 6000, 60000, func(c *Case) {
				o := c.serialObject(serialKinds[c.Idx%len(serialKinds)])
				c.roundTrip(o, func() serialObject { return c.serialObject(o.kind) })
			})

			r.Cases("wide", 160, 3000, func(c *Case) { c.wideSerial() })

			r.Cases("json", 1500, 20000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 8, minQ: 1, maxQ: 6, minP: 0, maxP: 3, lo: 20, hi: 61})
				h, sigma := 1+c.R.Intn(p.N()), 0.5+c.R.Float64()*20
				v, err := rlwe.NewParameters(p.LogN(), p.Q(), p.P(), h, sigma, p.RingType())
				if err != nil {
					c.Fatal("params-refused", "valid parameters refused: %v", err)
				}
				c.Feature("%s h=%d sigma=%v", describe(v), h, sigma)
				data, err := json.Marshal(v)
				if err != nil {
					c.Fatal("marshal-json/rlwe", "%v", err)
				}
				var d rlwe.Parameters
				if c.R.Intn(2) == 0 {
					d = p
				}
				if err := json.Unmarshal(data, &d); err != nil {
					c.Fatal("unmarshal-json/rlwe", "%v: %s", err, data)
				}
				c.Check(sameParams(v, d), "json/rlwe", "JSON round trip changes the parameters: %s", data)
				max := v.LogN() - 1
				if v.RingType() == ring.ConjugateInvariant {
					max++
				}
				w, err := ckks.NewParameters(v, 1+c.R.Intn(max), math.Exp2(c.R.Float64()*60))
				if err != nil {
					c.Fatal("params-refused", "valid CKKS parameters refused: %v", err)
				}
				if data, err = json.Marshal(w); err != nil {
					c.Fatal("marshal-json/ckks", "%v", err)
				}
				var e ckks.Parameters
				if err := json.Unmarshal(data, &e); err != nil {
					c.Fatal("unmarshal-json/ckks", "%v: %s", err, data)
				}
				c.Check(sameCkksParams(w, e), "json/ckks", "JSON round trip changes the parameters: %s", data)
			})

			// the byte-level writers, into buffers which are too long, dirty or too short
			r.Cases("writers", 2500, 40000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 7, minQ: 1, maxQ: 5, minP: 0, maxP: 3, lo: 20, hi: 61})
				v := c.randPolyFlags(p.N(), p.Q()[:1+c.R.Intn(p.QCount())])
				qp := c.randQP(p, c.R.Intn(p.QCount()), c.R.Intn(p.PCount()+1)-1)
				op := c.Idx % 4
				c.Feature("op=%d %s", op, describe(p))
				L, N := len(v.Coeffs), p.N()
				dirty := func(n int) []byte {
					b := make([]byte, n)
					c.R.Read(b)
					return b
				}
				extra := c.R.Intn(40)
				used := &ring.Poly{}
				if c.R.Intn(2) == 0 {
					used = c.randPolyFlags(32, p.Q()[:1+c.R.Intn(p.QCount())])
				}
				switch op {
				case 0:
					n := v.GetDataLen(true)
					c.Check(n == 4+8*N*L && v.GetDataLen(false) == 8*N*L, "poly-length", "GetDataLen = %d for N=%d L=%d", n, N, L)
					b := dirty(n + extra)
					bb := append([]byte{}, b...)
					k, err := v.WriteTo(b)
					c.Check(err == nil && k == n, "poly-write", "WriteTo returned %d, %v instead of %d", k, err, n)
					c.Check(bytes.Equal(b[n:], bb[n:]), "poly-write-beyond", "WriteTo wrote beyond the announced length")
					k, err = used.DecodePolyNew(b)
					c.Check(err == nil && k == n && samePoly(used, v), "poly-decode", "DecodePolyNew returned %d, %v (want %d), equal=%v flags %v,%v want %v,%v", k, err, n, samePoly(used, v), used.IsNTT, used.IsMForm, v.IsNTT, v.IsMForm)
					k, err = v.WriteTo(dirty(c.R.Intn(n)))
					c.Check(err != nil, "poly-write-short", "WriteTo into a short buffer returned %d without an error", k)
				case 1:
					for i := range v.Coeffs {
						for j := range v.Coeffs[i] {
							v.Coeffs[i][j] &= 1<<32 - 1
						}
					}
					n := v.GetDataLen32(true)
					c.Check(n == 4+4*N*L && v.GetDataLen32(false) == 4*N*L, "poly32-length", "GetDataLen32 = %d for N=%d L=%d", n, N, L)
					b := dirty(n + extra)
					bb := append([]byte{}, b...)
					k, err := v.WriteTo32(b)
					c.Check(err == nil && k == n, "poly32-write", "WriteTo32 returned %d, %v instead of %d", k, err, n)
					c.Check(bytes.Equal(b[n:], bb[n:]), "poly32-write-beyond", "WriteTo32 wrote beyond the announced length")
					k, err = used.DecodePolyNew32(b)
					c.Check(err == nil && k == n && samePoly(used, v), "poly32-decode", "DecodePolyNew32 returned %d, %v (want %d), equal=%v", k, err, n, samePoly(used, v))
					k, err = v.WriteTo32(dirty(c.R.Intn(n)))
					c.Check(err != nil, "poly32-write-short", "WriteTo32 into a short buffer returned %d without an error", k)
				case 2:
					b := dirty(8*N*L + extra)
					k, err := v.WriteCoeffs(b)
					c.Check(err == nil && k == 8*N*L, "coeffs-write", "WriteCoeffs returned %d, %v", k, err)
					off := c.R.Intn(20)
					full := append(dirty(off), b...)
					o := garbagePoly(c.R, N, L)
					k, err = ring.DecodeCoeffs(off, N, L, o.Coeffs, full)
					c.Check(err == nil && k == off+8*N*L && eqCoeffs(o.Coeffs, v.Coeffs), "coeffs-decode", "DecodeCoeffs at %d returned %d, %v", off, k, err)
					o2 := make([][]uint64, L)
					k, err = ring.DecodeCoeffsNew(off, N, L, o2, full)
					c.Check(err == nil && k == off+8*N*L && eqCoeffs(o2, v.Coeffs), "coeffs-decode-new", "DecodeCoeffsNew at %d returned %d, %v", off, k, err)
					full = append(dirty(off), b...)
					bb := append([]byte{}, full...)
					k, err = ring.WriteCoeffsTo(off, N, L, o2, full)
					c.Check(err == nil && k == off+8*N*L && bytes.Equal(full[:off], bb[:off]) && bytes.Equal(full[k:], bb[k:]) && bytes.Equal(full[off:k], b[:8*N*L]), "coeffs-write-at", "WriteCoeffsTo at %d returned %d, %v", off, k, err)
					// too little space, or too few bytes
					short := off + c.R.Intn(8*N*L)
					k, err = ring.WriteCoeffsTo(off, N, L, o2, full[:short])
					c.Check(err != nil, "coeffs-write-short", "WriteCoeffsTo %d bytes at %d of %d returned %d without an error", 8*N*L, off, short, k)
					k, err = ring.DecodeCoeffs(off, N, L, o.Coeffs, full[:short])
					c.Check(err != nil, "coeffs-decode-short", "DecodeCoeffs at %d of %d bytes returned %d without an error", off, short, k)
					k, err = ring.DecodeCoeffsNew(off, N, L, make([][]uint64, L), full[:short])
					c.Check(err != nil, "coeffs-decode-new-short", "DecodeCoeffsNew at %d of %d bytes returned %d without an error", off, short, k)
					short = c.R.Intn(4 * N * L)
					k, err = ring.WriteCoeffsTo32(0, N, L, o2, full[:short])
					c.Check(err != nil, "coeffs-write32-short", "WriteCoeffsTo32 into %d bytes returned %d without an error", short, k)
					k, err = ring.DecodeCoeffsNew32(0, N, L, make([][]uint64, L), full[:short])
					c.Check(err != nil, "coeffs-decode32-short", "DecodeCoeffsNew32 of %d bytes returned %d without an error", short, k)
					var gc = v.GetCoefficients()
					c.Check(eqCoeffs(gc, v.Coeffs), "get-coefficients", "GetCoefficients differs from the coefficients")
					gc[0][0]++
					c.Check(gc[0][0] != v.Coeffs[0][0], "get-coefficients-alias", "GetCoefficients shares memory")
				case 3:
					n := qp.GetDataLen(true)
					b := dirty(n + extra)
					bb := append([]byte{}, b...)
					k, err := qp.WriteTo(b)
					c.Check(err == nil && k == n, "qp-write", "WriteTo returned %d, %v instead of %d", k, err, n)
					c.Check(bytes.Equal(b[n:], bb[n:]), "qp-write-beyond", "WriteTo wrote beyond the announced length")
					d := c.randQP(p, 0, c.R.Intn(p.PCount()+1)-1)
					k, err = d.DecodePolyNew(b)
					c.Check(err == nil && k == n && sameQP(d, qp), "qp-decode", "DecodePolyNew returned %d, %v (want %d)", k, err, n)
				}
			})

			r.Cases("buffer", 500, 5000, func(c *Case) {
				// a random write program, then the same program of reads
				b := utils.NewBuffer(nil)
				type item struct {
					k  int
					u8 []byte
					u6 []uint64
				}
				var prog []item
				size := 0
				for i := 1 + c.R.Intn(12); i > 0; i-- {
					it := item{k: c.R.Intn(4)}
					n := 1
					if it.k >= 2 {
						n = c.R.Intn(6)
					}
					for j := 0; j < n; j++ {
						if it.k == 0 || it.k == 2 {
							it.u8 = append(it.u8, byte(c.R.Intn(256)))
							size++
						} else {
							it.u6 = append(it.u6, wide(c.R, 1<<60))
							size += 8
						}
					}
					switch it.k {
					case 0:
						b.WriteUint8(it.u8[0])
					case 1:
						b.WriteUint64(it.u6[0])
					case 2:
						b.WriteUint8Slice(it.u8)
					case 3:
						b.WriteUint64Slice(it.u6)
					}
					prog = append(prog, it)
				}
				c.Feature("%v", prog)
				c.Check(len(b.Bytes()) == size, "size", "buffer holds %d bytes instead of %d", len(b.Bytes()), size)
				rd := utils.NewBuffer(b.Bytes())
				for i, it := range prog {
					g8, g6 := make([]byte, len(it.u8)), make([]uint64, len(it.u6))
					switch it.k {
					case 0:
						g8[0] = rd.ReadUint8()
					case 1:
						g6[0] = rd.ReadUint64()
					case 2:
						rd.ReadUint8Slice(g8)
					case 3:
						rd.ReadUint64Slice(g6)
					}
					c.Check(bytes.Equal(g8, it.u8) && fmt.Sprint(g6) == fmt.Sprint(it.u6), "item", "item %d read back as %v %v instead of %v %v", i, g8, g6, it.u8, it.u6)
				}
				c.Check(len(rd.Bytes()) == 0, "left", "%d bytes left", len(rd.Bytes()))
			})
		})

	register("S02", "one case = a valid encoding truncated, extended or corrupted (or random bytes), given to the decoder under panic interception; a decoder must refuse truncated and extended encodings and whatever it accepts must encode again to an encoding of the same length that decodes to the same object; distinct = kind x corruption x shape",
		func(r *Run) {
			r.Cases("binary", 8000, 150000, func(c *Case) {
				kind := serialKinds[c.Idx%len(serialKinds)]
				o := c.serialObject(kind)
				good, err := o.obj.MarshalBinary()
				if err != nil {
					c.Fatal("marshal/"+kind, "MarshalBinary: %v", err)
				}
				for rep := 0; rep < 6; rep++ {
					data := append([]byte{}, good...)
					mut := c.R.Intn(5)
					must := false
					switch mut {
					case 0: // truncated
						n := c.R.Intn(len(data) + 1)
						switch c.R.Intn(3) {
						case 0:
							n = c.R.Intn(24)
						case 1:
							n = len(data) - 1 - c.R.Intn(16)
						}
						if n < 0 || n >= len(data) {
							continue
						}
						data = data[:n:n]
						must = o.full
						if kind == "ring" {
							must = true
						}
					case 1: // extended
						x := make([]byte, 1+c.R.Intn(20))
						if c.R.Intn(2) == 0 {
							c.R.Read(x)
						}
						data = append(data, x...)
						must = o.full || (kind == "rtks" && len(x) < 5)
					case 2: // header bytes: sizes and flags
						for i := 1 + c.R.Intn(3); i > 0; i-- {
							k := c.R.Intn(len(data) + 1)
							if c.R.Intn(4) != 0 {
								k = c.R.Intn(16)
							}
							if k < len(data) {
								data[k] = c.headerByte()
							}
						}
					case 3: // random bytes
						data = make([]byte, c.R.Intn(64))
						for i := range data {
							data[i] = c.headerByte()
						}
					case 4: // bit flips anywhere
						for i := 1 + c.R.Intn(4); i > 0; i-- {
							if len(data) > 0 {
								k := c.R.Intn(len(data))
								data[k] ^= 1 << uint(c.R.Intn(8))
							}
						}
					}
					if kind != "ring" && c.unsafeSize(data) {
						continue
					}
					c.Feature("%s mut=%d", kind, mut)
					d := o.fresh()
					if c.R.Intn(2) == 0 {
						d.UnmarshalBinary(good)
					}
					var derr error
					if p, val, st := c.Try(func() { derr = d.UnmarshalBinary(data) }); p {
						c.report("panic/"+kind, fmt.Sprintf("decoding %d bytes (corruption %d of a %d-byte encoding) panics: %v", len(data), mut, len(good), val), st)
						continue
					}
					c.Event(1)
					if derr != nil {
						c.Count("refused", 1)
						continue
					}
					c.Count("accepted", 1)
					if !c.Check(!must, "accepted/"+kind, "decoding %d bytes (corruption %d of a %d-byte encoding) succeeds", len(data), mut, len(good)) {
						continue
					}
					var again []byte
					if p, val, st := c.Try(func() { again, derr = d.MarshalBinary() }); p || derr != nil {
						c.report("unusable/"+kind, fmt.Sprintf("object accepted from corruption %d cannot be encoded: %v %v", mut, val, derr), st)
						continue
					}
					e := o.fresh()
					if err := e.UnmarshalBinary(again); err != nil {
						c.Fail("unstable/"+kind, "object accepted from corruption %d encodes to something refused: %v", mut, err)
						continue
					}
					same := o.same(d, e)
					if !same && notANumber(d) { // equal to nothing, itself included
						third, err := e.MarshalBinary()
						same = err == nil && bytes.Equal(again, third)
					}
					c.Check(same, "unstable/"+kind, "object accepted from corruption %d changes by re-encoding", mut)
				}
			})

			r.Cases("wide", 160, 3000, func(c *Case) { c.wideSerial() })

			r.Cases("json", 1500, 20000, func(c *Case) {
				p := c.randRLWE(rlweOpts{minLogN: 4, maxLogN: 6, minQ: 1, maxQ: 3, minP: 0, maxP: 2, lo: 30, hi: 61})
				ck, err := ckks.NewParameters(p, c.R.Intn(p.LogN()), math.Exp2(30))
				if err != nil {
					c.Fatal("params-refused", "%v", err)
				}
				which := c.R.Intn(2)
				var good []byte
				if which == 0 {
					good, _ = json.Marshal(p)
				} else {
					good, _ = json.Marshal(ck)
				}
				data := append([]byte{}, good...)
				mut := c.R.Intn(5)
				refuse := false
				switch mut {
				case 0:
					data = data[:c.R.Intn(len(data))]
					refuse = true
				case 1:
					var m map[string]interface{}
					json.Unmarshal(data, &m)
					var keys []string
					for _, k := range []string{"LogN", "Q", "P", "Sigma", "H", "RingType"} {
						keys = append(keys, k)
					}
					k := keys[c.R.Intn(len(keys))]
					v := []interface{}{nil, "x", -1, 0, 1e300, []int{}, []int{0}, []int{-5}, map[string]int{}, []interface{}{1, 1}, 18, 63, []uint64{1 << 63}, []uint64{6}}[c.R.Intn(14)]
					m[k] = v
					if k == "LogN" {
						refuse = true
					}
					data, _ = json.Marshal(m)
					c.Desc("%s=%v", k, v)
				case 2:
					data = []byte([]string{"{}", "null", "[]", "1", "\"\"", "{\"LogN\":3}", "{\"LogN\":5}", "{\"LogN\":-7,\"LogQ\":[30],\"LogP\":[30]}", "{\"LogN\":5,\"LogQ\":[70],\"LogP\":[30]}", "{\"LogN\":5,\"LogQ\":[30],\"LogP\":[0]}", "{\"LogN\":5,\"LogQ\":[],\"LogP\":[]}", "{\"LogN\":5,\"Q\":[65537]}"}[c.R.Intn(12)])
					refuse = string(data) != "null"
				case 3, 4:
					k := c.R.Intn(len(data))
					data[k] ^= 1 << uint(c.R.Intn(7))
				}
				c.Feature("which=%d mut=%d %s", which, mut, truncate(string(data), 200))
				var dp rlwe.Parameters
				var dc ckks.Parameters
				call := func() error {
					if which == 0 {
						return dp.UnmarshalJSON(data)
					}
					return dc.UnmarshalJSON(data)
				}
				var derr error
				if pn, val, st := c.Try(func() { derr = call() }); pn {
					c.report("json-panic", fmt.Sprintf("UnmarshalJSON(%s) panics: %v", truncate(string(data), 300), val), st)
					return
				}
				c.Event(1)
				if derr != nil {
					c.Count("json-refused", 1)
					c.Check(which != 0 || dp.RingQ() == nil || dp.Equals(rlwe.Parameters{}), "json-partial", "a refused encoding leaves parameters behind")
					return
				}
				c.Count("json-accepted", 1)
				c.Check(!refuse, "json-accepted", "UnmarshalJSON(%s) succeeds", truncate(string(data), 300))
				if which == 0 {
					c.Check(dp.RingQ() != nil && dp.RingQ().N == dp.N(), "json-unusable", "accepted parameters have no ring")
				} else {
					c.Check(dc.RingQ() != nil && dc.RingQ().N == dc.N() && dc.LogSlots() <= dc.MaxLogSlots() && dc.LogSlots() >= 0, "json-unusable", "accepted parameters are inconsistent")
				}
			})
		})
}

// headerByte draws a byte likely to be meaningful (or extreme) in a header; sizes between 2^22 and 2^46 are avoided
// so that a decoder trusting the header fails by a panic rather than by exhausting the machine.
func (c *Case) headerByte() byte {
	switch c.R.Intn(4) {
	case 0:
		return byte(c.R.Intn(6))
	case 1:
		return []byte{0, 1, 2, 46, 60, 61, 62, 63, 64, 65, 127, 128, 254, 255}[c.R.Intn(14)]
	case 2:
		return byte(c.R.Intn(20))
	}
	return byte(64 + c.R.Intn(192))
}

// unsafeSize: some early byte, read as log2 of a degree, would ask for gigabytes from a decoder that trusts it.
func (c *Case) unsafeSize(data []byte) bool {
	for i := 0; i < len(data) && i < 16; i++ {
		if data[i] > 22 && data[i] < 46 {
			return true
		}
	}
	return false
}

func notANumber(d codec) bool {
	switch p := d.(type) {
	case *rlwe.Parameters:
		return math.IsNaN(p.Sigma())
	case *ckks.Parameters:
		return math.IsNaN(p.Sigma()) || math.IsNaN(p.DefaultScale())
	}
	return false
}

// roundTrip encodes an object and decodes it into fresh and used receivers.
func (c *Case) roundTrip(o serialObject, other func() serialObject) {
	data, err := o.obj.MarshalBinary()
	if err != nil {
		c.Fatal("marshal/"+o.kind, "MarshalBinary: %v", err)
	}
	if o.dlen >= 0 {
		c.Check(len(data) == o.dlen, "length/"+o.kind, "encoding has %d bytes, announced %d", len(data), o.dlen)
	}
	keep := append([]byte{}, data...)
	for _, recv := range []string{"fresh", "used"} {
		d := o.fresh()
		if recv == "used" {
			// a receiver which held another object of the kind
			x := other()
			xd, err := x.obj.MarshalBinary()
			if err != nil {
				c.Fatal("marshal/"+o.kind, "MarshalBinary: %v", err)
			}
			if err := d.UnmarshalBinary(xd); err != nil {
				c.Fatal("unmarshal/"+o.kind, "UnmarshalBinary of a valid encoding: %v", err)
			}
		}
		if err := d.UnmarshalBinary(data); err != nil {
			c.Fatal("unmarshal/"+o.kind, "UnmarshalBinary of a valid encoding into a %s receiver: %v", recv, err)
		}
		c.Check(o.same(o.obj, d), "value/"+o.kind+"/"+recv, "%s receiver: decoded object differs from the encoded one", recv)
		c.Check(bytes.Equal(keep, data), "input-modified/"+o.kind, "decoding modified its input")
		again, err := d.MarshalBinary()
		if err != nil {
			c.Fatal("marshal/"+o.kind, "MarshalBinary of the decoded object: %v", err)
		}
		c.Check(len(again) == len(data), "relength/"+o.kind, "re-encoding has %d bytes instead of %d", len(again), len(data))
		if o.stable {
			c.Check(bytes.Equal(again, data), "reencode/"+o.kind, "re-encoding differs")
		}
		// the object must not live in the caller's buffer
		for i := range data {
			data[i] ^= 0xa5
		}
		c.Check(o.same(o.obj, d), "shares-buffer/"+o.kind, "decoded object changes with the input buffer")
		for i := range data {
			data[i] ^= 0xa5
		}
	}
}

// wideSerial are objects with many components: counts up to what a one-byte field can tell, rows of any
// number, Galois elements up to 32 bits, rings of large degree.
func (c *Case) wideSerial() {
	kind := []string{"poly", "ring", "sk", "pk", "swk", "rlk", "rtks", "ct", "ckks-ct"}[c.Idx%9]
	c.roundTrip(c.wideObject(kind), func() serialObject { return c.wideObject(kind) })
}

func (c *Case) wideObject(kind string) serialObject {
	count := func(max int) int {
		if c.R.Intn(3) == 0 {
			return max - c.R.Intn(3)
		}
		return 1 + c.R.Intn(max)
	}
	poly := func(logN, rows int) *ring.Poly {
		v := ring.NewPoly(1<<uint(logN), rows)
		for _, row := range v.Coeffs {
			for j := range row {
				row[j] = c.R.Uint64()
			}
		}
		return flags(c.R, v)
	}
	o := serialObject{kind: kind, dlen: -1, stable: true}
	logN, rows := 4, 1+c.R.Intn(2)
	qp := func() (v rlwe.PolyQP) {
		v.Q = poly(logN, rows)
		if rows > 1 {
			v.P = poly(logN, rows-1)
		}
		return
	}
	swk := func(n int) *rlwe.SwitchingKey {
		k := &rlwe.SwitchingKey{}
		for ; n > 0; n-- {
			k.Value = append(k.Value, [2]rlwe.PolyQP{qp(), qp()})
		}
		return k
	}
	switch kind {
	case "poly", "sk", "pk":
		rows = count(255)
		for 1<<uint(logN+1)*rows <= 1<<17 && c.R.Intn(6) != 0 {
			logN++
		}
	}
	switch kind {
	case "poly":
		v := poly(logN, rows)
		o.obj, o.fresh, o.dlen = v, func() codec { return new(ring.Poly) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return samePoly(a.(*ring.Poly), b.(*ring.Poly)) }
		c.Feature("poly logN=%d rows=%d", logN, rows)
	case "ring":
		L := count(40)
		logN = 4 + c.R.Intn(8)
		t := ring.Type(c.R.Intn(2))
		R, err := ring.NewRingFromType(1<<uint(logN), pickPrimes(c.R, L, nthRootOf(1<<uint(logN), t), 40, 61), t)
		if err != nil {
			c.Fatal("ring-refused", "NewRingFromType: %v", err)
		}
		o.obj, o.fresh = R, func() codec { return new(ring.Ring) }
		o.same = func(a, b codec) bool { return sameRing(a.(*ring.Ring), b.(*ring.Ring)) }
		c.Feature("ring logN=%d L=%d", logN, L)
	case "sk":
		v := &rlwe.SecretKey{Value: qp()}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.SecretKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameQP(a.(*rlwe.SecretKey).Value, b.(*rlwe.SecretKey).Value) }
		c.Feature("sk logN=%d rows=%d", logN, rows)
	case "pk":
		v := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{qp(), qp()}}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.PublicKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool {
			x, y := a.(*rlwe.PublicKey), b.(*rlwe.PublicKey)
			return sameQP(x.Value[0], y.Value[0]) && sameQP(x.Value[1], y.Value[1])
		}
		c.Feature("pk logN=%d rows=%d", logN, rows)
	case "swk":
		v := swk(count(255))
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.SwitchingKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameSwk(a.(*rlwe.SwitchingKey), b.(*rlwe.SwitchingKey)) }
		c.Feature("swk digits=%d", len(v.Value))
	case "rlk":
		v := &rlwe.RelinearizationKey{}
		for n := count(255); n > 0; n-- {
			v.Keys = append(v.Keys, swk(1))
		}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.RelinearizationKey) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameRlk(a.(*rlwe.RelinearizationKey), b.(*rlwe.RelinearizationKey)) }
		c.Feature("rlk keys=%d", len(v.Keys))
	case "rtks":
		v := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
		for n := count(400); n > 0; n-- {
			v.Keys[uint64(c.R.Uint32()>>uint(c.R.Intn(30)))|1] = swk(1 + c.R.Intn(2))
		}
		o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.RotationKeySet) }, v.GetDataLen(true)
		o.same = func(a, b codec) bool { return sameRtks(a.(*rlwe.RotationKeySet), b.(*rlwe.RotationKeySet)) }
		o.stable = len(v.Keys) < 2
		c.Feature("rtks keys=%d", len(v.Keys))
	case "ct", "ckks-ct":
		v := &rlwe.Ciphertext{}
		for n := count(255); n > 0; n-- {
			v.Value = append(v.Value, poly(4, 1+c.R.Intn(3)))
		}
		c.Feature("%s degree=%d", kind, v.Degree())
		if kind == "ct" {
			o.obj, o.fresh, o.dlen = v, func() codec { return new(rlwe.Ciphertext) }, v.GetDataLen(true)
			o.same = func(a, b codec) bool { return sameCt(a.(*rlwe.Ciphertext), b.(*rlwe.Ciphertext)) }
			break
		}
		w := &ckks.Ciphertext{Ciphertext: v, Scale: math.Exp2(c.R.Float64() * 100)}
		o.obj, o.fresh, o.dlen = w, func() codec { return new(ckks.Ciphertext) }, w.GetDataLen(true)
		o.same = func(a, b codec) bool {
			x, y := a.(*ckks.Ciphertext), b.(*ckks.Ciphertext)
			return sameCt(x.Ciphertext, y.Ciphertext) && math.Float64bits(x.Scale) == math.Float64bits(y.Scale)
		}
	}
	return o
}
