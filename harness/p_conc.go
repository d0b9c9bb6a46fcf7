package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

// An agent works on one object of the library for a while. Everything it returns must be the same when it
// works alone and when other agents work at the same time on their own objects; masks are fresh randomness.
type agent struct {
	out   []string
	masks map[uint64]int
}

func (a *agent) put(format string, x ...interface{}) {
	a.out = append(a.out, fmt.Sprintf(format, x...))
}

func (a *agent) poly(p *ring.Poly) {
	h := uint64(14695981039346656037)
	for _, row := range p.Coeffs {
		for _, x := range row {
			h = (h ^ x) * 1099511628211
		}
	}
	a.put("%d/%v/%x", len(p.Coeffs), p.IsNTT, h)
}

func (a *agent) ct(ct *rlwe.Ciphertext) {
	for _, v := range ct.Value {
		a.poly(v)
	}
}

func (a *agent) mask(p *ring.Poly) {
	h := uint64(14695981039346656037)
	for _, x := range p.Coeffs[0] {
		h = (h ^ x) * 1099511628211
	}
	a.masks[h]++
}

type work func(a *agent, rg *rand.Rand)

// duty is a piece of work together with the ways of getting objects to do it: sole makes a new object, first is the
// original, copies are obtained from the original (by ShallowCopy, WithKey, copies of copies, or a constructor with
// the same parameters and keys).
type duty struct {
	name string
	sole func() work
	more func(k int) work
}

func runWork(w work, seed int64, steps int) (a *agent, bad string) {
	a = &agent{masks: map[uint64]int{}}
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprint(e)
		}
	}()
	rg := rand.New(rand.NewSource(seed))
	for i := 0; i < steps; i++ {
		w(a, rg)
		switch rg.Intn(4) {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(rg.Intn(50)) * time.Microsecond)
		}
	}
	return
}

// concurrently lets one agent per duty instance run at the same time and compares with solitary runs.
func (c *Case) concurrently(duties []duty, steps int) {
	type inst struct {
		d    duty
		k    int
		seed int64
		want *agent
		got  *agent
		bad  string
		w    work
	}
	var all []*inst
	for _, d := range duties {
		g := 2 + c.R.Intn(4)
		c.Feature("%s x%d", d.name, g)
		c.Count("agents_"+d.name, g)
		for k := 0; k < g; k++ {
			x := &inst{d: d, k: k, seed: c.R.Int63()}
			if k > 0 && c.R.Intn(2) == 0 {
				x.seed = all[len(all)-1].seed // the same work as another agent
			}
			var bad string
			x.want, bad = runWork(d.sole(), x.seed, steps)
			if bad != "" {
				c.Fail(d.name+"/alone", "panic in a solitary run: %s", bad)
				return
			}
			all = append(all, x)
		}
	}
	inside := c.R.Intn(2) == 0 // copies made by the goroutine that uses them
	c.Feature("inside=%v", inside)
	if !inside {
		for _, x := range all {
			x.w = x.d.more(x.k)
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, x := range all {
		wg.Add(1)
		go func(x *inst) {
			defer wg.Done()
			<-start
			w := x.w
			if w == nil {
				w = x.d.more(x.k + 1) // never the original itself
			}
			x.got, x.bad = runWork(w, x.seed, steps)
		}(x)
	}
	close(start)
	wg.Wait()
	masks := map[uint64]int{}
	for _, x := range all {
		if !c.Check(x.bad == "", x.d.name+"/panic", "panic when run concurrently: %s", x.bad) {
			continue
		}
		c.Event(len(x.got.out))
		c.Count("results_compared", len(x.got.out))
		for i := range x.want.out {
			if i >= len(x.got.out) || x.got.out[i] != x.want.out[i] {
				c.Fail(x.d.name+"/result", "agent %d, result %d differs from the solitary run: %s instead of %s", x.k, i, x.got.out[i], x.want.out[i])
				break
			}
		}
		for h, n := range x.got.masks {
			masks[h] += n
		}
	}
	for _, n := range masks {
		if n > 1 {
			c.Fail("mask-shared", "%d concurrent encryptions share their mask", n)
			break
		}
	}
	c.Count("masks_compared", len(masks))
	c.Count("agents", len(all))
}

func pick(duties []duty, rg *rand.Rand, n int) []duty {
	var out []duty
	for _, i := range rg.Perm(len(duties))[:minInt(n, len(duties))] {
		out = append(out, duties[i])
	}
	return out
}

func (c *Case) concScheme() {
	types := []ring.Type{ring.Standard, ring.ConjugateInvariant}
	rp := c.randRLWE(rlweOpts{minLogN: 5, maxLogN: 7, minQ: 2, maxQ: 5, minP: 1, maxP: 3, lo: 40, hi: 58, types: types})
	p, err := ckks.NewParameters(rp, rp.LogN()-1, math.Exp2(30))
	if err != nil {
		c.Fatal("parameters", "%v", err)
	}
	c.Feature("%s", describe(rp))
	kg := ckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair()
	sk2 := kg.GenSecretKey()
	_, s := c.skRef(rp, sk, "sk")
	R := p.RingQ()
	rot := 1 + c.R.Intn(p.N()/2)
	rlk := kg.GenRelinearizationKey(sk, 1)
	rtks := kg.GenRotationKeysForRotations([]int{rot}, p.RingType() == ring.Standard, sk)
	swk := kg.GenSwitchingKey(sk, sk2)
	slots := p.Slots()
	vals := make([]complex128, slots)
	for i := range vals {
		vals[i] = complex(c.R.Float64(), c.R.Float64())
		if p.RingType() == ring.ConjugateInvariant {
			vals[i] = complex(real(vals[i]), 0)
		}
	}
	pt := ckks.NewEncoder(p).EncodeNew(vals, p.MaxLevel(), p.DefaultScale(), p.LogSlots())
	cts := []*ckks.Ciphertext{}
	for i := 0; i < 3; i++ {
		cts = append(cts, c.randOperand(p, 1, p.MaxLevel(), p.DefaultScale()).ctOrNew(p))
	}
	keep := []interface{}{snapQP(sk.Value), snapQP(pk.Value[0]), snapQP(pk.Value[1]), snapRlk(rlk), snapRtks(rtks), snapSwk(swk), snapPoly(pt.Value)}
	var snapCts []*rlwe.Ciphertext
	for i := 0; i < 2; i++ { // some outside of the NTT domain, some of degree 2
		ct := cts[i].CopyNew()
		for _, v := range ct.Value {
			R.InvNTT(v, v)
			v.IsNTT = false
		}
		cts = append(cts, ct)
	}
	cts = append(cts, c.randOperand(p, 2, p.MaxLevel(), p.DefaultScale()).ctOrNew(p))
	for _, ct := range cts {
		snapCts = append(snapCts, snapCt(ct.Ciphertext))
	}
	opens := func(a *agent, ct *ckks.Ciphertext, lim int64) {
		l := ct.Level()
		e := phase(ct.Ciphertext, R, l, s, ct.Value[0].IsNTT).sub(coef(pt.Value, R, l, true, false)).maxAbs()
		if e.Cmp(big.NewInt(lim)) > 0 {
			a.put("level %d: opens %v away from its message", l, e)
		} else {
			a.put("level %d ok", l)
		}
		if p.N() >= 64 { // a small ephemeral secret might repeat
			a.mask(ct.Value[1])
		}
	}

	encWork := func(enc ckks.Encryptor, lim int64) work {
		return func(a *agent, rg *rand.Rand) {
			if rg.Intn(2) == 0 {
				opens(a, enc.EncryptNew(pt), lim)
				return
			}
			ct := ckks.NewCiphertext(p, 1, rg.Intn(p.MaxLevel()+1), 1)
			ct.Value[0].IsNTT = rg.Intn(2) == 0
			ct.Value[1].IsNTT = ct.Value[0].IsNTT
			enc.Encrypt(pt, ct)
			opens(a, ct, lim)
		}
	}
	encDuty := func(name string, key interface{}, other interface{}, lim int64) duty {
		base := ckks.NewEncryptor(p, key)
		return duty{name, func() work { return encWork(ckks.NewEncryptor(p, key), lim) }, func(k int) work {
			e := base
			switch {
			case k == 0:
			case k%4 == 1:
				e = base.ShallowCopy()
			case k%4 == 2:
				e = base.WithKey(key)
			case k%4 == 3:
				e = base.ShallowCopy().ShallowCopy()
			default:
				e = base.WithKey(other).WithKey(key)
			}
			return encWork(e, lim)
		}}
	}
	decWork := func(dec ckks.Decryptor) work {
		return func(a *agent, rg *rand.Rand) {
			out := ckks.NewPlaintext(p, rg.Intn(p.MaxLevel()+1), 1)
			out.Value.IsNTT = rg.Intn(2) == 0
			dec.Decrypt(cts[rg.Intn(len(cts))], out)
			a.poly(out.Value)
			a.poly(dec.DecryptNew(cts[rg.Intn(len(cts))]).Value)
		}
	}
	baseDec := ckks.NewDecryptor(p, sk)
	ecdWork := func(ecd ckks.Encoder) work {
		return func(a *agent, rg *rand.Rand) {
			v := make([]complex128, slots)
			for i := range v {
				v[i] = complex(rg.Float64(), 0)
			}
			switch rg.Intn(5) {
			case 0:
				a.poly(ecd.EncodeNew(v, rg.Intn(p.MaxLevel()+1), math.Exp2(30), p.LogSlots()).Value)
			case 1:
				a.put("%v", ecd.Decode(pt, p.LogSlots()))
			case 2:
				f := make([]float64, p.N())
				for i := range f {
					f[i] = rg.Float64()
				}
				a.poly(ecd.EncodeCoeffsNew(f, rg.Intn(p.MaxLevel()+1), math.Exp2(60)).Value)
			case 3:
				a.put("%v", ecd.DecodeCoeffs(pt))
			case 4:
				ecd.DecodePublic(pt, p.LogSlots(), 3.2)
				a.put("%v", ecd.GetErrSTDSlotDomain(v, vals, 1))
			}
		}
	}
	baseEcd := ckks.NewEncoder(p)
	ksWork := func(ks *rlwe.KeySwitcher) work {
		return func(a *agent, rg *rand.Rand) {
			l := rg.Intn(p.MaxLevel() + 1)
			c0, c1 := ring.NewPoly(p.N(), l+1), ring.NewPoly(p.N(), l+1)
			ct := cts[rg.Intn(len(cts))]
			if rg.Intn(2) == 0 || !ct.Value[1].IsNTT {
				ks.SwitchKeysInPlace(l, ct.Value[1], swk, c0, c1)
			} else {
				ks.DecomposeNTT(l, p.PCount()-1, p.PCount(), ct.Value[1], ks.PoolDecompQP)
				ks.KeyswitchHoisted(l, ks.PoolDecompQP, swk, c0, c1, ks.Pool[1].P, ks.Pool[2].P)
			}
			a.poly(c0)
			a.poly(c1)
		}
	}
	baseKs := rlwe.NewKeySwitcher(rp)
	beWork := func(be *ring.BasisExtender) work {
		return func(a *agent, rg *rand.Rand) {
			lq, lp := rg.Intn(p.MaxLevel()+1), rg.Intn(p.PCount())
			x := randPoly(rg, p.N(), p.Q())
			y := randPoly(rg, p.N(), p.P())
			z := ring.NewPoly(p.N(), p.QCount())
			w := ring.NewPoly(p.N(), p.PCount())
			switch rg.Intn(5) {
			case 0:
				be.ModUpQtoP(lq, lp, x, w)
			case 1:
				be.ModUpPtoQ(lp, lq, y, z)
			case 2:
				be.ModDownQPtoQ(lq, lp, x, y, z)
			case 3:
				be.ModDownQPtoQNTT(lq, lp, x, y, z)
			case 4:
				be.ModDownQPtoP(lq, lp, x, y, w)
			}
			a.poly(z)
			a.poly(w)
		}
	}
	baseBe := ring.NewBasisExtender(p.RingQ(), p.RingP())
	evWork := func(ev ckks.Evaluator) work {
		return func(a *agent, rg *rand.Rand) {
			x, y := cts[rg.Intn(3)], cts[rg.Intn(3)]
			var out *ckks.Ciphertext
			switch rg.Intn(14) {
			case 0:
				out = ev.MulRelinNew(x, y)
			case 1:
				out = ev.RotateNew(x, rot)
			case 2:
				out = ev.AddNew(x, y)
			case 3:
				out = ev.SubNew(x, y)
			case 4:
				out = ev.MultByConstNew(x, 3.25)
			case 5:
				out = ev.SwitchKeysNew(x, swk)
			case 6:
				out = ckks.NewCiphertext(p, 1, p.MaxLevel(), 1)
				ev.Rescale(x, 1, out)
			case 7:
				out = ev.MulNew(x, y)
				out = ev.RelinearizeNew(out)
			case 8:
				out = ckks.NewCiphertext(p, 1, p.MaxLevel(), 1)
				ev.MulRelin(x, y, out)
				ev.MulRelinAndAdd(x, y, out)
			case 9:
				out = ev.SwitchKeysNew(cts[3], swk)
			case 10:
				out = ev.RelinearizeNew(cts[5])
			case 11:
				if p.RingType() == ring.Standard {
					out = ev.ConjugateNew(x)
				} else {
					out = ev.RotateNew(x, 0)
				}
			case 12:
				out = ev.NegNew(x)
			case 13:
				out = x.CopyNew()
				ev.SetScale(out, x.Scale/3)
			}
			a.put("%v", out.Scale)
			a.ct(out.Ciphertext)
		}
	}
	key := rlwe.EvaluationKey{Rlk: rlk, Rtks: rtks}
	baseEv := ckks.NewEvaluator(p, key)
	kgWork := func(kg rlwe.KeyGenerator) work {
		return func(a *agent, rg *rand.Rand) {
			switch rg.Intn(4) {
			case 0:
				kg.GenSecretKey()
			case 1:
				k := kg.GenPublicKey(sk)
				a.mask(k.Value[1].Q)
				e := coefQP(k.Value[0], rp, p.MaxLevel(), p.PCount()-1, true, false).add(coefQP(k.Value[1], rp, p.MaxLevel(), p.PCount()-1, true, false).mul(s)).maxAbs()
				a.put("pk %v", e.Cmp(big.NewInt(bound(rp))) <= 0)
			case 2:
				k := kg.GenSwitchingKey(sk2, sk)
				a.mask(k.Value[0][1].Q)
			case 3:
				k := kg.GenRelinearizationKey(sk, 1)
				a.mask(k.Keys[0].Value[0][1].Q)
			}
		}
	}
	baseKg := rlwe.NewKeyGenerator(rp)
	ringWork := func() work {
		return func(a *agent, rg *rand.Rand) {
			l := rg.Intn(p.MaxLevel() + 1)
			x, y, z := randPoly(rg, p.N(), p.Q()), randPoly(rg, p.N(), p.Q()), ring.NewPoly(p.N(), p.QCount())
			switch rg.Intn(8) {
			case 0:
				R.NTTLvl(l, x, z)
			case 1:
				R.InvNTTLvl(l, x, z)
			case 2:
				R.MulCoeffsMontgomeryLvl(l, x, y, z)
			case 3:
				w := ring.NewPoly(p.N(), p.QCount())
				R.DivRoundByLastModulusManyNTTLvl(p.MaxLevel(), 1, x, w, z)
			case 4:
				R.PermuteNTT(x, p.GaloisElementForColumnRotationBy(rot), z)
			case 5:
				R.MulScalarBigintLvl(l, x, new(big.Int).Lsh(big.NewInt(3), 90), z)
			case 6:
				v := make([]*big.Int, p.N())
				R.PolyToBigintLvl(l, x, 1, v)
				R.SetCoefficientsBigintLvl(l, v, z)
			case 7:
				R.MulByPow2Lvl(l, x, rg.Intn(50), z)
			}
			a.poly(z)
		}
	}
	samWork := func() work {
		prng, _ := utils.NewPRNG()
		u, g, t := ring.NewUniformSampler(prng, R), ring.NewGaussianSampler(prng, R, 3.2, 19), ring.NewTernarySampler(prng, R, 0.5, false)
		return func(a *agent, rg *rand.Rand) {
			a.mask(u.ReadNew())
			e := g.ReadNew()
			a.put("%v", newRNS(p.N(), p.Q(), p.RingType()).with(e).maxAbs().Cmp(big.NewInt(19)) <= 0)
			t.ReadLvlNew(rg.Intn(p.QCount()))
		}
	}
	serWork := func() work {
		return func(a *agent, rg *rand.Rand) {
			var b []byte
			var err error
			switch rg.Intn(5) {
			case 0:
				b, err = pk.MarshalBinary()
			case 1:
				b, err = rlk.MarshalBinary()
			case 2:
				b, err = cts[0].MarshalBinary()
			case 3:
				b, err = p.MarshalBinary()
			case 4:
				b, err = swk.MarshalBinary()
				var o rlwe.SwitchingKey
				if o.UnmarshalBinary(b) != nil || !o.Equals(swk) {
					a.put("key lost")
				}
			}
			a.put("%x %v", hash64(string(b)), err)
		}
	}
	same := func(f func() work) func(k int) work { return func(int) work { return f() } }
	duties := []duty{
		encDuty("pk-encryptor", pk, sk, pkNoise(rp)+1),
		encDuty("sk-encryptor", sk, pk, bound(rp)+1),
		{"decryptor", func() work { return decWork(ckks.NewDecryptor(p, sk)) }, func(k int) work {
			d := baseDec
			switch {
			case k == 0:
			case k%3 == 1:
				d = d.ShallowCopy()
			case k%3 == 2:
				d = d.WithKey(sk)
			default:
				d = d.WithKey(sk2).ShallowCopy().WithKey(sk)
			}
			return decWork(d)
		}},
		{"encoder", func() work { return ecdWork(ckks.NewEncoder(p)) }, func(k int) work {
			e := baseEcd
			for i := 0; i < k && i < 2; i++ {
				e = e.ShallowCopy()
			}
			return ecdWork(e)
		}},
		{"keyswitcher", func() work { return ksWork(rlwe.NewKeySwitcher(rp)) }, func(k int) work {
			e := baseKs
			for i := 0; i < k && i < 2; i++ {
				e = e.ShallowCopy()
			}
			return ksWork(e)
		}},
		{"basisextender", func() work { return beWork(ring.NewBasisExtender(p.RingQ(), p.RingP())) }, func(k int) work {
			e := baseBe
			for i := 0; i < k && i < 2; i++ {
				e = e.ShallowCopy()
			}
			return beWork(e)
		}},
		{"evaluator", func() work { return evWork(ckks.NewEvaluator(p, key)) }, func(k int) work {
			if k == 0 {
				return evWork(baseEv)
			}
			return evWork(ckks.NewEvaluator(p, key))
		}},
		{"keygenerator", func() work { return kgWork(rlwe.NewKeyGenerator(rp)) }, func(k int) work {
			if k == 0 {
				return kgWork(baseKg)
			}
			return kgWork(rlwe.NewKeyGenerator(rp))
		}},
		{"ring", ringWork, same(ringWork)},
		{"samplers", samWork, same(samWork)},
		{"serialization", serWork, same(serWork)},
	}
	if p.RingType() == ring.Standard {
		bigWork := func(e ckks.EncoderBigComplex) work {
			return func(a *agent, rg *rand.Rand) {
				v := make([]*ring.Complex, slots)
				for i := range v {
					v[i] = ring.NewComplex(ring.NewFloat(rg.Float64(), 80), ring.NewFloat(rg.Float64(), 80))
				}
				switch rg.Intn(3) {
				case 0:
					a.poly(e.EncodeNew(v, rg.Intn(p.MaxLevel()+1), math.Exp2(30), p.LogSlots()).Value)
				case 1:
					a.put("%v", e.Decode(pt, p.LogSlots())[0][0])
				case 2:
					e.FFT(v, slots)
					a.put("%v %v", v[0][0], v[slots-1][1])
				}
			}
		}
		baseBig := ckks.NewEncoderBigComplex(p, 80)
		duties = append(duties, duty{"big-encoder", func() work { return bigWork(ckks.NewEncoderBigComplex(p, 80)) }, func(k int) work {
			e := baseBig
			for i := 0; i < k && i < 2; i++ {
				e = e.ShallowCopy()
			}
			return bigWork(e)
		}})
	}
	c.concurrently(pick(duties, c.R, 1+c.R.Intn(3)), 3+c.R.Intn(6))

	ok := sameQP(keep[0].(rlwe.PolyQP), sk.Value) && sameQP(keep[1].(rlwe.PolyQP), pk.Value[0]) && sameQP(keep[2].(rlwe.PolyQP), pk.Value[1]) &&
		sameRlk(keep[3].(*rlwe.RelinearizationKey), rlk) && sameRtks(keep[4].(*rlwe.RotationKeySet), rtks) && sameSwk(keep[5].(*rlwe.SwitchingKey), swk) &&
		samePoly(keep[6].(*ring.Poly), pt.Value)
	c.Check(ok, "shared-modified", "shared keys or plaintext changed")
	for i := range cts {
		c.Check(sameCt(snapCts[i], cts[i].Ciphertext), "shared-modified", "shared ciphertext changed")
	}
}

// ctOrNew gives the operand as a ciphertext.
func (o *operand) ctOrNew(p ckks.Parameters) *ckks.Ciphertext {
	if o.ct != nil {
		return o.ct
	}
	return &ckks.Ciphertext{Ciphertext: o.op.El(), Scale: o.scale}
}

// with reads a polynomial in the coefficient representation.
func (a rns) with(p *ring.Poly) rns {
	a.v = copyCoeffs(p)
	return a
}

func (c *Case) concFast() {
	pl := c.fastLit(5, false)
	p := fckks.NewParametersFromLiteral(pl)
	rp := p.Parameters.Parameters
	kg := fckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair()
	_, s := c.skRef(rp, sk, "fckks")
	rlk := kg.GenRelinKey(sk)
	rtk := kg.GenRotKey(1+c.R.Intn(p.N()/2), sk)
	R := p.RingQ()
	msg := fckks.NewMessage(p)
	for i := range msg.Value {
		msg.Value[i] = complex(c.R.Float64(), c.R.Float64())
	}
	enc0 := fckks.NewEncryptor(p, pk)
	cts := []*ckks.Ciphertext{enc0.EncryptMsgNew(msg), enc0.EncryptMsgNew(msg)}
	open0 := phase(cts[0].Ciphertext, R, cts[0].Level(), s, true)
	evWork := func() work {
		ev := fckks.NewEvaluator(p)
		return func(a *agent, rg *rand.Rand) {
			x, y := cts[rg.Intn(2)], cts[rg.Intn(2)]
			out := ckks.NewCiphertext(p.Parameters, 1, rg.Intn(p.MaxLevel()+1), x.Scale)
			switch rg.Intn(4) {
			case 0:
				ev.MulRelin(x, y, rlk, out)
			case 1:
				ev.Rotate(x, rtk, out)
			case 2:
				ev.Add(x, y, out)
			case 3:
				ev.SwitchKeys(x, rlk.Value, out)
			}
			a.ct(out.Ciphertext)
		}
	}
	encWork := func() work {
		enc, dec := fckks.NewEncryptor(p, pk), fckks.NewDecryptor(p, sk)
		return func(a *agent, rg *rand.Rand) {
			ct := enc.EncryptMsgNew(msg)
			e := phase(ct.Ciphertext, R, ct.Level(), s, true).sub(open0).maxAbs()
			a.put("%v", e.Cmp(big.NewInt(2*pkNoise(rp)+2)) <= 0)
			a.put("%v", dec.DecryptToMsgNew(cts[rg.Intn(2)]).Value)
		}
	}
	kgWork := func() work {
		kg := fckks.NewKeyGenerator(p)
		return func(a *agent, rg *rand.Rand) {
			switch rg.Intn(3) {
			case 0:
				kg.GenRelinKey(sk)
			case 1:
				kg.GenRotKey(rg.Intn(10), sk)
			case 2:
				a.mask(kg.GenPublicKey(sk).Value[1].Q)
			}
		}
	}
	same := func(f func() work) func(k int) work { return func(int) work { return f() } }
	duties := []duty{{"fast-evaluator", evWork, same(evWork)}, {"fast-encryptor", encWork, same(encWork)}, {"fast-keygenerator", kgWork, same(kgWork)}}
	var snaps []*rlwe.Ciphertext
	for _, ct := range cts {
		snaps = append(snaps, snapCt(ct.Ciphertext))
	}
	c.concurrently(pick(duties, c.R, 1+c.R.Intn(2)), 2+c.R.Intn(4))
	for i := range cts {
		c.Check(sameCt(snaps[i], cts[i].Ciphertext), "shared-modified", "shared ciphertext changed")
	}
}

// concConstruct builds parameters, rings and everything on top of them at the same time.
func (c *Case) concConstruct() {
	N := 1 << uint(4+c.R.Intn(3))
	ps := pickPrimes(c.R, 5, uint64(2*N), 40, 58)
	w := func() work {
		return func(a *agent, rg *rand.Rand) {
			rp, err := rlwe.NewParameters(bitlen(N)-1, ps[:3], ps[3:], N/2, 3.2, ring.Standard)
			a.put("%v", err)
			p, err := ckks.NewParameters(rp, 2, 1<<30)
			a.put("%v %v", err, p.Equals(p))
			x := randPoly(rg, N, ps[:3])
			p.RingQ().NTT(x, x)
			a.poly(x)
			a.put("%s", strings.Join(strings.Fields(fmt.Sprint(ckks.NewEncoder(p).Decode(&ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: x}, Scale: 1 << 30}, 2))), ","))
			ckks.NewEvaluator(p, rlwe.EvaluationKey{})
			kg := rlwe.NewKeyGenerator(rp)
			kg.GenKeyPair()
			if lit := ckks.DefaultParams[0]; rg.Intn(8) == 0 {
				lit.LogN = 10
				lit.LogSlots = 5
				_, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: 10, LogQ: []int{40, 35}, LogP: []int{40}, LogSlots: 5, DefaultScale: 1 << 30})
				a.put("%v", err)
			}
		}
	}
	c.concurrently([]duty{{"constructors", w, func(int) work { return w() }}}, 3)
}

func bitlen(n int) (l int) {
	for ; n > 0; n >>= 1 {
		l++
	}
	return
}

func init() {
	register("T01", "one case = one to three kinds of objects, each kind with 2 to 5 goroutines working at the same time on the original, its shallow copies, re-keyed copies or separately built objects over shared parameters, rings, keys and ciphertexts, with yields and sleeps injected; the race detector watches every access and every result is compared with a solitary run; distinct = parameters x kinds x numbers of goroutines",
		func(r *Run) {
			r.Serial("scheme", 300, 8000, func(c *Case) { c.concScheme() })
			r.Serial("fast", 60, 1500, func(c *Case) { c.concFast() })
			r.Serial("construct", 20, 400, func(c *Case) { c.concConstruct() })
		}).race = true
}
