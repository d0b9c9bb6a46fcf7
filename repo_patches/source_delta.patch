From fc9ab098cab2c2261a3b6e4ab153bd70d1867e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 01/62] fix: ring AddScalar/SubScalar (and Bigint variants)
 write the receiver, not the operand

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..480a1b8 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From eaacc5d696772a680e005b822fd53c9c260c8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 02/62] fix: ring AddScalar/SubScalar reduce a scalar larger
 than a modulus

---
 ring/ring_operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 480a1b8..5ceebd4 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], BRedAdd(scalar, r.Modulus[i], r.BredParams[i]), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], BRedAdd(scalar, r.Modulus[i], r.BredParams[i]), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From b0685bd1c172ba0b7c00c8dd054afae097521663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 03/62] fix: ring MulByPow2 uses the Montgomery form of its
 operand when not in place

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5ceebd4..5f3c8a3 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -444,7 +444,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From 74acb8640be4f9c3967549b739ad674d12eed3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 04/62] fix: ring PreviousNTTPrime stops at the bottom of the
 range instead of wrapping around

---
 ring/primes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/primes.go b/ring/primes.go
index 532aa46..c8049ad 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -72,7 +72,7 @@ func PreviousNTTPrime(q uint64, NthRoot int) (qPrev uint64, err error) {
 
 	for !IsPrime(qPrev) {
 
-		if q < uint64(NthRoot) {
+		if qPrev < uint64(NthRoot) {
 			return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
 		}
 
-- 
2.43.0


From 05d8c1df6dd6b4e2f0c578375dda4ae9d38999ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 05/62] fix: ring Permute works at the level of its polynomials

---
 ring/ring_automorphism.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ring/ring_automorphism.go b/ring/ring_automorphism.go
index 2a68baa..0bd189e 100644
--- a/ring/ring_automorphism.go
+++ b/ring/ring_automorphism.go
@@ -138,6 +138,8 @@ func (r *Ring) Permute(polIn *Poly, gen uint64, polOut *Poly) {
 
 	logN = uint64(bits.Len64(mask))
 
+	level := utils.MinInt(polIn.Level(), polOut.Level())
+
 	for i := uint64(0); i < uint64(r.N); i++ {
 
 		indexRaw = i * gen
@@ -146,7 +148,7 @@ func (r *Ring) Permute(polIn *Poly, gen uint64, polOut *Poly) {
 
 		tmp = (indexRaw >> logN) & 1
 
-		for j, qi := range r.Modulus {
+		for j, qi := range r.Modulus[:level+1] {
 
 			polOut.Coeffs[j][index] = polIn.Coeffs[j][i]*(tmp^1) | (qi-polIn.Coeffs[j][i])*tmp
 		}
-- 
2.43.0


From 6cf0ba25639ef1d6b910b98c41ccfd99f4840058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 06/62] fix: ring MultByMonomial accepts negative degrees

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5f3c8a3..4879c67 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -458,7 +458,7 @@ func (r *Ring) MultByMonomialNew(p1 *Poly, monomialDeg int) (p2 *Poly) {
 // MultByMonomial multiplies p1 by x^monomialDeg and writes the result on p2.
 func (r *Ring) MultByMonomial(p1 *Poly, monomialDeg int, p2 *Poly) {
 
-	shift := monomialDeg % (r.N << 1)
+	shift := monomialDeg & ((r.N << 1) - 1)
 
 	if shift == 0 {
 
-- 
2.43.0


From c2da37064f204b0a7b8c59aec1f3f3ecd1d54edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 07/62] fix: ring Shift accepts any shift and never shares
 memory with its operand

---
 ring/ring_operations.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 4879c67..48220d3 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,8 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		p2.Coeffs[i] = utils.RotateUint64Slice(p1.Coeffs[i], n)
 	}
 }
 
-- 
2.43.0


From 3a770f605dba2d75e9ba139c6529c18ffd89a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 08/62] fix: ring Rotate writes its receiver and accepts any
 rotation

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 48220d3..b19059a 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -581,7 +581,7 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 	var root, gal uint64
 
-	n &= (1 << r.N) - 1
+	n &= r.N - 1
 
 	for i, qi := range r.Modulus {
 
@@ -593,7 +593,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From 9d1036937190f91d066470197627d13b0f495504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 09/62] fix: utils Rotate*Slice always return a new slice

---
 utils/utils.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..7620fb3 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -164,8 +164,8 @@ func AllDistinct(s []uint64) bool {
 
 // RotateUint64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateUint64Slice(s []uint64, k int) []uint64 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return []uint64{}
 	}
 	r := k % len(s)
 	if r < 0 {
@@ -179,8 +179,8 @@ func RotateUint64Slice(s []uint64, k int) []uint64 {
 
 // RotateInt64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateInt64Slice(s []int64, k int) []int64 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return []int64{}
 	}
 	r := k % len(s)
 	if r < 0 {
@@ -204,8 +204,8 @@ func RotateUint64Slots(s []uint64, k int) []uint64 {
 
 // RotateComplex128Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateComplex128Slice(s []complex128, k int) []complex128 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return []complex128{}
 	}
 	r := k % len(s)
 	if r < 0 {
@@ -219,8 +219,8 @@ func RotateComplex128Slice(s []complex128, k int) []complex128 {
 
 // RotateFloat64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateFloat64Slice(s []float64, k int) []float64 {
-	if k == 0 || len(s) == 0 {
-		return s
+	if len(s) == 0 {
+		return []float64{}
 	}
 	r := k % len(s)
 	if r < 0 {
-- 
2.43.0


From 7ab8ff5c0960b2f39db9d8d4c06c619d86237c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 10/62] fix: ring ModDownQPtoP divides by the product of the
 moduli of Q at levelQ

---
 ring/ring_basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 499ead1..fd5cb1f 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -271,7 +271,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelP+1; i++ {
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelP][i], ringP.Modulus[i], ringP.MredParams[i])
+		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelQ][i], ringP.Modulus[i], ringP.MredParams[i])
 	}
 
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
-- 
2.43.0


From 4d95e2c9de105dd36963a18eb8365e558d0784d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 11/62] fix: ring DivFloorByLastModulusNTTLvl reduces the
 remainder before flooring

---
 ring/ring_scaling.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..c9424ab 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -306,7 +306,7 @@ func (ss *SimpleScaler) reconstructAndScale(p1, p2 *Poly) {
 // DivFloorByLastModulusNTTLvl divides (floored) the polynomial by its last modulus. The input must be in the NTT domain.
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivFloorByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[0])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[0])
 	for i := 0; i < level; i++ {
 		r.NTTSingleLazy(i, pool.Coeffs[0], pool.Coeffs[1])
 		// (-x[i] + x[-1]) * -InvQ
-- 
2.43.0


From 4fde0f9fbca8ec04ea579c403f2df943abc803de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 12/62] fix: ring DivRoundByLastModulusLvl leaves its operand
 unmodified

---
 ring/ring_scaling.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index c9424ab..ff33cfd 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -402,12 +402,14 @@ func (r *Ring) DivRoundByLastModulusLvl(level int, p0, p1 *Poly) {
 	pj := r.Modulus[level]
 	pHalf := (pj - 1) >> 1
 
-	AddScalarVec(p0.Coeffs[level], p0.Coeffs[level], pHalf, pj)
+	// p0 is an operand: the centered remainder goes to a buffer
+	last := make([]uint64, r.N)
+	AddScalarVec(p0.Coeffs[level], last, pHalf, pj)
 
 	for i := 0; i < level; i++ {
 		qi := r.Modulus[i]
-		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p0.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
-		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
+		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p1.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
+		AddVecNoModAndMulScalarMontgomeryVec(last, p1.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From bf17de4fd3f01b88fb129b2ea4f8e1971733aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 13/62] fix: ring SimpleScaler returns values reduced modulo t

---
 ring/ring_scaling.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index ff33cfd..886ec2d 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -264,6 +264,7 @@ func (ss *SimpleScaler) reconstructThenScale(p1, p2 *Poly) {
 		if ss.r.Lsh(ss.r, 1).CmpAbs(ss.ringQ.ModulusBigint) != -1 {
 			coeff.Add(coeff, ss.one)
 		}
+		coeff.Mod(coeff, ss.tBI)
 
 		for j := range p2.Coeffs {
 			p2.Coeffs[j][i] = coeff.Uint64()
-- 
2.43.0


From bba87eeac8b012a958b7c47cbc463a34fd08b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 14/62] fix: ring TernarySampler uses each random bit once, so
 that coefficients are independent

---
 ring/ring_sampler_ternary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index 32a390d..cf2f61c 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -280,8 +280,8 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 						sign = uint8(randomBytes[bytePointer]) & 1
 
 					} else {
-						pointer = i
-						// Otherwise, the sign is the next bit of the byte
+						// Otherwise, the sign is the next bit of the byte, and is used up
+						pointer = i + 1
 						sign = uint8(randomBytes[bytePointer]>>(i+1)) & 1
 					}
 
-- 
2.43.0


From 275b2b954d89d09b7a94a2e26aa83fbc78e872e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 15/62] fix: utils EqualSlice* compare the lengths

---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index 7620fb3..3319c07 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From 5599663dc7d972863d81586d9d4d11ccc578219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 16/62] fix: ring Poly encoding and decoding set both flags and
 the number of moduli, whatever the buffer or receiver held

---
 ring/ring_poly.go | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..fbdfc71 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,7 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +235,7 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -329,13 +331,8 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer := 4
 
@@ -357,17 +354,12 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
@@ -385,17 +377,12 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
-- 
2.43.0


From ab5626d581b02124e6977fcda9e6bce3ea65efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 17/62] fix: ring Poly decoding returns an error on truncated
 or oversized input

---
 ring/ring_poly.go | 49 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index fbdfc71..fbd7994 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -185,6 +185,9 @@ func (pol *Poly) GetCoefficients() (coeffs [][]uint64) {
 // WriteCoeffsTo converts a matrix of coefficients to a byte array.
 func WriteCoeffsTo(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 3
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to write the coefficients")
+	}
 	for i := 0; i < numberModuli; i++ {
 		for j := 0; j < N; j++ {
 			binary.BigEndian.PutUint64(data[pointer+(j<<3):pointer+((j+1)<<3)], coeffs[i][j])
@@ -252,6 +255,9 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 // WriteCoeffsTo32 converts a matrix of coefficients to a byte array.
 func WriteCoeffsTo32(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 2
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to write the coefficients")
+	}
 	for i := 0; i < numberModuli; i++ {
 		for j := 0; j < N; j++ {
 			binary.BigEndian.PutUint32(data[pointer+(j<<2):pointer+((j+1)<<2)], uint32(coeffs[i][j]))
@@ -291,9 +297,21 @@ func (pol *Poly) GetDataLen(WithMetadata bool) (cnt int) {
 	return
 }
 
+// polyHeader reads the ring degree and the number of moduli of an encoded polynomial and checks that
+// data holds all its coefficients, each encoded on 2^logCoeffSize bytes.
+func polyHeader(data []byte, logCoeffSize int) (N, numberModuli int, err error) {
+	if len(data) < 4 || data[1] == 0 || (len(data)-4)>>(int(data[0])+logCoeffSize) < int(data[1]) {
+		return 0, 0, errors.New("invalid polynomial encoding")
+	}
+	return 1 << data[0], int(data[1]), nil
+}
+
 // DecodeCoeffs converts a byte array to a matrix of coefficients.
 func DecodeCoeffs(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 3
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to hold the coefficients")
+	}
 	for i := 0; i < numberModuli; i++ {
 		for j := 0; j < N; j++ {
 			coeffs[i][j] = binary.BigEndian.Uint64(data[pointer+(j<<3) : pointer+((j+1)<<3)])
@@ -307,6 +325,9 @@ func DecodeCoeffs(pointer, N, numberModuli int, coeffs [][]uint64, data []byte)
 // DecodeCoeffsNew converts a byte array to a matrix of coefficients.
 func DecodeCoeffsNew(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 3
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to hold the coefficients")
+	}
 	for i := 0; i < numberModuli; i++ {
 		coeffs[i] = make([]uint64, N)
 		for j := 0; j < N; j++ {
@@ -328,15 +349,12 @@ func (pol *Poly) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decodes a slice of byte on the target polynomial.
 func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
-
-	pol.IsNTT = data[2] == 1
-	pol.IsMForm = data[3] == 1
-
-	pointer := 4
+	N, numberModulies, err := polyHeader(data, 3)
+	if err != nil {
+		return err
+	}
 
-	if ((len(data) - pointer) >> 3) != N*numberModulies {
+	if len(data)-4 != (N*numberModulies)<<3 {
 		return errors.New("invalid polynomial encoding")
 	}
 
@@ -351,8 +369,10 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 // decoded.
 func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
+	N, numberModulies, err := polyHeader(data, 3)
+	if err != nil {
+		return 0, err
+	}
 
 	pol.IsNTT = data[2] == 1
 	pol.IsMForm = data[3] == 1
@@ -374,8 +394,10 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 // decoded.
 func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
+	N, numberModulies, err := polyHeader(data, 2)
+	if err != nil {
+		return 0, err
+	}
 
 	pol.IsNTT = data[2] == 1
 	pol.IsMForm = data[3] == 1
@@ -396,6 +418,9 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 // DecodeCoeffsNew32 converts a byte array to a matrix of coefficients.
 func DecodeCoeffsNew32(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 2
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to hold the coefficients")
+	}
 	for i := 0; i < numberModuli; i++ {
 		coeffs[i] = make([]uint64, N)
 		for j := 0; j < N; j++ {
-- 
2.43.0


From 2b213f25f553c3044fe634a565d89d8bd1624b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 18/62] fix: ring Ring.UnmarshalBinary restores the transform
 of the ring

---
 ring/ring.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..8b4153b 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -376,6 +376,17 @@ func (r *Ring) UnmarshalBinary(data []byte) error {
 	if err := r.setParameters(parameters.N, parameters.Modulus); err != nil {
 		return err
 	}
+
+	// The order of the root of unity determines the type of the ring
+	switch parameters.NthRoot {
+	case uint64(parameters.N) << 1:
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerStandard{}
+	case uint64(parameters.N) << 2:
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
+	default:
+		return errors.New("invalid NthRoot (must be 2N or 4N)")
+	}
+
 	if err := r.genNTTParams(parameters.NthRoot); err != nil {
 		return err
 	}
-- 
2.43.0


From 3eb6462aa83e8bff47b11d23af153483459ca1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 19/62] fix: ring NewRing returns an error on a zero modulus

---
 ring/ring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index 8b4153b..c78c9a6 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -213,6 +213,12 @@ func (r *Ring) setParameters(N int, Modulus []uint64) error {
 		return errors.New("invalid modulus (must be a non-empty []uint64)")
 	}
 
+	for i, qi := range Modulus {
+		if qi == 0 {
+			return fmt.Errorf("invalid modulus (Modulus[%d] is zero)", i)
+		}
+	}
+
 	if !utils.AllDistinct(Modulus) {
 		return errors.New("invalid modulus (moduli are not distinct)")
 	}
-- 
2.43.0


From 3fd3f325dcd2bdff9a30ee7307abbef8e8a0dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 20/62] fix: rlwe PolyQP encoding and decoding overwrite the
 flags of the buffer and the receiver

---
 rlwe/ring_qp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..a33595c 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -366,6 +366,8 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	data[0], data[1] = 0, 0
+
 	if p.Q != nil {
 		data[0] = 1
 	}
@@ -399,6 +401,8 @@ func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 	var inc int
 	pt = 2
 
+	p.Q, p.P = nil, nil
+
 	if data[0] == 1 {
 		p.Q = new(ring.Poly)
 		if inc, err = p.Q.DecodePolyNew(data[pt:]); err != nil {
-- 
2.43.0


From 7d538acb1a107d0bfb8b4c6f5fb6f73560857fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 21/62] fix: rlwe decoders return an error on truncated input
 and on trailing bytes

---
 rlwe/marshaler.go | 37 ++++++++++++++++++++++++++++++++-----
 rlwe/ring_qp.go   | 10 ++++++++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 5a177aa..348d46d 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -107,7 +107,10 @@ func (sk *SecretKey) MarshalBinary() (data []byte, err error) {
 
 // UnmarshalBinary decodes a previously marshaled SecretKey in the target SecretKey.
 func (sk *SecretKey) UnmarshalBinary(data []byte) (err error) {
-	_, err = sk.Value.DecodePolyNew(data)
+	pt, err := sk.Value.DecodePolyNew(data)
+	if err == nil && pt != len(data) {
+		err = errors.New("remaining unparsed data")
+	}
 	return
 }
 
@@ -141,9 +144,14 @@ func (pk *PublicKey) UnmarshalBinary(data []byte) (err error) {
 	}
 	pt += inc
 
-	if _, err = pk.Value[1].DecodePolyNew(data[pt:]); err != nil {
+	if inc, err = pk.Value[1].DecodePolyNew(data[pt:]); err != nil {
 		return
 	}
+	pt += inc
+
+	if pt != len(data) {
+		err = errors.New("remaining unparsed data")
+	}
 
 	return
 }
@@ -188,6 +196,10 @@ func (rlk *RelinearizationKey) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decodes a previously marshaled EvaluationKey in the target EvaluationKey.
 func (rlk *RelinearizationKey) UnmarshalBinary(data []byte) (err error) {
 
+	if len(data) < 1 {
+		return errors.New("too small bytearray")
+	}
+
 	deg := int(data[0])
 
 	rlk.Keys = make([]*SwitchingKey, deg)
@@ -202,6 +214,10 @@ func (rlk *RelinearizationKey) UnmarshalBinary(data []byte) (err error) {
 		pointer += inc
 	}
 
+	if pointer != len(data) {
+		return errors.New("remaining unparsed data")
+	}
+
 	return nil
 }
 
@@ -235,10 +251,15 @@ func (swk *SwitchingKey) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decode a previously marshaled SwitchingKey in the target SwitchingKey.
 func (swk *SwitchingKey) UnmarshalBinary(data []byte) (err error) {
 
-	if _, err = swk.decode(data); err != nil {
+	var pointer int
+	if pointer, err = swk.decode(data); err != nil {
 		return err
 	}
 
+	if pointer != len(data) {
+		return errors.New("remaining unparsed data")
+	}
+
 	return nil
 }
 
@@ -271,6 +292,10 @@ func (swk *SwitchingKey) encode(pointer int, data []byte) (int, error) {
 
 func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
+	if len(data) < 1 {
+		return 0, errors.New("too small bytearray")
+	}
+
 	decomposition := int(data[0])
 
 	pointer = 1
@@ -281,13 +306,11 @@ func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
 	for j := 0; j < decomposition; j++ {
 
-		swk.Value[j][0].Q = new(ring.Poly)
 		if inc, err = swk.Value[j][0].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
 		pointer += inc
 
-		swk.Value[j][1].P = new(ring.Poly)
 		if inc, err = swk.Value[j][1].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
@@ -335,6 +358,10 @@ func (rtks *RotationKeySet) UnmarshalBinary(data []byte) (err error) {
 
 	for len(data) > 0 {
 
+		if len(data) < 4 {
+			return errors.New("too small bytearray")
+		}
+
 		galEl := uint64(binary.BigEndian.Uint32(data))
 		data = data[4:]
 
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index a33595c..3c2ffc9 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -17,6 +17,8 @@
 package rlwe
 
 import (
+	"errors"
+
 	"fast-ksw/ring"
 	"fast-ksw/utils"
 )
@@ -366,6 +368,10 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	if len(data) < p.GetDataLen(true) {
+		return 0, errors.New("data array is too small to write PolyQP")
+	}
+
 	data[0], data[1] = 0, 0
 
 	if p.Q != nil {
@@ -398,6 +404,10 @@ func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 // DecodePolyNew decodes the input bytes on the target polyQP.
 func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 
+	if len(data) < 2 {
+		return 0, errors.New("invalid PolyQP encoding")
+	}
+
 	var inc int
 	pt = 2
 
-- 
2.43.0


From bd3cbdecb7cece8d4016bfb147f96c5a61abff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 22/62] fix: rlwe Parameters.MarshalJSON includes the ring type

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..5a8c519 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -479,7 +479,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From 98769f317df01d587ab74753089d05652f8f947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 23/62] fix: rlwe and ckks Parameters decoding returns an error
 on malformed input

---
 ckks/params.go | 9 +++++++--
 rlwe/params.go | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..d3b8c75 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -579,8 +579,11 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct
 func (p *Parameters) UnmarshalBinary(data []byte) (err error) {
+	if len(data) < 9 {
+		return fmt.Errorf("invalid ckks.Parameter serialization")
+	}
 	var rlweParams rlwe.Parameters
-	if err := rlweParams.UnmarshalBinary(data); err != nil {
+	if err := rlweParams.UnmarshalBinary(data[:len(data)-9]); err != nil {
 		return err
 	}
 	logSlots := int(data[len(data)-9])
@@ -602,7 +605,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
diff --git a/rlwe/params.go b/rlwe/params.go
index 5a8c519..21c91fd 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -447,7 +447,7 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct.
 func (p *Parameters) UnmarshalBinary(data []byte) error {
-	if len(data) < 11 {
+	if len(data) < 20 {
 		return fmt.Errorf("invalid rlwe.Parameter serialization")
 	}
 	b := utils.NewBuffer(data)
@@ -462,6 +462,10 @@ func (p *Parameters) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	if len(data) != 20+(lenQ+lenP)<<3 { // cf. MarshalBinarySize()
+		return fmt.Errorf("invalid rlwe.Parameter serialization")
+	}
+
 	qi := make([]uint64, lenQ)
 	pi := make([]uint64, lenP)
 	b.ReadUint64Slice(qi)
-- 
2.43.0


From f46256ab21ecfda7f4c68af3b19c5a490e92565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 24/62] fix: frlwe parameters given by the sizes of the moduli

---
 frlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index 91c749f..ec42a78 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -42,8 +42,8 @@ func NewParametersFromLiteral(pl ParametersLiteral) (params Parameters) {
 	}
 
 	moduliR := make([]uint64, 0)
-	moduliR = append(moduliR, pl.P...)
-	moduliR = append(moduliR, pl.Q...)
+	moduliR = append(moduliR, rlweParams.P()...)
+	moduliR = append(moduliR, rlweParams.Q()...)
 
 	ringR, err := ring.NewRing(N, moduliR)
 	if err != nil {
-- 
2.43.0


From 2f49fab6b29aedc432cce28702834cbabe6c36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 25/62] fix: rlwe invalid parameters are reported with an error
 and empty parameters

---
 rlwe/params.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 21c91fd..7915e53 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -109,7 +109,11 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 	copy(params.qi, q)
 	copy(params.pi, p)
 
-	return params, params.initRings()
+	if err = params.initRings(); err != nil {
+		return Parameters{}, err
+	}
+
+	return params, nil
 }
 
 // NewParametersFromLiteral instantiate a set of generic RLWE parameters from a ParametersLiteral specification.
@@ -126,6 +130,10 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 // If the RingType is left unset, the default value is ring.Standard.
 func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 
+	if err := checkSizeParams(paramDef.LogN, 0, 0); err != nil {
+		return Parameters{}, err
+	}
+
 	if paramDef.H == 0 {
 		paramDef.H = 1 << (paramDef.LogN - 1)
 	}
-- 
2.43.0


From 54f4fbe1fb76d13abef0eb3f3a2aae56c1407702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 26/62] fix: rlwe SwitchCiphertextRingDegreeNTT to a smaller
 degree writes its receiver, not its operand

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..b3ef2c0 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
-- 
2.43.0


From 1869eb478cd8ed90997bdc29279e177ef666f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 27/62] fix: rlwe Decrypt reduces its result for ciphertexts of
 every degree

---
 rlwe/decryptor.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index aa4d4c8..05a7374 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -82,9 +82,7 @@ func (d *decryptor) Decrypt(ciphertext *Ciphertext, plaintext *Plaintext) {
 		}
 	}
 
-	if (ciphertext.Degree())&7 != 7 {
-		ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
-	}
+	ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
 
 	if !plaintext.Value.IsNTT {
 		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
-- 
2.43.0


From e3b1f68cc812942377e5d92149469a7bca679bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 28/62] fix: rlwe GenSwitchingKeysForRingSwap keeps the mapped
 key out of the generator's buffers

---
 rlwe/keygen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rlwe/keygen.go b/rlwe/keygen.go
index 133a935..f3e375c 100644
--- a/rlwe/keygen.go
+++ b/rlwe/keygen.go
@@ -269,7 +269,8 @@ func (keygen *keyGenerator) genrotKey(sk PolyQP, galEl uint64, swk *SwitchingKey
 // GenSwitchingKeysForRingSwap generates the necessary switching keys to switch from a standard ring to to a conjugate invariant ring and vice-versa.
 func (keygen *keyGenerator) GenSwitchingKeysForRingSwap(skStd, skConjugateInvariant *SecretKey) (swkStdToConjugateInvariant, swkConjugateInvariantToStd *SwitchingKey) {
 
-	skCIMappedToStandard := &SecretKey{Value: keygen.poolQP}
+	// GenSwitchingKey uses the pools of the generator, so the mapped key needs its own memory.
+	skCIMappedToStandard := &SecretKey{Value: keygen.params.RingQP().NewPoly()}
 	keygen.params.RingQ().UnfoldConjugateInvariantToStandard(skConjugateInvariant.Value.Q.Level(), skConjugateInvariant.Value.Q, skCIMappedToStandard.Value.Q)
 	keygen.params.RingQ().UnfoldConjugateInvariantToStandard(skConjugateInvariant.Value.P.Level(), skConjugateInvariant.Value.P, skCIMappedToStandard.Value.P)
 
-- 
2.43.0


From 1ab5c584ffb018bd598ded9aa71ab4192dd83c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 29/62] fix: frlwe.KeyGenerator.GenSecretKey and GenPublicKey
 called themselves forever

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From 710e1b3209a83852f6afd200a18a694542d75b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 30/62] fix: fckks.Decryptor kept decrypting at the lowest
 level it had seen

---
 fckks/decryptor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fckks/decryptor.go b/fckks/decryptor.go
index a1e1227..c573ddb 100644
--- a/fckks/decryptor.go
+++ b/fckks/decryptor.go
@@ -27,8 +27,10 @@ func (dec *Decryptor) Decrypt(ctIn *ckks.Ciphertext, ptOut *ckks.Plaintext) {
 }
 
 func (dec *Decryptor) DecryptToMsg(ctIn *ckks.Ciphertext, msgOut *Message) {
-	dec.Decrypt(ctIn, dec.ptxtPool)
-	msgOut.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.LogSlots())
+	// Decrypt lowers its receiver to the level of the ciphertext, which must not outlive this call.
+	ptxt := ckks.NewPlaintextAtLevelFromPoly(ctIn.Level(), dec.ptxtPool.Value)
+	dec.Decrypt(ctIn, ptxt)
+	msgOut.Value = dec.encoder.Decode(ptxt, dec.params.LogSlots())
 }
 
 func (dec *Decryptor) DecryptToMsgNew(ctIn *ckks.Ciphertext) (msgOut *Message) {
-- 
2.43.0


From 846b87f81531a302c8575bcbf437335866af1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 31/62] fix: fckks Rotate used the level of the receiver for
 its operand and left its scale unset

---
 fckks/evaluator.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index eb99bcf..3d79f48 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -77,22 +77,29 @@ func (eval *Evaluator) RotateNew(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey)
 
 func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctOut *ckks.Ciphertext) {
 
+	level := utils.MinInt(ctIn.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 
-	eval.ksw.SwitchKey(ctOut.Level(), eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
+	ctOut.Scale = ctIn.Scale
 
-	ringQ.NTTLvl(ctOut.Level(), eval.polyQPool[1], eval.polyQPool[1])
-	ringQ.NTTLvl(ctOut.Level(), eval.polyQPool[2], eval.polyQPool[2])
+	ringQ.InvNTTLvl(level, ctIn.Value[1], eval.polyQPool[0])
+
+	eval.ksw.SwitchKey(level, eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
 
-	ringQ.AddLvl(ctOut.Level(), ctIn.Value[0], eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.AddLvl(level, ctIn.Value[0], eval.polyQPool[1], eval.polyQPool[1])
 
 	// permute ctOut
 
 	galEl := eval.params.GaloisElementForColumnRotationBy(int(rtk.Rotidx))
-	ringQ.PermuteNTTLvl(ctOut.Level(), eval.polyQPool[1], galEl, ctOut.Value[0])
-	ringQ.PermuteNTTLvl(ctOut.Level(), eval.polyQPool[2], galEl, ctOut.Value[1])
+	ringQ.PermuteNTTLvl(level, eval.polyQPool[1], galEl, ctOut.Value[0])
+	ringQ.PermuteNTTLvl(level, eval.polyQPool[2], galEl, ctOut.Value[1])
 }
 
 func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey, ctOut *ckks.Ciphertext) {
-- 
2.43.0


From 3e78ff2e1bc2eea7a7fa4a803f7a777275855894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 32/62] fix: fckks SwitchKeys refused NTT ciphertexts and
 mislabelled the domain of its result

---
 fckks/evaluator.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 3d79f48..d0099af 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -107,12 +107,33 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	ctOut.Scale = ct0.Scale
 
-	eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	isNTT := ct0.Value[1].IsNTT
+	c1 := ct0.Value[1]
+
+	// the key switcher works outside of the NTT domain
+	if isNTT {
+		ringQ.InvNTTLvl(level, c1, eval.polyQPool[0])
+		c1 = eval.polyQPool[0]
+	}
+
+	eval.ksw.SwitchKey(level, c1, swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	if isNTT {
+		ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+		ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
+	}
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.polyQPool[1], ctOut.Value[0])
 	ring.CopyValuesLvl(level, eval.polyQPool[2], ctOut.Value[1])
+
+	ctOut.Value[0].IsNTT = isNTT
+	ctOut.Value[1].IsNTT = isNTT
 }
 
 func (eval *Evaluator) SwitchKeysNew(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey) (ctOut *ckks.Ciphertext) {
-- 
2.43.0


From d3a56cb813557ec0b7136a82490e4433c801b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 33/62] fix: ckks transforms of 8 slots ran past the end of
 their vectors

The unrolled transforms work on 16 values at a time.
---
 ckks/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 949391c..128e879 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -301,7 +301,7 @@ func (ecd *encoderComplex128) GetErrSTDCoeffDomain(valuesWant, valuesHave []comp
 	logSlots := bits.Len64(uint64(len(valuesHave) - 1))
 
 	// Runs FFT^-1 with the smallest power of two length that is greater than the input size
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialiFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -410,7 +410,7 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		ecd.values[i] = 0
 	}
 
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialiFFTVec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -535,7 +535,7 @@ func (ecd *encoderComplex128) decodePublic(plaintext *Plaintext, logSlots int, s
 
 	ecd.plaintextToComplex(plaintext.Level(), plaintext.Scale, logSlots, ecd.polypool, ecd.values)
 
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
-- 
2.43.0


From fd761926d9ceec27eabdc407579243c71b3726d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 34/62] fix: ckks Encode and Embed mark their result as being
 in the NTT domain

---
 ckks/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 128e879..5ea5ad5 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -424,9 +424,11 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		complexToFixedPointCRT(p.P.Level(), ecd.values[:slots], scale, ecd.params.RingP(), p.P.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Q.Level(), logSlots, ecd.params.RingQ(), montgomery, p.Q)
 		NttAndMontgomeryLvl(p.P.Level(), logSlots, ecd.params.RingP(), montgomery, p.P)
+		p.Q.IsNTT, p.P.IsNTT = true, true
 	case *ring.Poly:
 		complexToFixedPointCRT(p.Level(), ecd.values[:slots], scale, ecd.params.RingQ(), p.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Level(), logSlots, ecd.params.RingQ(), montgomery, p)
+		p.IsNTT = true
 	default:
 		panic("invalid polyOut.(Type) must be rlwe.PolyQP or *ring.Poly")
 	}
-- 
2.43.0


From 2ea2a92666ddc2216696c3271d996ccb16b3a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 35/62] fix: ckks EncodeCoeffs clears the coefficients that it
 is given no value for

---
 ckks/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 5ea5ad5..72323d4 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -261,6 +261,11 @@ func (ecd *encoderComplex128) EncodeCoeffs(values []float64, plaintext *Plaintex
 		panic("cannot EncodeCoeffs : too many values (maximum is N)")
 	}
 	floatToFixedPointCRT(plaintext.Level(), values, plaintext.Scale, ecd.params.RingQ(), plaintext.Value.Coeffs)
+	for _, coeffs := range plaintext.Value.Coeffs {
+		for i := len(values); i < len(coeffs); i++ {
+			coeffs[i] = 0
+		}
+	}
 	ecd.params.RingQ().NTTLvl(plaintext.Level(), plaintext.Value, plaintext.Value)
 	plaintext.Value.IsNTT = true
 }
-- 
2.43.0


From a8ab9417440bc5ebb9942820f78bd5f802f3e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 36/62] fix: ckks encoding of values that scale to exactly 2^64

---
 ckks/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/utils.go b/ckks/utils.go
index 308797a..f21b1db 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -158,7 +158,7 @@ func singleFloatToFixedPointCRT(level, i int, value float64, scale float64, ring
 
 	moduli := ringQ.Modulus
 
-	if value > 1.8446744073709552e+19 {
+	if value >= 1.8446744073709552e+19 {
 		xFlo = big.NewFloat(value)
 		xFlo.Add(xFlo, big.NewFloat(0.5))
 		xInt = new(big.Int)
-- 
2.43.0


From d688742e51460216aacab9b037a41a0f08832b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 37/62] fix: ckks EncoderBigComplex decodes plaintexts outside
 of the NTT domain

---
 ckks/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 72323d4..124cfd1 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -840,7 +840,11 @@ func (ecd *encoderBigComplex) decodePublic(plaintext *Plaintext, logSlots int, s
 		panic("cannot Decode: too many slots for the given ring degree")
 	}
 
-	ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	if plaintext.Value.IsNTT {
+		ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	} else {
+		ring.CopyValuesLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	}
 
 	if sigma != 0 {
 		// B = floor(sigma * sqrt(2*pi))
-- 
2.43.0


From 4d63cd316b3a976332c2b6821207aab83fc75e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 38/62] fix: ckks encoding of few slots depended on the
 previous content of the plaintext

The unrolled NTT in dimension n < 16 mixed the coefficients past n into the result.
---
 ckks/utils.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ckks/utils.go b/ckks/utils.go
index f21b1db..62b37d8 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -68,6 +68,27 @@ func NttAndMontgomeryLvl(level int, logSlots int, ringQ *ring.Ring, montgomery b
 
 		N := ringQ.N
 		gap := N / n
+
+		// The unrolled NTT works on at least 16 coefficients
+		if n < 16 {
+			var tmp [16]uint64
+			for i := 0; i < level+1; i++ {
+				coeffs := pol.Coeffs[i]
+				copy(tmp[:n], coeffs[:n])
+				for j := range coeffs {
+					coeffs[j] = 0
+				}
+				for j := 0; j < n; j++ {
+					coeffs[j*gap] = tmp[j]
+				}
+			}
+			ringQ.NTTLvl(level, pol, pol)
+			if montgomery {
+				ringQ.MFormLvl(level, pol, pol)
+			}
+			return
+		}
+
 		for i := 0; i < level+1; i++ {
 
 			coeffs := pol.Coeffs[i]
-- 
2.43.0


From 32fc55c916fda797e4c442463015e7c288c4d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 39/62] fix: ckks MulAndAdd and MulRelinAndAdd added the wrong
 cross product

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..283920e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1295,8 +1295,8 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 		ringQ.MFormLvl(level, tmp0.Value[1], c01)
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1)
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 = c0[0]*c1[1] + c0[1]*c1[0]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From 65c425b1ee886b3139215a7d80602dcc9ddcc62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 40/62] fix: ckks Rotate and Conjugate work in place

---
 ckks/evaluator.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 283920e..8912d5b 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1458,12 +1458,14 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
-	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
-
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	// The receiver may be ct0, so the result is kept in the pools until ct0 has been read
+	c1 := eval.poolQMul[0]
+	ringQ.InvNTTLvl(level, ct0.Value[1], c1)
+	c1.IsNTT = false
+	eval.SwitchKeysInPlace(level, c1, rtk, pool2Q, pool3Q)
+
+	ringQ.NTTLvl(level, pool2Q, pool2Q)
+	ringQ.NTTLvl(level, pool3Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From 8c3f1c348194ea2b66a7a70edbf734064295e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 41/62] fix: ckks AddConst copies the other components of the
 ciphertext to the receiver

---
 ckks/evaluator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 8912d5b..864a7b4 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -537,6 +537,13 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 
 	ctOut.Scale = ct0.Scale
 
+	// The other components do not change
+	if ct0 != ctOut {
+		for i := 1; i < ct0.Degree()+1; i++ {
+			ring.CopyValuesLvl(level, ct0.Value[i], ctOut.Value[i])
+		}
+	}
+
 	// Component wise addition of the following vector to the ciphertext:
 	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
 	// [{                  N/2                }{                N/2               }]
-- 
2.43.0


From 37897fb0c56b637f9ff5ca2e2c6749c9c1196c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 42/62] fix: ckks MultByiNew and DivByiNew keep the degree of
 their operand

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 864a7b4..c451a36 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -857,7 +857,7 @@ func (eval *evaluator) MultByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.MultByi(ct0, ctOut)
 	return ctOut
 }
@@ -909,7 +909,7 @@ func (eval *evaluator) DivByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.DivByi(ct0, ctOut)
 	return
 }
-- 
2.43.0


From 8f3f82d9255e8028379ff3822afddd1a487faf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 43/62] fix: ckks Rescale stops at level 0

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index c451a36..ce05138 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1083,7 +1083,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 243db3c630effdd8aff6b255cc3a8c0dcd564d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 44/62] fix: ckks SetScale rescales by as many moduli as it
 scaled the constant up

---
 ckks/evaluator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index ce05138..77c02a4 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -971,7 +971,10 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
-	eval.MultByConst(ct, scale/ct.Scale, ct)
+	// MultByConst only adds the factor by which it had to scale the constant up to the scale of ct
+	ratio := scale / ct.Scale
+	eval.MultByConst(ct, ratio, ct)
+	ct.Scale *= ratio
 	if err := eval.Rescale(ct, scale, ct); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From f88e483ce39a8dba36e4d9a4b4e63922e8200fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 45/62] fix: ckks MulRelin left its result unreduced

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 77c02a4..6e4c58a 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1205,8 +1205,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From 66a14a6816c8eafa21f4e184a7a97602b375e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 46/62] fix: ckks products of degree one in receivers of degree
 two kept a stale component

---
 ckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6e4c58a..4f90747 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1210,6 +1210,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
+
+			ctOut.El().Resize(eval.params.Parameters, 1)
 		}
 
 		// Case Plaintext (x) Ciphertext or Ciphertext (x) Plaintext
@@ -1228,6 +1230,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		ringQ.MFormLvl(level, tmp0.Value[0], c00)
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[0], ctOut.Value[0])
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[1], ctOut.Value[1])
+
+		ctOut.El().Resize(eval.params.Parameters, 1)
 	}
 }
 
-- 
2.43.0


From 1f9f4720e5d86649454043ee0bbb49be187ef4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 47/62] fix: ckks results in receivers of a higher level kept
 stale residues

Like Add, Mul and Relinearize, the other operations now drop their receiver
to the level of the result.
---
 ckks/evaluator.go | 68 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 4f90747..19a74a3 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -159,6 +159,15 @@ func (eval *evaluator) CtxPool() *Ciphertext {
 	return eval.ctxpool
 }
 
+// ctxpoolAtLevel returns the memory pool CtxPool, limited to the given level.
+func (eval *evaluator) ctxpoolAtLevel(level int) *rlwe.Ciphertext {
+	ct := new(rlwe.Ciphertext)
+	for _, pol := range eval.ctxpool.Value {
+		ct.Value = append(ct.Value, &ring.Poly{Coeffs: pol.Coeffs[:level+1], IsNTT: pol.IsNTT})
+	}
+	return ct
+}
+
 func newEvaluatorBase(params Parameters) *evaluatorBase {
 	ev := new(evaluatorBase)
 	ev.params = params
@@ -349,7 +358,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 		if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			tmp1 = eval.ctxpool.El()
+			tmp1 = eval.ctxpoolAtLevel(level)
 
 			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
@@ -372,7 +381,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			tmp0 = eval.ctxpool.El()
+			tmp0 = eval.ctxpoolAtLevel(level)
 
 			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
@@ -395,7 +404,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			tmp0 = eval.ctxpool.El()
+			tmp0 = eval.ctxpoolAtLevel(level)
 
 			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
@@ -403,7 +412,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			tmp1 = eval.ctxpool.El()
+			tmp1 = eval.ctxpoolAtLevel(level)
 
 			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
@@ -440,6 +449,10 @@ func (eval *evaluator) Neg(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	if ct0.Degree() != ctOut.Degree() {
 		panic("cannot Negate: invalid receiver Ciphertext does not match input Ciphertext degree")
 	}
@@ -529,6 +542,10 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
 	cReal, cImag, _ := eval.getConstAndScale(level, constant)
@@ -697,6 +714,10 @@ func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
 	// Component wise multiplication of the following vector with the ciphertext:
@@ -756,6 +777,10 @@ func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag inter
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	ctOut.Scale = ct0.Scale
@@ -807,6 +832,10 @@ func (eval *evaluator) MultByGaussianIntegerAndAdd(ct0 *Ciphertext, cReal, cImag
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	for i := 0; i < level+1; i++ {
@@ -871,6 +900,10 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 	}
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 	ctOut.Scale = ct0.Scale
 
 	ringQ := eval.params.RingQ()
@@ -924,6 +957,10 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	ringQ := eval.params.RingQ()
 
 	ctOut.Scale = ct0.Scale
@@ -991,6 +1028,10 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 // MulByPow2 multiplies ct0 by 2^pow2 and returns the result in ctOut.
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 	ctOut.Scale = ct0.Scale
 	for i := range ctOut.Value {
 		eval.params.RingQ().MulByPow2Lvl(level, ct0.Value[i], pow2, ctOut.Value[i])
@@ -1016,8 +1057,14 @@ func (eval *evaluator) Reduce(ct0 *Ciphertext, ctOut *Ciphertext) error {
 		return errors.New("cannot Reduce: degrees of receiver Ciphertext and input Ciphertext do not match")
 	}
 
+	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	for i := range ct0.Value {
-		eval.params.RingQ().ReduceLvl(utils.MinInt(ct0.Level(), ctOut.Level()), ct0.Value[i], ctOut.Value[i])
+		eval.params.RingQ().ReduceLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
 
 	ctOut.Scale = ct0.Scale
@@ -1391,6 +1438,10 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 	ringQ := eval.params.RingQ()
 
 	ctOut.Scale = ct0.Scale
@@ -1418,6 +1469,9 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 	}
 
 	if k == 0 {
+		if ctOut.Level() > ct0.Level() {
+			eval.DropLevel(ctOut, ctOut.Level()-ct0.Level())
+		}
 		ctOut.Copy(ct0)
 	} else {
 
@@ -1468,6 +1522,10 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
-- 
2.43.0


From 715a2a51b58cd505c0954f16564334b963f1f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 48/62] fix: ckks SwitchKeys and Relinearize label the domain
 of their result

---
 ckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 19a74a3..e96e3d9 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1416,6 +1416,8 @@ func (eval *evaluator) Relinearize(ct0 *Ciphertext, ctOut *Ciphertext) {
 	ringQ.AddLvl(level, ct0.Value[0], eval.Pool[1].Q, ctOut.Value[0])
 	ringQ.AddLvl(level, ct0.Value[1], eval.Pool[2].Q, ctOut.Value[1])
 
+	ctOut.Value[0].IsNTT, ctOut.Value[1].IsNTT = ct0.Value[2].IsNTT, ct0.Value[2].IsNTT
+
 	ctOut.El().Resize(eval.params.Parameters, 1)
 }
 
@@ -1450,6 +1452,8 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.Pool[1].Q, ctOut.Value[0])
 	ring.CopyValuesLvl(level, eval.Pool[2].Q, ctOut.Value[1])
+
+	ctOut.Value[0].IsNTT, ctOut.Value[1].IsNTT = ct0.Value[1].IsNTT, ct0.Value[1].IsNTT
 }
 
 // RotateNew rotates the columns of ct0 by k positions to the left, and returns the result in a newly created element.
-- 
2.43.0


From 32e4912a16655e34204bee8bd655493c713c4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 49/62] fix: rlwe and frlwe overflow margins were rounded up
 for moduli just above a power of two

---
 frlwe/params.go | 2 +-
 rlwe/params.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index ec42a78..feca7ac 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -67,7 +67,7 @@ func (p Parameters) RingT() *ring.Ring {
 }
 
 func (p Parameters) TiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.ringT.Modulus[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.ringT.Modulus[:level+1]))
 }
 
 func (p Parameters) Gamma() int {
diff --git a/rlwe/params.go b/rlwe/params.go
index 7915e53..1ea7d6a 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -346,13 +346,13 @@ func (p Parameters) Beta() int {
 // QiOverflowMargin returns floor(2^64 / max(Qi)), i.e. the number of times elements of Z_max{Qi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) QiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.qi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.qi[:level+1]))
 }
 
 // PiOverflowMargin returns floor(2^64 / max(Pi)), i.e. the number of times elements of Z_max{Pi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) PiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.pi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.pi[:level+1]))
 }
 
 // GaloisElementForColumnRotationBy returns the galois element for plaintext
-- 
2.43.0


From f8326bbbda4714d9ae9057f27debdd08fbfa8060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:15 +0000
Subject: [PATCH 50/62] fix: rlwe PolyQP.Equals compares the parts that only
 one of the polynomials has

---
 rlwe/ring_qp.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 3c2ffc9..4d63ebc 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -41,14 +41,7 @@ func (p *PolyQP) Equals(other PolyQP) (v bool) {
 		return true
 	}
 
-	v = true
-	if p.Q != nil {
-		v = p.Q.Equals(other.Q)
-	}
-	if p.P != nil {
-		v = v && p.P.Equals(other.P)
-	}
-	return v
+	return p.Q.Equals(other.Q) && p.P.Equals(other.P)
 }
 
 // CopyValues copies the coefficients of p1 on the target polynomial.
-- 
2.43.0


From 43d6ef451f859e54646feb9fa0b13f013f14d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 51/62] fix: ComplexMultiplier kept the precision of the first
 operands it was used with

---
 ring/complex128.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ring/complex128.go b/ring/complex128.go
index 4743125..65ba06d 100644
--- a/ring/complex128.go
+++ b/ring/complex128.go
@@ -143,9 +143,20 @@ func NewComplexMultiplier() (cEval *ComplexMultiplier) {
 	return
 }
 
+// resetPrecision makes the temporary values take the precision of the next operands instead of the one of the
+// first operands the multiplier was used with.
+func (cEval *ComplexMultiplier) resetPrecision() {
+	cEval.tmp0.SetPrec(0)
+	cEval.tmp1.SetPrec(0)
+	cEval.tmp2.SetPrec(0)
+	cEval.tmp3.SetPrec(0)
+}
+
 // Mul multiplies two arbitrary precision complex numbers together
 func (cEval *ComplexMultiplier) Mul(a, b, c *Complex) {
 
+	cEval.resetPrecision()
+
 	cEval.tmp0.Mul(a[0], b[0])
 	cEval.tmp1.Mul(a[1], b[1])
 	cEval.tmp2.Mul(a[0], b[1])
@@ -162,6 +173,8 @@ func (cEval *ComplexMultiplier) Div(a, b, c *Complex) {
 	// tmp1 = (a[1] * b[0]) - (a[0] * b[0]) imag part
 	// tmp2 = (b[0] * b[0]) + (b[1] * b[1]) denominator
 
+	cEval.resetPrecision()
+
 	cEval.tmp0.Mul(a[0], b[0])
 	cEval.tmp1.Mul(a[1], b[1])
 	cEval.tmp2.Mul(a[1], b[0])
-- 
2.43.0


From 570eeb11c9b137a109db76d4ddaadd3dfe34ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 52/62] fix: DivRound was wrong when the receiver is the
 divisor

---
 ring/int.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ring/int.go b/ring/int.go
index c955eb8..b2f2e8c 100644
--- a/ring/int.go
+++ b/ring/int.go
@@ -53,11 +53,12 @@ func RandInt(max *big.Int) (n *big.Int) {
 // DivRound sets the target i to round(a/b).
 func DivRound(a, b, i *big.Int) {
 	_a := new(big.Int).Set(a)
-	i.Quo(_a, b)
-	r := new(big.Int).Rem(_a, b)
+	_b := new(big.Int).Set(b)
+	i.Quo(_a, _b)
+	r := new(big.Int).Rem(_a, _b)
 	r2 := new(big.Int).Mul(r, NewInt(2))
-	if r2.CmpAbs(b) != -1.0 {
-		if _a.Sign() == b.Sign() {
+	if r2.CmpAbs(_b) != -1.0 {
+		if _a.Sign() == _b.Sign() {
 			i.Add(i, NewInt(1))
 		} else {
 			i.Sub(i, NewInt(1))
-- 
2.43.0


From fce0cb3c1e2d263cae40d1bfd10ae888e974e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 53/62] fix: refuse constants of an unsupported type instead of
 treating them as zero

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index e96e3d9..c722c1c 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -529,6 +529,9 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 	case int:
 		cReal = float64(constant)
 		cImag = float64(0)
+
+	default:
+		panic("constant must either be complex128, float64, uint64, int64 or int")
 	}
 
 	if eval.params.RingType() == ring.ConjugateInvariant {
-- 
2.43.0


From a5cfd232dedb744098e465833b2b2cd3800784a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 54/62] fix: GenerateNTTPrimes refuses sizes below one bit
 instead of searching forever

---
 ring/primes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/primes.go b/ring/primes.go
index c8049ad..7e20ce8 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -31,7 +31,7 @@ func IsPrime(x uint64) bool {
 // best available deviation from the base power of 2 for the given n.
 func GenerateNTTPrimes(logQ, NthRoot, n int) (primes []uint64) {
 
-	if logQ > 61 {
+	if logQ < 1 || logQ > 61 {
 		panic("logQ must be between 1 and 61")
 	}
 
-- 
2.43.0


From 8f4a1f66851eb08782f1282d833a5072db8747fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 55/62] fix: lazy forward NTTs return values in [0, 2q-1] as
 documented

---
 ring/ring_ntt.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ring/ring_ntt.go b/ring/ring_ntt.go
index 73f4d17..5ecfb72 100644
--- a/ring/ring_ntt.go
+++ b/ring/ring_ntt.go
@@ -117,12 +117,18 @@ func invbutterfly(U, V, Psi, twoQ, fourQ, Q, Qinv uint64) (X, Y uint64) {
 
 // NTT computes the NTT on the input coefficients using the input parameters.
 func NTT(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, mredParams uint64, bredParams []uint64) {
-	NTTLazy(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams, bredParams)
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTLazy computes the NTT on the input coefficients using the input parameters with output values in the range [0, 2q-1].
 func NTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttCore computes the NTT on the input coefficients, with output values in the range [0, 8q-1].
+func nttCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var j1, j2, t int
 	var F, V uint64
 
@@ -500,12 +506,18 @@ func InvNTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsiInv []uint64, nttNInv
 
 // NTTConjugateInvariant computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1).
 func NTTConjugateInvariant(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
-	NTTConjugateInvariantLazy(coeffsIn, coeffsOut, N, nttPsi, Q, QInv, bredParams)
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTConjugateInvariantLazy computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) with output values in the range [0, 2q-1].
 func NTTConjugateInvariantLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttConjugateInvariantCore computes the NTT in the closed sub-ring, with output values in the range [0, 8q-1].
+func nttConjugateInvariantCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var t, h int
 	var F, V uint64
 	var reduce bool
-- 
2.43.0


From 415807e5b8379b008108c583ce46c2fc753d7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 56/62] fix: refuse moduli of more than 61 bits, which the
 modular arithmetic does not support

---
 rlwe/params.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 1ea7d6a..d355459 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -516,14 +516,14 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, qi := range q {
-		if uint64(bits.Len64(qi)-1) > MaxModuliSize+1 {
-			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
+		if bits.Len64(qi) > MaxModuliSize+1 {
+			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize+1)
 		}
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+2 {
-			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
+		if bits.Len64(pi) > MaxModuliSize+1 {
+			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize+1)
 		}
 	}
 
-- 
2.43.0


From 616113fda746da7d9f27c580456ab4ccc91499a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 57/62] fix: refuse auxiliary moduli T that the modular
 arithmetic does not support

---
 frlwe/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frlwe/params.go b/frlwe/params.go
index feca7ac..f830b9b 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -35,6 +35,10 @@ func NewParametersFromLiteral(pl ParametersLiteral) (params Parameters) {
 		panic("cannot NewParametersFromLiteral: rlweParams cannot be generated")
 	}
 
+	if err = rlwe.CheckModuli(pl.T, nil); err != nil {
+		panic("cannot NewParametersFromLiteral: ringT cannot be generated")
+	}
+
 	N := (1 << pl.LogN)
 	ringT, err := ring.NewRing(N, pl.T)
 	if err != nil {
-- 
2.43.0


From 685e15f9690fc9d5a213e7e304fcf024acfb2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 58/62] fix: basis extension from bases of more than 32 moduli

---
 ring/ring_basis_extension.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index fd5cb1f..0a87680 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -22,6 +22,9 @@ import (
 	"unsafe"
 )
 
+// maxBasisSize is the largest number of moduli of a basis that can be extended.
+const maxBasisSize = 100
+
 // BasisExtender stores the necessary parameters for RNS basis extension.
 // The used algorithm is from https://eprint.iacr.org/2018/117.pdf.
 type BasisExtender struct {
@@ -281,7 +284,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 func modUpExact(p1, p2 [][]uint64, ringQ, ringP *Ring, params modupParams) {
 
 	var v [8]uint64
-	var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+	var y0, y1, y2, y3, y4, y5, y6, y7 [maxBasisSize]uint64
 
 	Q := ringQ.Modulus
 	P := ringP.Modulus
@@ -401,7 +404,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 
 		var v [8]uint64
 		var vi [8]float64
-		var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+		var y0, y1, y2, y3, y4, y5, y6, y7 [maxBasisSize]uint64
 
 		Q := ringQ.Modulus
 		P := ringP.Modulus
@@ -478,7 +481,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 	}
 }
 
-func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, Q, QInv, QbMont []uint64) {
+func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxBasisSize]uint64, Q, QInv, QbMont []uint64) {
 
 	var vi [8]float64
 	var qi, qiInv, qoverqiinvqi uint64
@@ -523,7 +526,7 @@ func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4
 }
 
 // Caution, returns the values in [0, 2q-1]
-func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
+func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxBasisSize]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
 
 	var rlo, rhi [8]uint64
 	var mhi, mlo, c, hhi uint64
@@ -562,6 +565,15 @@ func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alph
 		mhi, mlo = bits.Mul64(y7[i], qoverqimodp[i])
 		rlo[7], c = bits.Add64(rlo[7], mlo, 0)
 		rhi[7] += mhi + c
+
+		// Eight terms add less than pj to the high word (moduli of at most 61 bits)
+		if i&7 == 7 {
+			for k := range rhi {
+				if rhi[k] >= pj {
+					rhi[k] -= pj
+				}
+			}
+		}
 	}
 
 	hhi, _ = bits.Mul64(rlo[0]*qInv, pj)
-- 
2.43.0


From 9f50d3dc15385893b7ab67773edd0cfac6605ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 59/62] fix: ckks Rescale without a division kept stale
 residues in a receiver of a higher level

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index c722c1c..1080839 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1149,6 +1149,9 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
+			if ctOut.Level() > ctIn.Level() {
+				eval.DropLevel(ctOut, ctOut.Level()-ctIn.Level())
+			}
 			ctOut.Copy(ctIn)
 		}
 	}
-- 
2.43.0


From 6640550453f8ed712f809cc886af1b1a2e8f59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 60/62] fix: ckks Rescale refuses ciphertexts outside of the
 NTT domain, as documented

---
 ckks/evaluator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 1080839..b30aaf8 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1131,6 +1131,12 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale : ctIn.Degree() != ctOut.Degree()")
 	}
 
+	for i := range ctIn.Value {
+		if !ctIn.Value[i].IsNTT {
+			return errors.New("cannot Rescale: input Ciphertext is not in the NTT domain")
+		}
+	}
+
 	ctOut.Scale = ctIn.Scale
 
 	var nbRescales int
-- 
2.43.0


From 954575946f205993b750a62d1356219d4c2aef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 61/62] fix: accumulate a product into one of its operands

---
 ckks/evaluator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index b30aaf8..cd77c1e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1327,6 +1327,15 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 		panic("cannot MulRelinAndAdd: input elements must be of degree 0 or 1")
 	}
 
+	// The receiver is scaled and accumulated to while the operands are still needed
+	in0, in1 := op0.El(), op1.El()
+	if in0 == ctOut.El() {
+		op0 = &Ciphertext{in0.CopyNew(), op0.ScalingFactor()}
+	}
+	if in1 == ctOut.El() {
+		op1 = &Ciphertext{in1.CopyNew(), op1.ScalingFactor()}
+	}
+
 	resScale := op0.ScalingFactor() * op1.ScalingFactor()
 
 	if ctOut.Scale < resScale {
-- 
2.43.0


From 4f297afec84a861968ff669cbeab02c72aaf55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:06 +0000
Subject: [PATCH 62/62] fix: new additive shares have the maximum level

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index b3ef2c0..ee50fec 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -47,7 +47,7 @@ type AdditiveShareBigint struct {
 // NewAdditiveShare instantiate a new additive share struct for the ring defined
 // by the given parameters at maximum level.
 func NewAdditiveShare(params Parameters) *AdditiveShare {
-	return &AdditiveShare{Value: *ring.NewPoly(params.N(), 1)}
+	return NewAdditiveShareAtLevel(params, params.MaxLevel())
 }
 
 // NewAdditiveShareAtLevel instantiate a new additive share struct for the ring defined
-- 
2.43.0

