From b00fd417de364b1220ce1ccb27e9dc0e1a6b8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 1/8] fix: compare the whole scalar part with the group order
 in IsCanonicalSignature

---
 ed25519_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..b8daeec 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -324,8 +324,8 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	sgnS := signature.GetS()
+	return sgnS.Cmp(Ed25519Group.GROUP_ORDER) < 0 && sgnS.Sign() > 0
 }
 
 // MakeSignatureCanonical return canonical signature
-- 
2.43.0


From 1df5fe1303ab155e27ff623ace305479e5fc0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 2/8] fix: return an error for ciphertexts that are not whole
 blocks instead of panicking

---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index b8daeec..db81f5a 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -94,6 +94,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 		return nil, err
 	}
 
+	if len(ciphertext) == 0 || len(ciphertext)%c.BlockSize() != 0 {
+		return nil, errors.New("blocks are corrupted, ciphertext is not a multiple of the block size")
+	}
+
 	dec := cipher.NewCBCDecrypter(c, ivData)
 	buf := make([]byte, len(ciphertext))
 	dec.CryptBlocks(buf, ciphertext)
-- 
2.43.0


From f6f93c40777548c93c7b5b3380779f97f73477a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 3/8] fix: Signature.Bytes must not write into the memory
 behind R

---
 signature.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..319a988 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,10 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	// copy into a new array: appending to ref.R could overwrite memory of the caller
+	b := make([]byte, 0, len(ref.R)+len(ref.S))
+	b = append(b, ref.R...)
+	return append(b, ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From 27c7a1a38f200bc89558239eb108089530a4a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 4/8] fix: reject negative and oversized integers in
 NewSignatureFromBigInt

---
 signature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signature.go b/signature.go
index 319a988..2b49dfc 100644
--- a/signature.go
+++ b/signature.go
@@ -37,8 +37,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
-		(rInt.Uint64() > math.MaxInt32) ||
-		(sInt.Uint64() > math.MaxInt32) {
+		(rInt.Sign() < 0) || (rInt.Cmp(big.NewInt(math.MaxInt32)) > 0) ||
+		(sInt.Sign() < 0) || (sInt.Cmp(big.NewInt(math.MaxInt32)) > 0) {
 		return nil, errBadParamNewSignatureBigInt
 	}
 
-- 
2.43.0


From ff96604ace4ae8f991daeff45e0cc7810bef8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 5/8] fix: compute v*x^2 and keep x in
 MathUtils.GetAffineXFromAffineY

---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 480e390..3bb7f3a 100644
--- a/math.go
+++ b/math.go
@@ -206,7 +206,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 	x := ref.getSqrtOfFraction(u, v)
 
 	vx2 := (&big.Int{}).Mul(v, x)
-	vx2.Mul(v, x)
+	vx2.Mul(vx2, x)
 
 	if v.Sub(vx2, u).Mod(v, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
 		if vx2.Add(vx2, u).Mod(vx2, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
@@ -216,7 +216,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 		x = x.Mul(x, ref.IntsToBigInteger(Ed25519Field.I.Raw)).Mod(x, Ed25519Field.P)
 	}
 
-	isNegative := x.Mod(x, big.NewInt(2)).Cmp(bigIntegerONE()) == 0 // final
+	isNegative := x.Bit(0) == 1 // final
 	if (shouldBeNegative && !isNegative) || (!shouldBeNegative && isNegative) {
 		x = x.Neg(x).Mod(x, Ed25519Field.P)
 	}
-- 
2.43.0


From cc503364bada72179255f4fe3468497c0e35697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 6/8] fix: MathUtils.ToGroupElement must not modify its
 argument

---
 math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 3bb7f3a..870baec 100644
--- a/math.go
+++ b/math.go
@@ -172,8 +172,9 @@ func (ref *mathUtils) ToFieldElement(b *big.Int) *Ed25519FieldElement {
 func (ref *mathUtils) ToGroupElement(bytes []byte) (*Ed25519GroupElement, error) {
 
 	shouldBeNegative := (bytes[31] >> 7) != 0
-	bytes[31] &= 0x7f
+	// clear the sign bit of the integer and not of the bytes that belong to the caller
 	y := ref.BytesToBigInteger(bytes)
+	y.SetBit(y, 255, 0)
 	x, err := ref.GetAffineXFromAffineY(y, shouldBeNegative)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fb05ec64a3112d95efde42638c7935e07b532e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 7/8] fix: convert PRECOMPUTED elements correctly in
 MathUtils.ToRepresentation

---
 math.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/math.go b/math.go
index 870baec..ce20bad 100644
--- a/math.go
+++ b/math.go
@@ -288,12 +288,10 @@ func (ref *mathUtils) ToRepresentation(g *Ed25519GroupElement, newCoorSys Coordi
 
 		return ref.getNeeCoor(x, y, newCoorSys)
 	case PRECOMPUTED:
-		// safaty gX for next calculation
-		x := (&big.Int{}).Sub(gX, gY)
-		x = x.Mul(x, gZ.Mul(gZ, big.NewInt(2))).ModInverse(x, Ed25519Field.P).Mod(x, Ed25519Field.P)
-
-		y := gX.Add(gX, gY)
-		y = y.Mul(y, big.NewInt(2)).ModInverse(y, Ed25519Field.P).Mod(y, Ed25519Field.P)
+		// (gX, gY) is (y+x, y-x)
+		two := big.NewInt(2)
+		x := xMulYModInverseAndModP((&big.Int{}).Sub(gX, gY), two)
+		y := xMulYModInverseAndModP((&big.Int{}).Add(gX, gY), two)
 		return ref.getNeeCoor(x, y, newCoorSys)
 	}
 	return nil, errors.New("NewUnsupportedOperationException")
-- 
2.43.0


From 3dc675d3fda995f47e953cbb308d79a6025878e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 8/8] fix: MathUtils point addition must not write into the
 numbers it is given

---
 math.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index ce20bad..8b85b07 100644
--- a/math.go
+++ b/math.go
@@ -540,8 +540,9 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 }
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
-	b := &x
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	// x shares its words with the number of the caller and d is of the caller: write into neither
+	b := (&big.Int{}).Set(&x)
+	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0

