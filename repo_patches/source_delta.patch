From 6bfd61887c90e62949ee746f68f4cd43c6f60f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 01/16] fix: sm3 Write reports the number of bytes it was given

---
 hash/sm3/sm3.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..8cb2bc8 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -57,13 +57,15 @@ func (d *digest) Reset() {
 
 func (d *digest) Write(input []byte) (nn int, err error) {
 
+	nn = len(input)
+
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
 	d.len += uint64(len(input))
 
 	if len(input)+idx < d.BlockSize() {
 		copy(d.b[idx:], input)
-		return
+		return nn, nil
 	}
 
 	c := d.BlockSize() - idx
@@ -76,7 +78,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From eba88a328d629d57a00f4ef7b647e427aeb4bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 02/16] fix: sha3 Sum does not change the state of the hash

---
 hash/sha3/sha3.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..8dcd752 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -206,7 +206,9 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+	// squeeze a copy so that caller can keep writing and summing
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From b98c018ab03fdcee867c64fd806d50d5f346d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 03/16] fix: cSHAKE bytepad adds no block when the prefix
 already fills one

---
 hash/sha3/shake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..cfa2dd5 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,7 +54,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - (len(buf) % w)) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 999d1d6298346e88411e47aef79e10a98180e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 04/16] fix: CTR_DRBG generates the last partial block from a
 fresh counter and the current key

---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..86b55a8 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if rem := len(out) % BlockLen; rem > 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:rem])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From 30a2c5c12dda95d41ac0c9990c5d2b33e84b0ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 05/16] fix: CTR_DRBG Init starts from zero key and V on a used
 object

---
 drbg/ctr_drbg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 86b55a8..402a75d 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,10 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Key and V start from zero also when the object is instantiated again
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
+
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From 00a55ea31ef085e201bb1458e5fb0f34824d6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 06/16] fix: AES support is read from ECX of CPUID leaf 1

---
 utils/cpuid_amd64.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..e5a3137 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,11 +23,11 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
-	_, ecx, _, _ = cpuid(7, 0)
-	X86.HasBMI2 = bitn(ecx, 8)
-	X86.HasADX = bitn(ecx, 19)
-	X86.HasRDSEED = bitn(ecx, 18)
+	_, ebx, _, _ := cpuid(7, 0)
+	X86.HasBMI2 = bitn(ebx, 8)
+	X86.HasADX = bitn(ebx, 19)
+	X86.HasRDSEED = bitn(ebx, 18)
 }
-- 
2.43.0


From f44353772b9e2b5ae957841c567b81e85759c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 07/16] fix: AES with the instruction set extension uses the
 round count of the key and rejects bad key sizes

---
 drbg/internal/aes/cipher_asm.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index e2738fd..0668459 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -21,8 +21,9 @@ func decryptBlockAsm(nr int, xk *uint32, dst, src *byte)
 func expandKeyAsm(nr int, key *byte, enc *uint32, dec *uint32)
 
 type AESAsm struct {
-	enc [32 + 28]uint32
-	dec [32 + 28]uint32
+	enc    [32 + 28]uint32
+	dec    [32 + 28]uint32
+	rounds int
 }
 
 func (c *AESAsm) SetKey(key []byte) error {
@@ -34,8 +35,11 @@ func (c *AESAsm) SetKey(key []byte) error {
 		rounds = 12
 	case 256 / 8:
 		rounds = 14
+	default:
+		return KeySizeError(len(key))
 	}
 
+	c.rounds = rounds
 	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
 	return nil
 }
@@ -52,7 +56,7 @@ func (c *AESAsm) Encrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	encryptBlockAsm(len(c.enc)/4-1, &c.enc[0], &dst[0], &src[0])
+	encryptBlockAsm(c.rounds, &c.enc[0], &dst[0], &src[0])
 }
 
 func (c *AESAsm) Decrypt(dst, src []byte) {
@@ -65,7 +69,7 @@ func (c *AESAsm) Decrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	decryptBlockAsm(len(c.dec)/4-1, &c.dec[0], &dst[0], &src[0])
+	decryptBlockAsm(c.rounds, &c.dec[0], &dst[0], &src[0])
 }
 
 // expandKey is used by BenchmarkExpand to ensure that the asm implementation
-- 
2.43.0


From b65476a719d6a425f2a9fa688ba78f5e50962460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 08/16] fix: csidh private key Import refuses input of the
 wrong length instead of panicking

---
 dh/csidh/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..afa84a0 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -197,7 +197,7 @@ func groupAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
 // PrivateKey operations
 
 func (c *PrivateKey) Import(key []byte) bool {
-	if len(key) < len(c.e) {
+	if len(key) != len(c.e) {
 		return false
 	}
 	for i, v := range key {
-- 
2.43.0


From 99c64daea704b575ae9510024be75ea3d0f3d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 09/16] fix: csidh public key Import replaces the previous key

---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index afa84a0..21a7b6d 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From a262e7ce65aea629970d87b04f2c8c5b96be9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 10/16] fix: multi-recipient CSIDH encryption resets the hash
 before its first use

---
 kem/mkem/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..58d98f4 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -94,9 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	for i, pk := range keys {
 		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From e09da7d7e9742558bdbfe3cb5ce66c5157ac7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 11/16] fix: CSIDH encryption produces nothing under an invalid
 public key

---
 kem/mkem/csidh.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 58d98f4..151c379 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -53,7 +53,10 @@ func (c *PKE) Enc(pk *csidh.PublicKey, pt *[16]byte) (ct ciphertext) {
 	var skA csidh.PrivateKey
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
-	csidh.DeriveSecret(&ss, pk, &skA, c.Rng)
+	if !csidh.DeriveSecret(&ss, pk, &skA, c.Rng) {
+		// invalid public key, ciphertext stays empty
+		return
+	}
 
 	c.H.Reset()
 	c.H.Write(ss[:])
@@ -92,7 +95,11 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
 	for i, pk := range keys {
-		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
+		if !csidh.DeriveSecret(&ss, &pk, &skA, c.Rng) {
+			// invalid public key, ciphertext stays empty
+			c.Cts[i] = [SharedSecretSz]byte{}
+			continue
+		}
 
 		c.H.Reset()
 		c.H.Write(ss[:])
-- 
2.43.0


From 05f3362aae7c4cff9b2bb06862bee41acbe69179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 12/16] fix: sidh.GeneratePrivateKey reports a failing random
 source

---
 dh/sidh/sidh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..3988910 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -310,8 +310,8 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	}
 }
 
-func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) {
-	prv.Generate(rng)
+func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) error {
+	return prv.Generate(rng)
 }
 
 func GeneratePublicKey(pub *PublicKey, prv *PrivateKey) {
-- 
2.43.0


From 44040e63ab7a4ed5041e4454e4c71874a7453153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 13/16] fix: SIDH public key Import replaces the previous key

---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From c835c6f9acfe078ecb3437fb507dcd511a4bc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 14/16] fix: SIDH private keys have the top bit of the key
 space set also for p434 A

---
 dh/sidh/sidh.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 3988910..59d474f 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -215,7 +215,8 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	// The top bit is not in the last byte if SecretBitLen is a multiple of 8.
+	prv.Scalar[(dp.SecretBitLen-1)/8] |= 1 << ((dp.SecretBitLen - 1) % 8)
 
 	return nil
 }
-- 
2.43.0


From f53fcad43f171de09ccc04a3c7a5f5eac3070dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 15/16] fix: SIKE encapsulation hashes the ciphertext, not the
 rest of a larger buffer

---
 dh/sidh/sike.go  | 2 +-
 kem/mkem/sike.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From d1f764e127ce408f9a12bc3f97b6b65a6015a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 16/16] fix: multi-recipient SIKE decapsulation re-encrypts the
 recovered message

---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..8a2635b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -351,7 +351,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0

