From 6174a0d310d1077401b8f0865141153e09ce91c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 01/29] fix: Fp25519 reduced-radix cmp reported some distinct
 elements as equal

Only bit 0 of the accumulated byte difference was returned, so elements whose
byte differences are all even (e.g. 0 and 2) compared equal.
---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..12faa84 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -434,7 +434,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519);
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From b8feb440e4924019539ff29757430606433da3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 02/29] fix: Fp25519 reduced-radix ser dropped the carry of the
 final fold

---
 src/eltfp25519_1w_redradix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 12faa84..6dcab9d 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -411,6 +411,11 @@ DECL(void, ser)(uint8_t *buf, argElement_1w a) {
   "xorl  %%ecx, %%ecx ;"
   "addq  %%rax,  %%r8 ;"
   "adcq  %%rcx,  %%r9 ;"
+  "adcq     $0, %%r10 ;"
+  "adcq     $0, %%r11 ;"
+  "sbbq  %%rax, %%rax ;"
+  "andl    $38, %%eax ;"
+  "addq  %%rax,  %%r8 ;"
 
   "movq  %%r8,   (%0) ;"
   "movq  %%r9,  8(%0) ;"
-- 
2.43.0


From 24a45dc03283be780fee57a55a942f6eddb25d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 03/29] fix: Fp25519 srt returned wrong square roots

The numerator aliased the output, which is overwritten before the final check
uses the numerator; the 4-way variant in addition multiplied every lane by
sqrt(-1) unconditionally.
---
 src/eltfp25519_1w_fullradix.c |  4 +++-
 src/eltfp25519_1w_redradix.c  |  4 +++-
 src/eltfp25519_4w_redradix.c  | 15 +++++++++++----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index de0dc1d..52a5d68 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1516,7 +1516,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 #undef sqrn_Fp255_1w_fullradix
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_fullradix u;
+  FN(copy)(u, c);
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 6dcab9d..fee79e5 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -806,7 +806,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 }
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_redradix u;
+  FN(copy)(u, c);
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(void, rand)(argElement_1w a) {
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..416d526 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -883,13 +883,20 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   FN(mul)(uv, uv3, v); /* v*B^2 */
   FN(neg)(u);
 
-  // if (FN(cmp)(uv, u) == ZERO) {
-    FN(mul)(uv_p38, uv_p38, sqrt_minus_one);/* (√-1)*B */
-  // }
+  /* Lanes where v*B^2 == -u are multiplied by √-1, the others by 1. */
+  const __m256i mask = _mm256_cmpeq_epi64(FN(cmp)(uv, u), ZERO);
+  int i = 0;
+  for (i = 0; i < NUM_DIGITS_FP25519; i++) {
+    sqrt_minus_one[i] = AND(sqrt_minus_one[i], mask);
+  }
+  sqrt_minus_one[0] = ADD(sqrt_minus_one[0], ANDNOT(mask, SET164(1)));
+  FN(mul)(uv_p38, uv_p38, sqrt_minus_one);
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_4w_redradix u;
+  FN(copy)(u, c);
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(argElement_4w,alloc)(void) {
-- 
2.43.0


From 955f686aa9217fe2bf355ebd7caff12a93e870c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 04/29] fix: Fp25519 4-way neg was bound to the 2-way function

---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From b8c49691216145c229c89bb9f0692942a337fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 05/29] fix: Fp448 intmul2/intsqr2/reduce2 used byte counts as
 word offsets

The second operand was read, and the second result written, out of bounds.
---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..38a751e 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -863,17 +863,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -890,17 +890,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -917,12 +917,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From b4827d04957d4b203bf53398c9cc56ec5abfacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 06/29] fix: Fp448 reduced-radix ser dropped the carries of the
 final fold

---
 src/eltfp448_1w_redradix.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..96b4d28 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -426,9 +426,17 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
   c[5] = (c[4]>>64) + (a[11]<<(16+BASE_FP448))  + (a[9 ]<<16);
   c[6] = (c[5]>>64) + (a[15]<<(8+BASE_FP448))   + (a[13]<<8);
 
-  tmp = (c[6]>>64);
-  c[0] += tmp;
-  c[3] += tmp<<(4+BASE_FP448);
+  for(i=0;i<2;i++)
+  {
+    tmp = (c[6]>>64);
+    c[0] =              (uint64_t)c[0] + tmp;
+    c[1] = (c[0]>>64) + (uint64_t)c[1];
+    c[2] = (c[1]>>64) + (uint64_t)c[2];
+    c[3] = (c[2]>>64) + (uint64_t)c[3] + (tmp<<(4+BASE_FP448));
+    c[4] = (c[3]>>64) + (uint64_t)c[4];
+    c[5] = (c[4]>>64) + (uint64_t)c[5];
+    c[6] = (c[5]>>64) + (uint64_t)c[6];
+  }
 
   for(i=0;i<NUM_DIGITS_FP448_X64;i++)
   {
-- 
2.43.0


From 59dbde342ce2b0a6ed6bd7bd8e070d0a1182ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 07/29] fix: Fp448 reduced-radix prime() wrote digit 8 in the
 slot of digit 4

---
 src/eltfp448_1w_redradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 96b4d28..5049a0c 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -764,14 +764,14 @@ DECL(argElement_1w, alloc)(void) {
 
 DECL(void, prime)(argElement_1w a) {
   a[0] = 0xfffffff;
-  a[1] = 0xfffffff;
+  a[1] = 0xffffffe;
   a[2] = 0xfffffff;
   a[3] = 0xfffffff;
   a[4] = 0xfffffff;
   a[5] = 0xfffffff;
   a[6] = 0xfffffff;
   a[7] = 0xfffffff;
-  a[8] = 0xffffffe;
+  a[8] = 0xfffffff;
   a[9] = 0xfffffff;
   a[10] = 0xfffffff;
   a[11] = 0xfffffff;
-- 
2.43.0


From 4f49a733f375dfc793a2fa3a511f765c695ecddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 08/29] fix: Fp448 4-way new_compressfast2 discarded bits 56
 and up of each digit

---
 src/eltfp448_4w_redradix.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 67cf7f1..b7a31cc 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -603,7 +603,6 @@ DECL(void, new_compressfast2)(argElement_4w C,argElement_4w D) {
   for(i=0;i<NUM_DIGITS_FP448;i++)
   {
     M0[i] = SHR(C[i], BASE_FP448);					M1[i] = SHR(D[i], BASE_FP448);
-    M0[i] = AND(M0[i], mask);                       M1[i] = AND(M1[i], mask);
     C[i] = AND(C[i], mask);                         D[i] = AND(D[i], mask);
   }
 
-- 
2.43.0


From 9e393749110526d0c6cca958da37de37bd4d92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 09/29] fix: Fp448 mula24 assembly did not declare that it
 reads and writes memory

---
 src/eltfp448_1w_fullradix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 38a751e..3980c93 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -1178,8 +1178,8 @@ DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
@@ -1225,8 +1225,8 @@ DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 75c4e9e046de07a535f9b37b324b142c9a4f9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 10/29] fix: Ed448 scalar arithmetic dropped carries past the
 top product word

---
 src/bytestring.c | 15 +++++++++++----
 src/edwards448.c | 10 +++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..2ed3e57 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -76,20 +76,27 @@ static inline void word64_multiplier(
     uint64_t *C,
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
-  int i, j;
+  int i, j, k;
+  uint64_t carry;
 #define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
+            "movq 0(%4), %%rax     ;"\
+            "mulq 0(%5)            ;"\
             "addq %%rax, %0        ;"\
             "adcq %%rdx, %1        ;"\
             "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
+            "adcq $0x0,  %3        ;"\
+    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2]),"+r" (carry)\
     :/* in   */ "r" (X),"r" (Y)\
     :/* regs */ "memory","cc","%rax","%rdx");
 
   for (i = 0; i < numA; i++) {
     for (j = 0; j < numB; j++) {
+      carry = 0;
       mul64x64(C + i + j, A + i, B + j);
+      for (k = i + j + 3; k <= numA + numB; k++) {
+        C[k] += carry;
+        carry = C[k] < carry;
+      }
     }
   }
 #undef mul64x64
diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..0e3a7d8 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -36,8 +36,8 @@
  */
 static inline void modular_reduction_ed448(uint8_t *a) {
 	int i;
-	const uint64_t ellx4[4] = {0x721cf5b5529eec34,0x7a4cf635c8e9c2ab,0xeec492d944a725bf,0x20cd77058};
-	const uint64_t ell[4]   = {0xdc873d6d54a7bb0d,0xde933d8d723a70aa,0x3bb124b65129c96f,0x08335dc16};
+	const uint64_t ellx4[7] = {0x721cf5b5529eec34,0x7a4cf635c8e9c2ab,0xeec492d944a725bf,0x20cd77058};
+	const uint64_t ell[7]   = {0xdc873d6d54a7bb0d,0xde933d8d723a70aa,0x3bb124b65129c96f,0x08335dc16};
 	uint64_t *pA = (uint64_t *)a;
 
 	ALIGN uint64_t product[15];
@@ -63,17 +63,17 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,4);
+	word64_multiplier(product,ellx4,7,high,4);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,ellx4,7,high,1);
 
 	high[0] = product[6]>>62;
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	word64_multiplier(product,ell,7,high,1);
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
-- 
2.43.0


From 7363e7498fd4bdf891723f162dd2d78d5158e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 11/29] fix: SHA-3 sponge broke strict aliasing and returned
 wrong digests at -O2/-O3

---
 third_party/sha3.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..ff30e67 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -37,7 +37,10 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+/* Lanes are accessed in byte buffers, so they may alias any other type. */
+typedef uint64_t __attribute__((__may_alias__)) keccak_lane;
+
+static void KeccakF2(keccak_lane *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +402,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((keccak_lane *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +432,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((keccak_lane *) state->s);
 
 	memcpy(hashval, state->s, state->r / 8);
 
@@ -447,14 +450,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((keccak_lane *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((keccak_lane *) state->s);
 		j += r;
 		d_byte -= r;
 	}
@@ -506,7 +509,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((keccak_lane *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -518,7 +521,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((keccak_lane *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -527,7 +530,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2((keccak_lane *) s);
 		j += r;
 		d_byte -= r;
 	}
@@ -555,7 +558,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((keccak_lane *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -567,7 +570,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((keccak_lane *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -576,7 +579,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2((keccak_lane *) s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From da0bf6bd317941bbd8831aa293fd059d8138825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 12/29] fix: Ed25519 verification rejected some valid
 signatures (subtraction offset too small)

---
 src/edwards255.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..1aaac98 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1197,17 +1197,17 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 	return i;
 }
 
-static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+static const ALIGN uint64_t CONST_2_to_36P_4w[4*NUM_DIGITS_FP25519] = {
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0xffffff800000000,0xffffff800000000,0xffffff800000000,0xffffff800000000
 };
 /**
  * Computes the doubling of ONE point
@@ -1225,7 +1225,7 @@ static inline void _1way_mixadd_4w_H0H5(PointXYTZ_4w_H0H5 * Q, PointXYTZ_precomp
   };
   int i;
   EltFp25519_4w_redradix ABCD, subYX_addYX_T_Z;
-  argElement_4w _2_to_34P = (argElement_4w) CONST_2_to_35P_4w;
+  argElement_4w _2_to_34P = (argElement_4w) CONST_2_to_36P_4w;
   argElement_4w _2P_00_00_00 = (argElement_4w) CONST_2P_00_00_00;
   argElement_4w XYTZ = Q->XYTZ;
   argElement_4w EGHF = subYX_addYX_T_Z;
@@ -1265,7 +1265,7 @@ static inline void _1way_mixadd_4w_H0H5(PointXYTZ_4w_H0H5 * Q, PointXYTZ_precomp
 static inline void _1way_doubling_4w_H0H5(PointXYTZ_4w_H0H5 * P) {
   int i;
   EltFp25519_4w_redradix ABEC, XYZZ;
-  argElement_4w _2_to_34P = (argElement_4w) CONST_2_to_35P_4w;
+  argElement_4w _2_to_34P = (argElement_4w) CONST_2_to_36P_4w;
   argElement_4w XYTZ = P->XYTZ;
   argElement_4w FHEG = ABEC;
   argElement_4w EGHF = XYZZ;
-- 
2.43.0


From 129522e0534c9d619fe74bef1198a4782bf68a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 13/29] fix: EdDSA verification accepted signatures with S >= L
 (malleability)

---
 src/bytestring.c | 14 ++++++++++++++
 src/sign255.c    | 11 +++++++++++
 src/sign448.c    | 16 ++++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/src/bytestring.c b/src/bytestring.c
index 2ed3e57..5603c2a 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -54,6 +54,20 @@ static inline int cmp_bytes(uint8_t *a, uint8_t *b, size_t num_bytes) {
   return ret;
 }
 
+/**
+ * Compares two little-endian numbers of num_bytes bytes.
+ *
+ * @return 1 if a < b, otherwise 0.
+ */
+static inline int is_less_than_bytes(const uint8_t *a, const uint8_t *b, size_t num_bytes) {
+  while (num_bytes-- > 0) {
+    if (a[num_bytes] != b[num_bytes]) {
+      return a[num_bytes] < b[num_bytes];
+    }
+  }
+  return 0;
+}
+
 static uint8_t * allocate_bytes(size_t num_bytes) {
   return (uint8_t *) _mm_malloc(num_bytes, ALIGN_BYTES);
 }
diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..64151f8 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -473,6 +473,13 @@ static inline int ed25519_verify_all(
   Ed25519_Digest H_RAM, pre_hash_message;
   PointXYTZ_4w_H0H5 A;
   Ed25519_Signature Q;
+  /* Order of the main subgroup (little-endian). */
+  const uint8_t order[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+      0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+  };
   unsigned char prefix[34] = "SigEd25519 no Ed25519 collisions";
 
   if (pureEdDSA == 0 && context_length > 255) {
@@ -487,6 +494,10 @@ static inline int ed25519_verify_all(
   if(point_decoding_ed25519(&A, NULL, (uint8_t *) public_key)!=0)
     return EDDSA_ERROR_PUBLICKEY;
 
+  /* RFC-8032 (5.1.7): S must be in the range 0 <= S < L. */
+  if (!is_less_than_bytes(signature + ED25519_KEY_SIZE_BYTES_PARAM, order, ED25519_KEY_SIZE_BYTES_PARAM))
+    return EDDSA_INVALID_SIGNATURE;
+
   sph_sha512_init(&hash_context);
   if (pureEdDSA == 0) {
     sph_sha512(&hash_context, prefix, 34);
diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..4fd00d6 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -266,6 +266,17 @@ static int ed448_verify_all(
   PointXYTZ_4w_H0H8 A;
   Ed448_Signature Q;
   hashState hash;
+  /* Order of the main subgroup (little-endian). */
+  const uint8_t order[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23,
+      0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4,
+      0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f,
+      0x00
+  };
   unsigned char prefix[10] = "SigEd448";
 
   if (context_length > 255) {
@@ -297,6 +308,11 @@ static int ed448_verify_all(
     return EDDSA_ERROR_PUBLICKEY;
   }
 
+  /* RFC-8032 (5.2.7): S must be in the range 0 <= S < L. */
+  if (!is_less_than_bytes(signature + ED448_KEY_SIZE_BYTES_PARAM, order, ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From 57a68e882602761ef0d52ae477ee083db9f8f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 14/29] fix: Ed25519 verification accepted public keys that do
 not decode to a point

---
 src/edwards255.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 1aaac98..d97db4c 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1092,7 +1092,7 @@ static inline int point_decoding_ed25519(
       0x8cc740797779e898,
       0x52036cee2b6ffe73
   };
-  EltFp25519_1w_fullradix X, Y, T, u, v;
+  EltFp25519_1w_fullradix X, Y, T, u, v, w;
   EltFp25519_1w_fullradix one = {0};
   uint8_t bit_X;
 
@@ -1102,6 +1102,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  /*  RFC-8032 (5.1.3): y must be smaller than p */
+  modp_Fp255_1w_fullradix(Y);
+  if (cmp_bytes((uint8_t *) Y, (uint8_t *) u, SIZE_FP25519) != 0) {
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1111,11 +1116,24 @@ static inline int point_decoding_ed25519(
   /*  v = dy^2+1 */
   Fp25519._1w_full.arith.add(v, v, one);
   /*  X = sqrt(u/v) */
+  Fp25519._1w_full.arith.misc.copy(w, u);
   invsqrt_Fp255_1w_fullradix(X, u, v);
+  /*  Checking whether v*X^2 == u */
+  Fp25519._1w_full.arith.misc.copy(T, X);
+  Fp25519._1w_full.arith.sqr(T);
+  Fp25519._1w_full.arith.mul(T, T, v);
+  if (Fp25519._1w_full.arith.cmp(T, w) != 0) {
+    /* no square root exists */
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
   modp_Fp255_1w_fullradix(X);
+  if (bit_X == 1 && (X[0] | X[1] | X[2] | X[3]) == 0) {
+    /* zero has no negative representation */
+    return -1;
+  }
   if (bit_X == (X[0] & 0x1)) {
     Fp25519._1w_full.arith.neg(X);
   }
-- 
2.43.0


From 322bf032d71afca7365330c519adc73b07b4f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 15/29] fix: Ed448 key decoding accepted non-canonical
 encodings and rejected y = 0

---
 src/edwards448.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 0e3a7d8..314b809 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -791,6 +791,8 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
+  EltFp448_1w_redradix one, zero;
+  ALIGN uint8_t encoded[SIZE_FP448];
   Ed448_PublicKey buf;
 
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
@@ -798,13 +800,22 @@ static int point_decoding_ed448(
 
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
   Fp448._1w_red.arith.misc.unser(Y, buf);
+  /* RFC-8032 (5.2.3): y must be smaller than p */
+  Fp448._1w_red.arith.misc.ser(encoded, Y);
+  if (buf[ED448_KEY_SIZE_BYTES_PARAM - 1] != 0 || memcmp(encoded, buf, SIZE_FP448) != 0) {
+    return -1;
+  }
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
 
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.misc.zero(one);
+  one[0] = 1;
+  Fp448._1w_red.arith.sub(u, u, one);  /* u=y^2-1 */
+  Fp448._1w_red.arithex.compressfast(u);
+  Fp448._1w_red.arith.sub(v, v, one);  /* v=dy^2-1 */
+  Fp448._1w_red.arithex.compressfast(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
@@ -835,6 +846,13 @@ static int point_decoding_ed448(
    * Checking whether
    *      X is positive or negative
    **/
+  Fp448._1w_red.arith.misc.ser(encoded, X);
+  Fp448._1w_red.arith.misc.unser(X, encoded);
+  Fp448._1w_red.arith.misc.zero(zero);
+  if (bit_X == 1 && Fp448._1w_red.arith.cmp(X, zero) == 0) {
+    /* zero has no negative representation */
+    return -1;
+  }
   if ((unsigned) bit_X != (X[0] & 0x1)) {
     Fp448._1w_red.arith.neg(X);
     Fp448._1w_red.arithex.compressfast(X);
-- 
2.43.0


From e12eeb3fef7807fa0f6ad8efb12424159523d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 16/29] fix: SHA-3 Final wrote the whole sponge rate past the
 end of the digest

---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index ff30e67..270d6df 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -434,7 +434,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 
 	KeccakF2((keccak_lane *) state->s);
 
-	memcpy(hashval, state->s, state->r / 8);
+	memcpy(hashval, state->s, state->hashbitlen / 8);
 
 	return SUCCESS;
 }
-- 
2.43.0


From 720f18d8d67c6f101fa5f3727ea1c4f8e3e75fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 17/29] fix: SHAKE read unaligned messages through aligned
 64-bit pointers

---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 270d6df..fc284e7 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -38,7 +38,7 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 		};
 
 /* Lanes are accessed in byte buffers, so they may alias any other type. */
-typedef uint64_t __attribute__((__may_alias__)) keccak_lane;
+typedef uint64_t __attribute__((__may_alias__, __aligned__(1))) keccak_lane;
 
 static void KeccakF2(keccak_lane *state) {
 
-- 
2.43.0


From 4c00a187f0d7d2e486dfafcded6a93eb55948af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 18/29] fix: random bytes were left unfilled when reading the
 system source failed or was interrupted

---
 third_party/prng.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..2d4a31a 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -9,6 +9,7 @@
  * @param buffer
  * @param num_bytes
  */
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
@@ -17,14 +18,17 @@ void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
 
   if (fd == -1) {
     printf("Error opening /dev/urandom\n");
+    abort();
   }
 
   l = 0;
   do {
     c = read(fd, buffer + l, num_bytes - l);
-    l += c;
-    if (c == -1) {
+    if (c > 0) {
+      l += c;
+    } else if (c < 0 && errno != EINTR) {
       printf("Error reading /dev/urandom\n");
+      abort();
     }
   } while (l < num_bytes);
 
-- 
2.43.0


From 965f913faae78249e3f09378b8db075805694dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 19/29] fix: Ed25519 scalar reduction returned a negative value
 for some inputs

---
 src/sign255.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index 64151f8..01635f2 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -217,6 +217,23 @@ static inline void reduce64bits(uint64_t *a) {
   );
 }
 
+/**
+ * The result of reduce64bits is negative (two's complement) when the
+ * low part is smaller than the multiple of \ell subtracted from it.
+ * Then, 'a' = a + \ell.
+ */
+static inline void add_order_if_negative(uint64_t *a) {
+  const uint64_t ell[4] = {0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0x0, 0x1000000000000000};
+  const uint64_t mask = -(a[3] >> 63);
+  __uint128_t sum = 0;
+  int i;
+  for (i = 0; i < 4; i++) {
+    sum += (__uint128_t) a[i] + (ell[i] & mask);
+    a[i] = (uint64_t) sum;
+    sum >>= 64;
+  }
+}
+
 /**
  * This function performs a modular reduction
  * (mod \ell) where:
@@ -231,6 +248,7 @@ void modular_reduction_ed25519(uint8_t *a) {
   pA[4] = ((pA[4] & 0x3) << 4) | pA[3] >> 60;
   pA[3] &= ((uint64_t) 1 << 60) - 1;
   reduce64bits(pA);
+  add_order_if_negative(pA);
 }
 
 /**
@@ -283,6 +301,7 @@ static int ed25519_keygen(
   ((uint64_t *) az)[4] = (uint64_t) (az[31] >> 4);
   az[31] &= ((uint8_t) 1 << 4) - 1;
   reduce64bits((uint64_t *) az);
+  add_order_if_negative((uint64_t *) az);
 
   point_multiplication_ed25519(&azB, az);
   point_encoding_ed25519(public_key, &azB);
-- 
2.43.0


From d817e96a191b5b280ad2ec71cf04454c6ccef941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 20/29] fix: Ed448 scalar reduction dropped a carry and
 returned values not smaller than the order

---
 src/edwards448.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 314b809..91409bf 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -23,6 +23,33 @@
 #include "table_verf_w7_ed448.h"
 #include <string.h>
 
+/**
+ * Subtracts the order (2^446 - ell) from 'a' whenever a >= order,
+ * such that a < 2^447.
+ *
+ * @param a
+ */
+static inline void subtract_order_ed448(uint64_t *a) {
+	const uint64_t ell[7]   = {0xdc873d6d54a7bb0d,0xde933d8d723a70aa,0x3bb124b65129c96f,0x08335dc16};
+	uint64_t sub[7], mask;
+	__uint128_t sum = 0;
+	int i;
+
+	for(i=0;i<7;i++)
+	{
+		sum += (__uint128_t)a[i] + ell[i];
+		sub[i] = (uint64_t)sum;
+		sum >>= 64;
+	}
+	/* a + ell >= 2^446 if and only if a >= order */
+	mask = -(uint64_t)((sub[6]>>62) != 0);
+	sub[6] &= (((uint64_t)1)<<62)-1;
+	for(i=0;i<7;i++)
+	{
+		a[i] = (a[i] & ~mask) | (sub[i] & mask);
+	}
+}
+
 /**
  * This function performs a modular reduction
  * (mod \ell) where:
@@ -71,9 +98,10 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	}
 	word64_multiplier(product,ellx4,7,high,1);
 
-	high[0] = product[6]>>62;
+	high[0] = (product[7]<<2) | (product[6]>>62);
 	product[6] &= (((uint64_t)1)<<62)-1;
 	word64_multiplier(product,ell,7,high,1);
+	subtract_order_ed448(product);
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
-- 
2.43.0


From 2cbd6f5d7c042929517c0aa328cc31a796c3c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 21/29] fix: Fp25519 2-way naddsub underflowed for large
 digits, corrupting point doubling in hash-to-curve

---
 src/eltfp25519_2w_redradix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eltfp25519_2w_redradix.c b/src/eltfp25519_2w_redradix.c
index 60f8b7b..d7368cd 100644
--- a/src/eltfp25519_2w_redradix.c
+++ b/src/eltfp25519_2w_redradix.c
@@ -710,7 +710,8 @@ DECL(void, naddsub)(argElement_2w C, argElement_2w D,argElement_2w A, argElement
   int i=0;
   for(i=0;i<(NUM_DIGITS_FP25519/2);i++)
   {
-    __m256i T = SUB(_2P[i],A[i]);
+    /* 4P: two compressed digits may add up to more than a digit of 2P */
+    __m256i T = SUB(ADD(_2P[i],_2P[i]),A[i]);
     C[i] = SUB(T,B[i]);
     D[i] = ADD(T,B[i]);
   }
-- 
2.43.0


From 50664450bfa308d9637a862be69f04718aab606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 22/29] fix: two-way SHA-512 truncated the length of messages
 of 4 GiB and more

---
 third_party/multi_hash.h  | 3 ++-
 third_party/sha512_2way.c | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/third_party/multi_hash.h b/third_party/multi_hash.h
index 2556105..3fb30c2 100644
--- a/third_party/multi_hash.h
+++ b/third_party/multi_hash.h
@@ -1,6 +1,7 @@
 #ifndef MULTI_HASH_H
 #define MULTI_HASH_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include <immintrin.h>
 
@@ -76,7 +77,7 @@
 :/* in   */ "r" (Y)\
 :/* regs */);
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length, uint8_t *digest_2x[2]);
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length, uint8_t *digest_2x[2]);
 
 ALIGN static const uint64_t KSHA512[80] =
 {
diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index b22d99e..2219ca7 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -265,17 +265,17 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     }
 }
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length_bytes, uint8_t *digest_2x[2])
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length_bytes, uint8_t *digest_2x[2])
 {
     const __m128i big_endian = _mm_set_epi64x(0x08090a0b0c0d0e0f,0x0001020304050607);
-    const unsigned int num_blocks = message_length_bytes>>7;
-    const unsigned int remainder_bytes = message_length_bytes-(num_blocks<<7);
+    const size_t num_blocks = message_length_bytes>>7;
+    const size_t remainder_bytes = message_length_bytes-(num_blocks<<7);
     const __uint128_t mlen_bits = (__uint128_t)message_length_bytes*8;
     ALIGN __m128i state[8];
     ALIGN __m128i block[80];
     ALIGN uint8_t buffer[BLOCK_SIZE_BYTES*NUM_MSG] = {0};
     int i=0,msg=0;
-    unsigned int b=0;
+    size_t b=0;
 
     initialize(state);
     for(b=0;b<num_blocks;b++)
-- 
2.43.0


From f4c2d813573fce9c0d840e35caea557395d8045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 23/29] fix: two-way SHA-512 of 32-byte messages read 96 bytes
 past each message

---
 third_party/sha512_2way.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index 2219ca7..d085f83 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -241,7 +241,7 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     initialize(state);
     for (msg = 0; msg < NUM_MSG; msg++)
     {
-        for (i = 0; i < 16/(NUM_MSG); i++)
+        for (i = 0; i < 4/(NUM_MSG); i++)
         {
             block[NUM_MSG*i+msg] = SHUF8(LOAD(message_2x[msg]+i),big_endian);
         }
-- 
2.43.0


From fc1eeab75eeac38c9a785e30c8e32a7aa3acdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 24/29] fix: Fp448 1-way reduced-radix sqr left digits the next
 subtraction cannot take

---
 src/eltfp448_1w_redradix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 5049a0c..5c2f95a 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -669,6 +669,7 @@ DECL(void, mul)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, sqr)(argElement_1w c) {
   FN(sqrn)(c, 1);
+  FN(compress)(c);
 }
 
 DECL(void, copy)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From a1e7c6ecbe208ead1635e2d17a1e5cbec2c41028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 25/29] fix: vector constants lacked the alignment their
 aligned loads need, crashing unoptimised builds

---
 src/edwards255.c             | 2 +-
 src/eltfp25519_4w_redradix.c | 2 +-
 src/eltfp448_4w_redradix.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index d97db4c..4ae95cc 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -438,7 +438,7 @@ static inline void _1way_fulladd_2w_H0H5(PointXYZT_2w_H0H5 *Q, PointXYZT_2w_H0H5
 	argElement_2w XY2 = P->XY;
 	argElement_2w TZ2 = P->TZ;
 
-	const uint64_t param_curve_2d_02[20] = {
+	const ALIGN uint64_t param_curve_2d_02[20] = {
 			0x2b2f159,0x0f3d130,0x2,0x0,
 			0x1a6e509,0x3407977,0x0,0x0,
 			0x22add7a,0x19ce331,0x0,0x0,
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index 416d526..b2851ab 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -218,7 +218,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
       0x0000000,0x0000000,0x7ffffda,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index b7a31cc..de7d80a 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -257,7 +257,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
       0x0000000,0x0000000,0x3ffffffc,0x0000000,
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
-- 
2.43.0


From 95a28d594ff4c7c8c9b4bd0aa6c121182ec9634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 26/29] fix: two-way hash-to-field passed a null pointer to
 memcpy for an empty message

---
 src/hash255.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hash255.c b/src/hash255.c
index e897662..31d1480 100644
--- a/src/hash255.c
+++ b/src/hash255.c
@@ -44,8 +44,10 @@ void hash_to_field_2w(argElement_1w u0, argElement_1w u1,
   message[1] = (uint8_t *)_mm_malloc(mlen + 1, ALIGN_BYTES);
   digest[0] = h0_msg;
   digest[1] = h1_msg;
-  memcpy(message[0] + 1, msg, mlen);
-  memcpy(message[1] + 1, msg, mlen);
+  if (mlen > 0) {
+    memcpy(message[0] + 1, msg, mlen);
+    memcpy(message[1] + 1, msg, mlen);
+  }
   message[0][0] = 0;
   message[1][0] = 1;
 
-- 
2.43.0


From 77b22814d511d384a5f5a0e8f0036f059408c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 27/29] fix: clang turned the final modular reductions into
 branches on secret scalars

---
 src/edwards448.c | 4 +++-
 src/sign255.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 91409bf..9163e89 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -42,7 +42,9 @@ static inline void subtract_order_ed448(uint64_t *a) {
 		sum >>= 64;
 	}
 	/* a + ell >= 2^446 if and only if a >= order */
-	mask = -(uint64_t)((sub[6]>>62) != 0);
+	mask = -(sub[6]>>62);
+	/* keeps the compiler from turning the mask into a branch */
+	__asm__ __volatile__ ("" : "+r" (mask));
 	sub[6] &= (((uint64_t)1)<<62)-1;
 	for(i=0;i<7;i++)
 	{
diff --git a/src/sign255.c b/src/sign255.c
index 01635f2..0ce8f8d 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -224,9 +224,11 @@ static inline void reduce64bits(uint64_t *a) {
  */
 static inline void add_order_if_negative(uint64_t *a) {
   const uint64_t ell[4] = {0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0x0, 0x1000000000000000};
-  const uint64_t mask = -(a[3] >> 63);
+  uint64_t mask = -(a[3] >> 63);
   __uint128_t sum = 0;
   int i;
+  /* keeps the compiler from turning the mask into a branch */
+  __asm__ __volatile__ ("" : "+r" (mask));
   for (i = 0; i < 4; i++) {
     sum += (__uint128_t) a[i] + (ell[i] & mask);
     a[i] = (uint64_t) sum;
-- 
2.43.0


From 66a468a1a94f9224b85036ad456c0cff70a429f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 28/29] fix: cpu_has answered from the bits of the wrong
 registers

---
 third_party/cpu_caps.c | 69 ++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/third_party/cpu_caps.c b/third_party/cpu_caps.c
index 2bca091..6b9aeb4 100644
--- a/third_party/cpu_caps.c
+++ b/third_party/cpu_caps.c
@@ -6,18 +6,18 @@ extern "C" {
 #endif /* __cplusplus */
 
 enum Capabilities {
-  CMOV = bit_CMOV,
-  SSE = bit_SSE,
-  SSE2 = bit_SSE2,
-  SSE3 = bit_SSE3,
-  SSSE3 = bit_SSSE3,
-  SSE4_1 = bit_SSE4_1,
-  SSE4_2 = bit_SSE4_2,
-  AVX = bit_AVX,
-  AVX2 = bit_AVX2,
-  BMI = bit_BMI,
-  BMI2 = bit_BMI2,
-  ADX = bit_ADX
+  CMOV,
+  SSE,
+  SSE2,
+  SSE3,
+  SSSE3,
+  SSE4_1,
+  SSE4_2,
+  AVX,
+  AVX2,
+  BMI,
+  BMI2,
+  ADX
 };
 
 #define my_cpuid(ra, rb, rc, rd)               \
@@ -40,26 +40,57 @@ enum Capabilities {
   run += (REG & CAP) != 0;
 
 int cpu_has(enum Capabilities c) {
-  int ret = 0;
+  unsigned int max_leaf, ebx1, ecx1, edx1;
   unsigned int eax, ebx, ecx, edx;
 
-  eax = 1;
+  max_leaf = 0;
   ebx = 0;
   ecx = 0;
   edx = 0;
-  my_cpuid(eax, ebx, ecx, edx);
+  my_cpuid(max_leaf, ebx, ecx, edx);
 
-  ret |= (edx & c) != 0;
-  ret |= (ecx & c) != 0;
+  eax = 1;
+  ebx1 = 0;
+  ecx1 = 0;
+  edx1 = 0;
+  my_cpuid(eax, ebx1, ecx1, edx1);
 
   eax = 7;
   ebx = 0;
   ecx = 0;
   edx = 0;
   my_cpuid(eax, ebx, ecx, edx);
+  if (max_leaf < 7) {
+    ebx = 0;
+  }
 
-  ret |= (ebx & c) != 0;
-  return ret;
+  switch (c) {
+    case CMOV:
+      return (edx1 & bit_CMOV) != 0;
+    case SSE:
+      return (edx1 & bit_SSE) != 0;
+    case SSE2:
+      return (edx1 & bit_SSE2) != 0;
+    case SSE3:
+      return (ecx1 & bit_SSE3) != 0;
+    case SSSE3:
+      return (ecx1 & bit_SSSE3) != 0;
+    case SSE4_1:
+      return (ecx1 & bit_SSE4_1) != 0;
+    case SSE4_2:
+      return (ecx1 & bit_SSE4_2) != 0;
+    case AVX:
+      return (ecx1 & bit_AVX) != 0;
+    case AVX2:
+      return (ebx & bit_AVX2) != 0;
+    case BMI:
+      return (ebx & bit_BMI) != 0;
+    case BMI2:
+      return (ebx & bit_BMI2) != 0;
+    case ADX:
+      return (ebx & bit_ADX) != 0;
+  }
+  return 0;
 }
 
 void machine_info(void) {
-- 
2.43.0


From f0a14d9fcfff3c27cd417e7a5c509930c814084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 29/29] fix: the processor report called machines without AVX2
 or BMI2 supported

---
 third_party/cpu_caps.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/third_party/cpu_caps.c b/third_party/cpu_caps.c
index 6b9aeb4..3be62f8 100644
--- a/third_party/cpu_caps.c
+++ b/third_party/cpu_caps.c
@@ -97,7 +97,12 @@ void machine_info(void) {
   printf("=== Environment Information ====\n");
   printf("Program compiled with: %s\n", __VERSION__);
   unsigned int eax, ebx, ecx, edx;
-  unsigned int run = 0;
+  unsigned int run = 0, max_leaf = 0;
+
+  ebx = 0;
+  ecx = 0;
+  edx = 0;
+  my_cpuid(max_leaf, ebx, ecx, edx);
 
   eax = 1;
   ebx = 0;
@@ -119,13 +124,16 @@ void machine_info(void) {
   ecx = 0;
   edx = 0;
   my_cpuid(eax, ebx, ecx, edx);
+  if (max_leaf < 7) {
+    ebx = 0;
+  }
   test_capability(ebx, bit_AVX2);
   test_capability(ebx, bit_BMI);
   test_capability(ebx, bit_BMI2);
   test_capability(ebx, bit_ADX);
 
   printf("Machine supports our library: %s\n",
-         (run == 11 || run == 12) ? "Yes" : "No");
+         (run == 12 || (run == 11 && (ebx & bit_ADX) == 0)) ? "Yes" : "No");
 }
 
 #ifdef __cplusplus
-- 
2.43.0

