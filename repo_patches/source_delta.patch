From 23fcf99be1d80bc57b92051762f1f7f9e26de9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 01/71] fix: square root for fields where a large power of two
 divides p-1

The Tonelli-Shanks exponent was computed as an int (1 << n), which overflows
when p-1 is divisible by 2**32 or more (e.g. secp224r1), giving a wrong root or
an endless loop.
---
 src/field.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/field.c b/src/field.c
index 189ee77..b084323 100644
--- a/src/field.c
+++ b/src/field.c
@@ -735,7 +735,10 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
-            mpz_powm_ui(b, c, 1 << (m - i - 1), op->fp->p);
+            // b = c**(2**(m-i-1)), the exponent can be wider than an integer type
+            mpz_set_ui(b, 0);
+            mpz_setbit(b, m - i - 1);
+            mpz_powm(b, c, b, op->fp->p);
             mpz_mul(r, r, b);
             mpz_mod(r, r, op->fp->p);
             mpz_powm_ui(c, b, 2, op->fp->p);
-- 
2.43.0


From 08d64f6257491ac82efd51c7f95570bc53675304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 02/71] fix: point addition when the operands differ by a point
 of order two

The Renes-Costello-Batina formula is complete for odd order curves only. On
short Weierstrass curves of even order and on all Montgomery curves adding two
points whose difference has order two gave the neutral element instead of the
sum (e.g. (0,0) plus another point of order two).
---
 src/ecpoint.c | 80 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 01b6b6e..74129d1 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -741,6 +741,62 @@ void mpECP_cswap(mpECP_t pt2, mpECP_t pt1, int swap) {
     _mpECP_cswap_safe(pt2, pt1, swap);
 }
 
+#ifdef _MPECP_USE_RCB
+// The Renes-Costello-Batina formula is complete for curves of odd order only.
+// If (and only if) the difference of the operands is a point of order two it
+// yields (0, 0, 0). The operands are distinct in that case, so the sum is
+// either the neutral element (opposite points) or given by the chord formula:
+// u = Y2*Z1 - Y1*Z2, v = X2*Z1 - X1*Z2
+// A = u**2*Z1*Z2 - v**3 - 2*v**2*X1*Z2
+// X3 = v*A, Y3 = u*(v**2*X1*Z2 - A) - v**3*Y1*Z2, Z3 = v**3*Z1*Z2
+static void _mpECP_add_chord(mpECP_t rpt, mpFp_t x1, mpFp_t y1, mpFp_t z1,
+mpFp_t x2, mpFp_t y2, mpFp_t z2, mpECurve_ptr cvp) {
+    mpFp_t u, v, v2, v3, a, w, t;
+    mpFp_init_fp(u, cvp->fp);
+    mpFp_init_fp(v, cvp->fp);
+    mpFp_init_fp(v2, cvp->fp);
+    mpFp_init_fp(v3, cvp->fp);
+    mpFp_init_fp(a, cvp->fp);
+    mpFp_init_fp(w, cvp->fp);
+    mpFp_init_fp(t, cvp->fp);
+    mpFp_mul(v, x2, z1);
+    mpFp_mul(t, x1, z2);
+    mpFp_sub(v, v, t);
+    if (mpFp_cmp_ui(v, 0) == 0) {
+        mpECP_set_neutral(rpt, cvp);
+    } else {
+        mpFp_mul(w, z1, z2);
+        mpFp_sqr(v2, v);
+        mpFp_mul(v3, v2, v);
+        mpFp_mul(v2, v2, t);
+        mpFp_mul(u, y2, z1);
+        mpFp_mul(t, y1, z2);
+        mpFp_sub(u, u, t);
+        mpFp_sqr(a, u);
+        mpFp_mul(a, a, w);
+        mpFp_sub(a, a, v3);
+        mpFp_sub(a, a, v2);
+        mpFp_sub(a, a, v2);
+        mpFp_mul(rpt->x, v, a);
+        mpFp_sub(v2, v2, a);
+        mpFp_mul(rpt->y, u, v2);
+        mpFp_mul(t, t, v3);
+        mpFp_sub(rpt->y, rpt->y, t);
+        mpFp_mul(rpt->z, v3, w);
+        rpt->cvp = cvp;
+        rpt->is_neutral = 0;
+    }
+    mpFp_clear(t);
+    mpFp_clear(w);
+    mpFp_clear(a);
+    mpFp_clear(v3);
+    mpFp_clear(v2);
+    mpFp_clear(v);
+    mpFp_clear(u);
+    return;
+}
+#endif
+
 void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
 #ifdef _MPECP_USE_RCB
     mpFp_ptr aa, bb;
@@ -795,6 +851,23 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_init_fp(t5, pt1->cvp->fp);
                 mpFp_init_fp(b3, pt1->cvp->fp);
 #endif
+                // the result may share storage with the operands, so keep a
+                // copy of those for the exceptional case
+                mpFp_t x1, y1, z1, x2, y2, z2;
+                __local_limb_t lx1, ly1, lz1, lx2, ly2, lz2;
+                x1->i->_mp_d = lx1; x1->i->_mp_size = 0; x1->i->_mp_alloc = _MPFP_MAX_LIMBS; x1->fp = pt1->cvp->fp;
+                y1->i->_mp_d = ly1; y1->i->_mp_size = 0; y1->i->_mp_alloc = _MPFP_MAX_LIMBS; y1->fp = pt1->cvp->fp;
+                z1->i->_mp_d = lz1; z1->i->_mp_size = 0; z1->i->_mp_alloc = _MPFP_MAX_LIMBS; z1->fp = pt1->cvp->fp;
+                x2->i->_mp_d = lx2; x2->i->_mp_size = 0; x2->i->_mp_alloc = _MPFP_MAX_LIMBS; x2->fp = pt1->cvp->fp;
+                y2->i->_mp_d = ly2; y2->i->_mp_size = 0; y2->i->_mp_alloc = _MPFP_MAX_LIMBS; y2->fp = pt1->cvp->fp;
+                z2->i->_mp_d = lz2; z2->i->_mp_size = 0; z2->i->_mp_alloc = _MPFP_MAX_LIMBS; z2->fp = pt1->cvp->fp;
+                mpFp_set(x1, pt1->x);
+                mpFp_set(y1, pt1->y);
+                mpFp_set(z1, pt1->z);
+                mpFp_set(x2, pt2->x);
+                mpFp_set(y2, pt2->y);
+                mpFp_set(z2, pt2->z);
+
                 // TODO: Precalculate b3 and store in coeff.ws.b3
                 mpFp_add(b3, bb, bb);
                 mpFp_add(b3, b3, bb);
@@ -924,7 +997,12 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 rpt->cvp = pt1->cvp;
 
                 if (mpFp_cmp_ui(rpt->z, 0) == 0) {
-                    mpECP_set_neutral(rpt, pt1->cvp);
+                    if (mpFp_cmp_ui(rpt->y, 0) == 0) {
+                        // (0, 0, 0) is no point at all
+                        _mpECP_add_chord(rpt, x1, y1, z1, x2, y2, z2, rpt->cvp);
+                    } else {
+                        mpECP_set_neutral(rpt, pt1->cvp);
+                    }
                 } else {
                     rpt->is_neutral = 0;
                 }
-- 
2.43.0


From 422b6f86b695b1537faed20dcac9c31184c36cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 03/71] fix: Montgomery points on curves with B other than 1

The transform to the internal short Weierstrass form scaled only x and not the
A/3 offset by 1/B, so points did not lie on the internal curve and every result
was wrong unless B = 1.
---
 src/ecpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 74129d1..2f8f16b 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -120,9 +120,9 @@ void mpECP_set(mpECP_t rpt, mpECP_t pt) {
 
 static inline void _transform_mo_to_ws(mpECP_t pt) {
     assert (pt->cvp->type == EQTypeMontgomery);
-    // u = x/B + A/3, v = y/B
-    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
+    // u = (x + A/3)/B, v = y/B
     mpFp_add(pt->x, pt->x, pt->cvp->coeff.mo.Adiv3);
+    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
     mpFp_mul(pt->y, pt->y, pt->cvp->coeff.mo.Binv);
 }
 
-- 
2.43.0


From 1cdc80462c1f8e4545da9b0bf13d271acf99ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 04/71] fix: sign of compressed Montgomery points on curves
 with B other than 1

The prefix was taken from the internal coordinate y/B, decoding compares it
with the curve coordinate y.
---
 src/ecpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 2f8f16b..4c7e9b5 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -541,7 +541,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
-        mpz_set_mpFp(odd, pt->y);
+        mpz_set_mpECP_affine_y(odd, pt);
         mpz_mod_ui(odd, odd, 2);
         if (mpz_cmp_ui(odd, 1) == 0) {
             s[0] = 3;
-- 
2.43.0


From 5bdd6fdbdb58ed43329bec324f9ff5a7fae1b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 05/71] fix: Edwards point addition overwrote the curve object
 of the result

The result point was bound to the operands' curve by copying that curve
over whatever curve object the result referred to, modifying a curve the
caller (and other points) still use. Rebind the result instead, as the
other forms do.
---
 src/ecpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 4c7e9b5..0e02083 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1182,7 +1182,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // Z3 = c*F*G
                 mpFp_mul(B, pt1->cvp->coeff.ed.c, G);
                 mpFp_mul(rpt->z, B, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1261,7 +1261,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_mul(rpt->y, B, A);
                 // Z3 = F*G
                 mpFp_mul(rpt->z, G, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
-- 
2.43.0


From a27de6da57fb6a81a11eb6863fb6afdd65aa7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 06/71] fix: curves over different fields compared as equal

mpECurve_cmp returned the (false) result of the pointer comparison as the
verdict, so curves over different fields compared equal.
---
 src/ecurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 1404b4f..d009d77 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1195,7 +1195,7 @@ int mpECurve_cmp(mpECurve_t op1, mpECurve_t op2) {
     //printf("not the same pointer\n");
     if (op1->type != op2->type) return -1;
     //printf("same type\n");
-    r = (op1->fp == op2->fp) ; if (r != 1) return r;
+    if (op1->fp != op2->fp) return -1;
     //printf("same field\n");
     switch (op1->type) {
         case EQTypeShortWeierstrass:
-- 
2.43.0


From 4d33f44eee0bee4a3985dc6ce7eee8917752ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 07/71] fix: scalar multiplication ignored scalar bits above
 the field width

On curves whose order is wider than the field (secp160k1, secp160r1,
secp160r2, secp224k1 among the built-in ones) the ladder and the base
table covered only the field width, so multiplication by a scalar of the
full width of the order gave a wrong point.
---
 src/ecpoint.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 0e02083..018e032 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -55,8 +55,14 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 
 static char *_hexlut = "0123456789ABCDEF";
 
+// the order of the generator can be wider than the field (Hasse bound)
+static inline int _mpECP_scalar_bits(mpECP_t pt) {
+    int nbits = (int)mpz_sizeinbase(pt->cvp->n, 2);
+    return (nbits > (int)pt->cvp->bits) ? nbits : (int)pt->cvp->bits;
+}
+
 static inline int _mpECP_n_base_pt_levels(mpECP_t pt) {
-    return (pt->cvp->bits + pt->base_bits - 1) / pt->base_bits;
+    return (_mpECP_scalar_bits(pt) + pt->base_bits - 1) / pt->base_bits;
 }
 
 static inline int _mpECP_n_base_pt_level_size(mpECP_t pt) {
@@ -1410,7 +1416,7 @@ void mpECP_scalar_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpECP_set(R1, pt);
     // scalar should be modulo the order of the curve
     assert(mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    for (i = pt->cvp->bits - 1; i >= 0 ; i--) {
+    for (i = _mpECP_scalar_bits(pt) - 1; i >= 0 ; i--) {
         int b;
 
         b = mpFp_tstbit(sc, i);
-- 
2.43.0


From 71b6f773e9ac9d9c5fba5a7bd2e90988dba8cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 08/71] fix: point decoding from text accepted non-hexadecimal
 characters

mpECP_set_str ignored the result of sscanf, so characters that are not
hexadecimal digits left uninitialised bytes, were skipped as white space
or a sign, or aborted the process. Refuse such text.
---
 src/ecpoint.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 018e032..f7119b2 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
@@ -309,12 +310,15 @@ static inline int _bytelen(int bits) {
 int mpECP_set_str(mpECP_t rpt, char *s, mpECurve_t cv) {
     size_t slen;
     size_t blen;
-    int i;
+    size_t i;
     int status;
     unsigned char *buf;
 
     slen = strlen(s);
     if ((slen & 0x01) != 0) return -1;
+    for (i = 0; i < slen; i++) {
+        if (!isxdigit((unsigned char)s[i])) return -1;
+    }
     blen = slen >> 1;
     buf = (unsigned char *)malloc(blen * sizeof(char));
     assert(buf != NULL);
-- 
2.43.0


From 7019df7c91ccb4fdd013f65d8940119c4c69ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 09/71] fix: point decoding accepted encodings of no point

mpECP_set_bytes returned success for uncompressed coordinates that do not
satisfy the curve equation, for coordinates that are not reduced modulo
the field, for any string of sufficient length starting with a zero byte,
for an odd root of zero, and for compressed Edwards coordinates without a
matching point. Report these as errors.
---
 src/ecpoint.c | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index f7119b2..6d5a3d7 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -345,19 +345,32 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
     bytes = _bytelen(cv->bits);
     if (blen < (1 + bytes)) return -1;
     switch (b[0]) {
-        case 0:
-            mpECP_set_neutral(rpt, cv);
+        case 0: {
+                // the neutral element is all zero, at the length of
+                // a compressed or of an uncompressed point
+                size_t i;
+                if ((blen != (1 + bytes)) && (blen != (1 + (2 * bytes)))) return -1;
+                for (i = 1; i < blen; i++) {
+                    if (b[i] != 0) return -1;
+                }
+                mpECP_set_neutral(rpt, cv);
+            }
             return 0;
         case 4: {
+                int valid;
                 if (blen != (1 + (2 * bytes))) return -1;
                 mpz_t x, y;
                 mpz_init(x);
                 mpz_init(y);
                 mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));
                 mpz_import(y, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1 + bytes]));
-                mpECP_set_mpz(rpt, x, y, cv);
+                // coordinates must be reduced and satisfy the curve equation
+                valid = (mpz_cmp(x, cv->fp->p) < 0) && (mpz_cmp(y, cv->fp->p) < 0) &&
+                    mpECurve_point_check(cv, x, y);
+                if (valid) mpECP_set_mpz(rpt, x, y, cv);
                 mpz_clear(y);
                 mpz_clear(x);
+                if (!valid) return -1;
             }
             return 0;
         case 2:
@@ -367,10 +380,15 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 int error, odd;
                 if (blen != (1 + bytes)) return -1;
                 mpz_init(xz);
+                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
+                if (mpz_cmp(xz, cv->fp->p) >= 0) {
+                    // not a reduced coordinate
+                    mpz_clear(xz);
+                    return -1;
+                }
                 mpFp_init_fp(x, cv->fp);
                 mpFp_init_fp(y, cv->fp);
                 mpFp_init_fp(t, cv->fp);
-                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
                 mpFp_set_mpz_fp(x, xz, cv->fp);
                 switch (cv->type) {
                     case EQTypeShortWeierstrass: {
@@ -403,9 +421,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_set_ui_fp(y, 1, cv->fp);
                             mpFp_sub(t, y, t);
                             mpFp_sub(y, c2, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(c2);
                             if (error != 0) {
@@ -432,9 +452,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_sub(t, y, t);
                             mpFp_mul(x2, x2, a);
                             mpFp_sub(y, y, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(a);
                             if (error != 0) {
@@ -475,6 +497,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 odd = mpz_tstbit(y->i, 0);
                 // '3' implies odd, '2' even... negate if not matched
                 if ((b[0] & 0x01) != odd) {
+                    if (mpFp_cmp_ui(y, 0) == 0) {
+                        // there is no odd root of zero
+                        mpFp_clear(t);
+                        mpFp_clear(y);
+                        mpFp_clear(x);
+                        mpz_clear(xz);
+                        return -1;
+                    }
                     mpFp_neg(y, y);
                 }
                 mpECP_set_mpFp(rpt, x, y, cv);
-- 
2.43.0


From e081fcf794e34ad4f9d1c89280dafec7552b1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 10/71] fix: ECDSA digest truncated to whole bytes instead of
 the bits of the order

---
 src/ecdsa.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 95f9b96..5d7069f 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -77,6 +77,18 @@ void mpECDSASignatureScheme_clear(mpECDSASignatureScheme_t sscheme) {
     return;
 }
 
+// the integer to sign is the leftmost bits of the digest, at most as many as
+// the order of the group has
+static void _digest_to_mpz(mpz_t e, mpECDSASignatureScheme_ptr sscheme, unsigned char *hash) {
+    size_t nbits = mpz_sizeinbase(sscheme->cvp->n, 2);
+    size_t sz = (sscheme->nsz <= sscheme->H->hsz) ? sscheme->nsz : sscheme->H->hsz;
+
+    mpz_import(e, sz, 1, 1, 1, 0, hash);
+    if ((sz << 3) > nbits) {
+        mpz_tdiv_q_2exp(e, e, (sz << 3) - nbits);
+    }
+}
+
 int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t sscheme, mpFp_t sK, unsigned char *msg, size_t sz) {
     unsigned char *hash;
     mpFp_t k_n;
@@ -104,11 +116,7 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     mpECP_init(R, sscheme->cvp);
 
     sscheme->H->dohash(hash, msg, sz);
-    if (sscheme->nsz <= sscheme->H->hsz) {
-        mpz_import(e, sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _digest_to_mpz(e, sscheme, hash);
     free(hash);
     mpFp_set_mpz(e_n, e, sscheme->cvp->n);
 new_random:
@@ -182,11 +190,7 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_init(Pq, sig->sscheme->cvp);
 
     sig->sscheme->H->dohash(hash, msg, sz);
-    if (sig->sscheme->nsz <= sig->sscheme->H->hsz) {
-        mpz_import(e, sig->sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sig->sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _digest_to_mpz(e, sig->sscheme, hash);
     free(hash);
     mpFp_set_mpz(e_n, e, sig->sscheme->cvp->n);
     mpFp_inv(w, sig->s);
-- 
2.43.0


From c4c68f38718051f95b682d36b99a89a1fcebd99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 11/71] fix: ECDSA signing could emit r = 0

---
 src/ecdsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 5d7069f..23fc330 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -125,9 +125,9 @@ new_random:
 
     mpECP_scalar_base_mul(R, sscheme->cv_G, k_n);
     mpz_set_mpECP_affine_x(r, R);
-    if (__GMP_UNLIKELY(mpz_cmp_ui(r, 0) == 0)) goto new_random;
-
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
+    if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
+
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
     status = mpFp_inv(e_n, k_n);
-- 
2.43.0


From 731137bbb1ef768bcb4e0a0b85ab588a138ae73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 12/71] fix: ECDSA verification could accept the identity as a
 match

---
 src/ecdsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 23fc330..574b515 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -204,6 +204,12 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
 
     status = mpFp_cmp(p_n, sig->r);
 
+    // the identity has no x coordinate and never matches
+    mpECP_set_neutral(Pq, sig->sscheme->cvp);
+    if (mpECP_cmp(P, Pq) == 0) {
+        status = -1;
+    }
+
     mpECP_clear(Pq);
     mpECP_clear(P);
     mpFp_clear(u2);
-- 
2.43.0


From da9d868f620c92a5454cce71169836116668a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 13/71] fix: ECDSA verification aborted on a public key of
 another curve

---
 src/ecdsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 574b515..ae8e2b5 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -177,6 +177,10 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     if ((mpFp_cmp_ui(sig->r, 0) == 0) || (mpFp_cmp_ui(sig->s, 0) == 0)) {
         return -1;
     }
+
+    if (mpECurve_cmp(pK->cvp, sig->sscheme->cvp) != 0) {
+        return -1;
+    }
     
     hash = (unsigned char *)malloc(sig->sscheme->H->hsz * sizeof(char));
 
-- 
2.43.0


From 8706127b9070536ba9c4454d98ce05b1814d3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 14/71] fix: ECDSA signing aborted on a private key of another
 group

---
 src/ecdsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index ae8e2b5..a22b729 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -104,6 +104,8 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
 
     if ((msg == NULL) || (sz == 0)) return -1;
 
+    if (mpz_cmp(sK->fp->p, sscheme->cvp->n) != 0) return -1;
+
     hash = (unsigned char *)malloc(sscheme->H->hsz * sizeof(char));
     assert(hash != NULL);
 
-- 
2.43.0


From fbbccadc781b2919ed6b02b72ad1eafc91cfbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 15/71] fix: ECDSA signature import accepted text that is not
 hexadecimal

---
 src/ecdsa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index a22b729..90d7bd9 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecdsa.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
@@ -353,7 +354,8 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
     for (i = 0; i < bsz; i++) {
         int iread;
         iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
-        if (iread != 1) {
+        // sscanf alone would also take blanks, signs and 0x
+        if ((iread != 1) || !isxdigit((unsigned char)ssig[i<<1]) || !isxdigit((unsigned char)ssig[(i<<1)+1])) {
             memset(bbytes, 0, bsz);
             free(bbytes);
             return -1;
-- 
2.43.0


From 422ea156374188108578297f54a0f46398c98a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 16/71] fix: ElGamal decryption aborted on ciphertexts of two
 curve objects

---
 src/ecelgamal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecelgamal.c b/src/ecelgamal.c
index 30083fc..9a2d5b3 100644
--- a/src/ecelgamal.c
+++ b/src/ecelgamal.c
@@ -62,7 +62,9 @@ int mpECElgamal_init_encrypt(mpECElgamalCiphertext_t ctxt, mpECP_t pK, mpECP_t p
 }
 
 int mpECElgamal_init_decrypt(mpECP_t ptxt, mpFp_t sK, mpECElgamalCiphertext_t ctxt) {
-    assert(ctxt->C->cvp == ctxt->D->cvp);
+    if (mpECurve_cmp(ctxt->C->cvp, ctxt->D->cvp) != 0) {
+        return -1;
+    }
     if (mpz_cmp(sK->fp->p, ctxt->C->cvp->n) != 0) {
         return -1;
     }
-- 
2.43.0


From 795679b947c934f1976a7b44ae0cf8089d1c088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 17/71] fix: ECDSA signing lost the digest when a nonce gave s
 = 0

---
 src/ecdsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 90d7bd9..08c42d9 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -133,9 +133,10 @@ new_random:
 
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
-    status = mpFp_inv(e_n, k_n);
+    // e_n must survive in case another nonce is needed
+    status = mpFp_inv(k_n, k_n);
     if (status != 0) goto new_random;
-    mpFp_mul(s_n, s_n, e_n);
+    mpFp_mul(s_n, s_n, k_n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(s_n, 0) == 0)) goto new_random;
 
     mpFp_init(sig->r, sscheme->cvp->n);
-- 
2.43.0


From 43b681f48925d6c8b01789d229d6be466c814a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 18/71] fix: processes drew the same random numbers after fork

---
 src/mpzurandom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 23eec45..a12bb65 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -50,6 +50,8 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
+        // no read ahead: a forked process would draw the same bytes again
+        setvbuf(_f_urandom, NULL, _IONBF, 0);
         atexit(_close_f_urandom);
     }
     // bytes intentionally long to ensure uniformity, will truncate with modulo
-- 
2.43.0


From 557a6ee54b6abe23d64a8c07e8b93e8c8cd916ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 19/71] fix: safe cleaning left data in released number storage

The compiler dropped the memset() of memory that was about to be freed, and
the part cut off by a shrinking resize was never cleaned.
---
 src/safememory.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/safememory.c b/src/safememory.c
index 0770740..d871790 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -34,10 +34,16 @@
 #include <string.h>
 #include <stdlib.h>
 
+// memory about to be released is never read again, so the compiler would be
+// free to drop a plain memset(). The volatile pointer forces the call.
+static void *(* const volatile _wipe)(void *, int, size_t) = memset;
+
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
     if (__GMP_LIKELY(newsz <= oldsz)) {
+        // the block will be released as newsz bytes, so clean the rest here
+        _wipe((char *)old + newsz, 0, oldsz - newsz);
         return old;
     }
 
@@ -48,14 +54,14 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     }
 
     memcpy(ret, old, oldsz);
-    memset(old, 0, oldsz);
+    _wipe(old, 0, oldsz);
     free(old);
 
     return ret;
 }
 
 void _safe_clean_free(void *old, size_t oldsz) {
-    memset(old, 0, oldsz);
+    _wipe(old, 0, oldsz);
     free (old);
 }
 
-- 
2.43.0


From 81987424935f71425ecd5261972256c9eb4957bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 20/71] fix: first use of a field or of the random source was
 not thread safe

Threads that first used a field or drew random numbers at the same time could
lose a list entry, use a half built field or open the device twice.
---
 src/field.c      | 52 ++++++++++++++++++++++++++++++------------------
 src/mpzurandom.c | 36 +++++++++++++++++++++++----------
 2 files changed, 58 insertions(+), 30 deletions(-)

diff --git a/src/field.c b/src/field.c
index b084323..10732b3 100644
--- a/src/field.c
+++ b/src/field.c
@@ -32,6 +32,7 @@
 #include <ecc/field.h>
 #include <ecc/mpzurandom.h>
 #include <gmp.h>
+#include <stdatomic.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -83,12 +84,14 @@ void mpFp_field_set_mpz(mpFp_field field, mpz_t p) {
     return;
 }
 
+// the list is shared by all threads: it is only ever appended to, and an entry
+// is complete before it becomes reachable
 typedef struct __mpFp_field_list_t {
     mpFp_field_ptr fp;
-    struct __mpFp_field_list_t *next;
+    _Atomic(struct __mpFp_field_list_t *) next;
 } _mpFp_field_list_t;
 
-static _mpFp_field_list_t *_static_field_list = NULL;
+static _Atomic(_mpFp_field_list_t *) _static_field_list = NULL;
 
 static void _cleanup_field_list(void) {
     _mpFp_field_list_t *head;
@@ -106,8 +109,9 @@ static void _cleanup_field_list(void) {
 }
 
 mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
-    _mpFp_field_list_t **l;
+    _Atomic(_mpFp_field_list_t *) *l;
     _mpFp_field_list_t *l_this;
+    _mpFp_field_list_t *l_new = NULL;
 
     size_t psz;
 
@@ -116,28 +120,38 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     // definition of contstant and recomile library
     assert ((psz * 2) <= _MPFP_MAX_LIMBS);
 
-    if (_static_field_list == NULL) {
-        atexit(&_cleanup_field_list);
-    }
-
     l = &_static_field_list;
-    while (*l != NULL) {
-        l_this = *l;
+    while (1) {
+        l_this = atomic_load(l);
+        if (l_this == NULL) {
+            if (l_new == NULL) {
+                l_new = (_mpFp_field_list_t *)malloc(sizeof(_mpFp_field_list_t));
+                assert(l_new != NULL);
+                l_new->fp = (mpFp_field_ptr)malloc(sizeof(_mpFp_field_struct));
+                assert(l_new->fp != NULL);
+                mpFp_field_init(l_new->fp);
+                mpFp_field_set_mpz(l_new->fp, p);
+                atomic_init(&(l_new->next), NULL);
+            }
+            if (atomic_compare_exchange_strong(l, &l_this, l_new)) {
+                //gmp_printf("created field Fp: p = 0x%ZX\n", p);
+                if (l == &_static_field_list) {
+                    atexit(&_cleanup_field_list);
+                }
+                return l_new->fp;
+            }
+            // another thread appended first, l_this is its entry
+        }
         if (mpz_cmp(l_this->fp->p, p) == 0) {
+            if (l_new != NULL) {
+                mpFp_field_clear(l_new->fp);
+                free(l_new->fp);
+                free(l_new);
+            }
             return l_this->fp;
         }
         l = &(l_this->next);
     }
-    l_this = (_mpFp_field_list_t *)malloc(sizeof(_mpFp_field_list_t));
-    assert(l_this != NULL);
-    l_this->fp = (mpFp_field_ptr)malloc(sizeof(_mpFp_field_struct));
-    assert(l_this->fp != NULL);
-    *l = l_this;
-    mpFp_field_init(l_this->fp);
-    mpFp_field_set_mpz(l_this->fp, p);
-    l_this->next = NULL;
-    //gmp_printf("created field Fp: p = 0x%ZX\n", p);
-    return l_this->fp;
 }
 
 static inline void mpFp_realloc(mpFp_t c) {
diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index a12bb65..24a6b38 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -31,33 +31,47 @@
 #include <assert.h>
 #include <ecc/mpzurandom.h>
 #include <gmp.h>
+#include <stdatomic.h>
 #include <stdio.h>
 #include <stdlib.h>
 
-static FILE *_f_urandom = NULL;
+// shared by all threads, set once
+static _Atomic(FILE *) _f_urandom = NULL;
 
 static void _close_f_urandom(void) {
-    if (_f_urandom != NULL) {
-        fclose(_f_urandom);
-        _f_urandom = NULL;
+    FILE *f = atomic_exchange(&_f_urandom, NULL);
+    if (f != NULL) {
+        fclose(f);
     }
     return;
 }
 
+static FILE *_open_f_urandom(void) {
+    FILE *f, *first = NULL;
+    f = fopen("/dev/urandom", "rb");
+    assert(f != NULL);
+    // no read ahead: a forked process would draw the same bytes again
+    setvbuf(f, NULL, _IONBF, 0);
+    if (!atomic_compare_exchange_strong(&_f_urandom, &first, f)) {
+        // another thread was first
+        fclose(f);
+        return first;
+    }
+    atexit(_close_f_urandom);
+    return f;
+}
+
 void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     int bytes, sz_read;
     char *buffer;
-    if (_f_urandom == NULL) {
-        _f_urandom = fopen("/dev/urandom", "rb");
-        assert(_f_urandom != NULL);
-        // no read ahead: a forked process would draw the same bytes again
-        setvbuf(_f_urandom, NULL, _IONBF, 0);
-        atexit(_close_f_urandom);
+    FILE *f = atomic_load(&_f_urandom);
+    if (f == NULL) {
+        f = _open_f_urandom();
     }
     // bytes intentionally long to ensure uniformity, will truncate with modulo
     bytes = ((mpz_sizeinbase(rand_max,2) + 7) >> 3) * 2;
     buffer = (char *)malloc((bytes) * sizeof(char));
-    sz_read = fread(buffer, sizeof(char), bytes, _f_urandom);
+    sz_read = fread(buffer, sizeof(char), bytes, f);
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
     mpz_mod(rop, rop, rand_max);
-- 
2.43.0


From 42aa53ed7b59286c5e5ec76739235474d096265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 21/71] fix: Python integers wider than 2047 bits overran a
 conversion buffer

---
 python/pyfield.c   |  2 +-
 python/pygmplong.c | 45 ++++++++++++++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 4e0ad91..d90d0b1 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -492,7 +492,7 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	PyObject *rep;
 	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
 	
-	i = _mpz_to_pylong(((FieldElement *)a)->fe->i);
+	i = _mpFp_to_pylong(((FieldElement *)a)->fe);
 	assert(i != NULL);
 	p = _mpz_to_pylong(((FieldElement *)a)->fe->fp->p);
 	assert(p != NULL);
diff --git a/python/pygmplong.c b/python/pygmplong.c
index b342e65..01d8308 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -31,11 +31,10 @@
 #include <gmp.h>
 #include <pygmplong.h>
 #include <Python.h>
-
-#define _MPFP_MAX_LIMBS   (32)
+#include <string.h>
 
 int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t psz;
 	int status;
 	int negative;
@@ -53,39 +52,43 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 	//printf("psz = %d\n", psz);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	pdata = (unsigned char *)PyMem_Malloc(psz + 1);
+	if (pdata == NULL) {
 		return -1;
 	}
 	
 	// convert to bytes, initial 1 implies little endian, final 1 implies signed
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 1);
+	status = _PyLong_AsByteArray(pobj, pdata, psz+1, 1, 1);
 
 	//{
 	//	int i;
 	//	printf("p= 0x");
 	//	for (i = 0; i <= psz; i++) {
-	//		printf("%02X", ((unsigned char *)pdata)[i]);
+	//		printf("%02X", pdata[i]);
 	//	}
 	//	printf("\n");
 	//}
 
 	if (status != 0) {
+		PyMem_Free(pdata);
 		return -1;
 	}
 
 	// mpz_import is inherently unsigned... detect sign
-	negative = (((unsigned char *)pdata)[psz] & 0x80) != 0;
+	negative = (pdata[psz] & 0x80) != 0;
 	
 	// take 1's complement if negative
 	if (negative) {
-		int i;
+		size_t i;
 		for (i = 0; i <= psz; i++) {
-			((unsigned char *)pdata)[i] ^= 0xFF;
+			pdata[i] ^= 0xFF;
 		}
 	}
 
 	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
 	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	memset(pdata, 0, psz+1);
+	PyMem_Free(pdata);
 
 	// convert to 2's complement and negate 	
 	if (negative) {
@@ -97,7 +100,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 }
 
 int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t psz;
 	int status;
 
@@ -113,34 +116,46 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
 	psz = _PyLong_NumBits((PyObject*)pobj);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	pdata = (unsigned char *)PyMem_Malloc(psz + 1);
+	if (pdata == NULL) {
 		return -1;
 	}
 
 	// convert to bytes, 1 implies little endian, 0 implies unsigned
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 0);
+	status = _PyLong_AsByteArray(pobj, pdata, psz+1, 1, 0);
 
 	if (status != 0) {
+		PyMem_Free(pdata);
 		return -1;
 	}
 
 	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
 	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	memset(pdata, 0, psz+1);
+	PyMem_Free(pdata);
 	
 	return 0;
 }
 
 PyObject *_mpz_to_pylong(mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t countp;
+	PyObject *p;
 
-	countp = sizeof(pdata);
+	countp = (mpz_sizeinbase(pmpz, 2) + 7) / 8;
+	pdata = (unsigned char *)PyMem_Malloc(countp);
+	if (pdata == NULL) {
+		return PyErr_NoMemory();
+	}
 
 	mpz_export((void *)pdata, &countp, -1, sizeof(unsigned char), -1, 0, pmpz);
 
 	// convert from bytes, 1 implies little endian, 0 implies unsigned
 	// note, the mpz zero repr (no data written to pdata and countp=0 is correctly handled)
-	return _PyLong_FromByteArray((unsigned char*)pdata, countp, 1, (pmpz->_mp_size < 0));
+	p = _PyLong_FromByteArray(pdata, countp, 1, 0);
+	memset(pdata, 0, countp);
+	PyMem_Free(pdata);
+	return p;
 }
 
 PyObject *_mpFp_to_pylong(mpFp_t pFp) {
-- 
2.43.0


From aa745db3b5d16988d75d682cfebb008a256147e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:11 +0000
Subject: [PATCH 22/71] fix: curve definition accepted parameters that abort or
 overrun later

---
 src/ecurve.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ecurve.c b/src/ecurve.c
index d009d77..9f04142 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -815,6 +815,17 @@ void mpECurve_set(mpECurve_t rop, mpECurve_t op){
     return;
 }
 
+#define _MPFP_MAX_LIMBS   (32)
+
+// parameters the field and point arithmetic can work with: p is a prime above 3,
+// n is a possible order and both fit the library, p fits in the stated bits
+static int _mpECurve_params_valid(mpz_t p, mpz_t n, unsigned int bits) {
+    if ((mpz_cmp_ui(p, 3) <= 0) || (mpz_sgn(n) <= 0)) return 0;
+    if (((mpz_size(p) * 2) > _MPFP_MAX_LIMBS) || ((mpz_size(n) * 2) > _MPFP_MAX_LIMBS)) return 0;
+    if ((mpz_sizeinbase(p, 2) > bits) || (bits > (_MPFP_MAX_LIMBS * GMP_NUMB_BITS))) return 0;
+    return mpz_probab_prime_p(p, 25) != 0;
+}
+
 int mpECurve_set_str_ws(mpECurve_t cv, char *p, char *a, char *b, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
     int status;
@@ -941,6 +952,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_mpECurve_params_valid(p, n, bits)) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeShortWeierstrass) {
@@ -964,6 +976,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_mpECurve_params_valid(p, n, bits)) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeEdwards) {
@@ -987,6 +1000,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_mpECurve_params_valid(p, n, bits)) return -1;
     fp = _mpFp_field_lookup(p);
     _mpECurve_clear_coeff(cv);
     cv->fp = fp;
@@ -1051,6 +1065,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_mpECurve_params_valid(p, n, bits)) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeTwistedEdwards) {
-- 
2.43.0


From cfbc148f03b573d248f9b1be9d40d5a7cbeb7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:11 +0000
Subject: [PATCH 23/71] fix: curve definition from text ignored numbers that do
 not parse

---
 src/ecurve.c | 163 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 91 insertions(+), 72 deletions(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 9f04142..fcef029 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -829,59 +829,70 @@ static int _mpECurve_params_valid(mpz_t p, mpz_t n, unsigned int bits) {
 int mpECurve_set_str_ws(mpECurve_t cv, char *p, char *a, char *b, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
     int status;
-    mpFp_field_ptr fp;
-    mpz_t t;
+    mpz_t zp, za, zb, zn, zh, zGx, zGy;
 
-    mpz_init(t);
-    mpz_set_str(t, p, 0);
-    fp = _mpFp_field_lookup(t);
-    cv->fp = fp;
-    assert(fp != NULL);
-    if (cv->type != EQTypeShortWeierstrass) {
-        _mpECurve_clear_coeff(cv);
-        cv->type = EQTypeShortWeierstrass;
-        _mpECurve_init_coeff(cv);
+    mpz_init(zp);
+    mpz_init(za);
+    mpz_init(zb);
+    mpz_init(zn);
+    mpz_init(zh);
+    mpz_init(zGx);
+    mpz_init(zGy);
+
+    status = mpz_set_str(zp, p, 0);
+    status |= mpz_set_str(za, a, 0);
+    status |= mpz_set_str(zb, b, 0);
+    status |= mpz_set_str(zn, n, 0);
+    status |= mpz_set_str(zh, h, 0);
+    status |= mpz_set_str(zGx, Gx, 0);
+    status |= mpz_set_str(zGy, Gy, 0);
+
+    if (status == 0) {
+        status = mpECurve_set_mpz_ws(cv, zp, za, zb, zn, zh, zGx, zGy, bits);
     }
-    mpz_set_str(t, a, 0);
-    mpFp_set_mpz_fp(cv->coeff.ws.a, t, cv->fp);
-    mpz_set_str(t, b, 0);
-    mpFp_set_mpz_fp(cv->coeff.ws.b, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
-    cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
-    mpz_clear(t);
+
+    mpz_clear(zGy);
+    mpz_clear(zGx);
+    mpz_clear(zh);
+    mpz_clear(zn);
+    mpz_clear(zb);
+    mpz_clear(za);
+    mpz_clear(zp);
     return status;
 }
 
 int mpECurve_set_str_ed(mpECurve_t cv, char *p, char *c, char *d, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
     int status;
-    mpFp_field_ptr fp;
-    mpz_t t;
+    mpz_t zp, zc, zd, zn, zh, zGx, zGy;
 
-    mpz_init(t);
-    mpz_set_str(t, p, 0);
-    fp = _mpFp_field_lookup(t);
-    cv->fp = fp;
-    if (cv->type != EQTypeEdwards) {
-        _mpECurve_clear_coeff(cv);
-        cv->type = EQTypeEdwards;
-        _mpECurve_init_coeff(cv);
+    mpz_init(zp);
+    mpz_init(zc);
+    mpz_init(zd);
+    mpz_init(zn);
+    mpz_init(zh);
+    mpz_init(zGx);
+    mpz_init(zGy);
+
+    status = mpz_set_str(zp, p, 0);
+    status |= mpz_set_str(zc, c, 0);
+    status |= mpz_set_str(zd, d, 0);
+    status |= mpz_set_str(zn, n, 0);
+    status |= mpz_set_str(zh, h, 0);
+    status |= mpz_set_str(zGx, Gx, 0);
+    status |= mpz_set_str(zGy, Gy, 0);
+
+    if (status == 0) {
+        status = mpECurve_set_mpz_ed(cv, zp, zc, zd, zn, zh, zGx, zGy, bits);
     }
-    mpz_set_str(t, c, 0);
-    mpFp_set_mpz_fp(cv->coeff.ed.c, t, cv->fp);
-    mpz_set_str(t, d, 0);
-    mpFp_set_mpz_fp(cv->coeff.ed.d, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
-    cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
-    mpz_clear(t);
+
+    mpz_clear(zGy);
+    mpz_clear(zGx);
+    mpz_clear(zh);
+    mpz_clear(zn);
+    mpz_clear(zd);
+    mpz_clear(zc);
+    mpz_clear(zp);
     return status;
 }
 
@@ -898,15 +909,17 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_init(zGx);
     mpz_init(zGy);
 
-    mpz_set_str(zp, p, 0);
-    mpz_set_str(zB, B, 0);
-    mpz_set_str(zA, A, 0);
-    mpz_set_str(zn, n, 0);
-    mpz_set_str(zh, h, 0);
-    mpz_set_str(zGx, Gx, 0);
-    mpz_set_str(zGy, Gy, 0);
+    status = mpz_set_str(zp, p, 0);
+    status |= mpz_set_str(zB, B, 0);
+    status |= mpz_set_str(zA, A, 0);
+    status |= mpz_set_str(zn, n, 0);
+    status |= mpz_set_str(zh, h, 0);
+    status |= mpz_set_str(zGx, Gx, 0);
+    status |= mpz_set_str(zGy, Gy, 0);
 
-    status = mpECurve_set_mpz_mo(cv, zp, zB, zA, zn, zh, zGx, zGy, bits);
+    if (status == 0) {
+        status = mpECurve_set_mpz_mo(cv, zp, zB, zA, zn, zh, zGx, zGy, bits);
+    }
 
     mpz_clear(zGy);
     mpz_clear(zGx);
@@ -921,29 +934,35 @@ char *h, char *Gx, char *Gy, unsigned int bits){
 int mpECurve_set_str_te(mpECurve_t cv, char *p, char *a, char *d, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
     int status;
-    mpFp_field_ptr fp;
-    mpz_t t;
+    mpz_t zp, za, zd, zn, zh, zGx, zGy;
 
-    mpz_init(t);
-    mpz_set_str(t, p, 0);
-    fp = _mpFp_field_lookup(t);
-    cv->fp = fp;
-    if (cv->type != EQTypeTwistedEdwards) {
-        _mpECurve_clear_coeff(cv);
-        cv->type = EQTypeTwistedEdwards;
-        _mpECurve_init_coeff(cv);
+    mpz_init(zp);
+    mpz_init(za);
+    mpz_init(zd);
+    mpz_init(zn);
+    mpz_init(zh);
+    mpz_init(zGx);
+    mpz_init(zGy);
+
+    status = mpz_set_str(zp, p, 0);
+    status |= mpz_set_str(za, a, 0);
+    status |= mpz_set_str(zd, d, 0);
+    status |= mpz_set_str(zn, n, 0);
+    status |= mpz_set_str(zh, h, 0);
+    status |= mpz_set_str(zGx, Gx, 0);
+    status |= mpz_set_str(zGy, Gy, 0);
+
+    if (status == 0) {
+        status = mpECurve_set_mpz_te(cv, zp, za, zd, zn, zh, zGx, zGy, bits);
     }
-    mpz_set_str(t, a, 0);
-    mpFp_set_mpz_fp(cv->coeff.te.a, t, cv->fp);
-    mpz_set_str(t, d, 0);
-    mpFp_set_mpz_fp(cv->coeff.te.d, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
-    cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
-    mpz_clear(t);
+
+    mpz_clear(zGy);
+    mpz_clear(zGx);
+    mpz_clear(zh);
+    mpz_clear(zn);
+    mpz_clear(zd);
+    mpz_clear(za);
+    mpz_clear(zp);
     return status;
 }
 
-- 
2.43.0


From 9aa08f63b55d03e3934d03502282daef529f09ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 24/71] fix: adding a point to the identity bound the sum to
 the other curve object

---
 src/ecpoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 6d5a3d7..5218718 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -847,7 +847,11 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
             mpECP_set_neutral(rpt, pt1->cvp);
             return;
         } else {
+            mpECurve_ptr cvp = pt1->cvp;
+
+            // the sum belongs to the curve object of pt1 in every case
             mpECP_set(rpt, pt2);
+            rpt->cvp = cvp;
             return;
         }
     } else if (pt2->is_neutral != 0) {
-- 
2.43.0


From 18e733c8faba6d56b4066124412375e74fb12c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 25/71] fix: Python objects that were never initialised crashed
 the interpreter

---
 python/pycurve.c     | 28 ++++++++++++++----
 python/pycurve.h     |  3 ++
 python/pyecdsa.c     | 50 ++++++++++++++++++++++++-------
 python/pyecdsa.h     |  6 ++++
 python/pyecelgamal.c | 36 +++++++++++++++++------
 python/pyecelgamal.h |  3 ++
 python/pyfield.c     | 56 +++++++++++++++++++++++++++--------
 python/pyfield.h     |  3 ++
 python/pypoint.c     | 70 +++++++++++++++++++++++++++++++-------------
 python/pypoint.h     |  3 ++
 10 files changed, 202 insertions(+), 56 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 41deffc..9af6822 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -63,6 +63,12 @@ static int ECurve_init(ECurve *self, PyObject *args, PyObject *kwargs) {
     char *name;
 	int status;
 
+	// other objects may depend on the value
+	if (self->ready) {
+		PyErr_SetString(PyExc_TypeError, "ECurve object is already initialized");
+		return -1;
+	}
+
 	if (!PyArg_ParseTuple(args, "s", &name)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing ECurve_init arguments");
 		return -1;
@@ -96,9 +102,12 @@ static void ECurve_dealloc(ECurve *self) {
 static PyObject *ECurve_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
-	assert(PyObject_TypeCheck(a, &ECurveType) != 0);
+	if (!ECurve_Check(a)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECurve");
+		return NULL;
+	}
 
-	if (!PyObject_TypeCheck((PyObject *)b, &ECurveType)) {
+	if (!ECurve_Check(b)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
@@ -129,7 +138,10 @@ static PyObject *ECurve_check_point(PyObject *cv, PyObject *args) {
     int valid;
     int status;
 
-	assert(PyObject_TypeCheck(cv, &ECurveType) != 0);
+	if (!ECurve_Check(cv)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECurve");
+		return NULL;
+	}
 
 	if (!PyArg_ParseTuple(args, "OO", &x, &y)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing ECurve_init arguments");
@@ -535,7 +547,10 @@ static PyObject *ECurve_repr(PyObject *a) {
 	PyObject *p, *c1, *c2, *n, *h, *gx, *gy;
 	unsigned int bits;
 	PyObject *rep;
-	assert(PyObject_TypeCheck(a, &ECurveType) != 0);
+	if (!ECurve_Check(a)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECurve");
+		return NULL;
+	}
 	
 	p = _mpz_to_pylong(((ECurve *)a)->ec->fp->p);
 	assert(p != NULL);
@@ -596,7 +611,10 @@ static PyObject *ECurve_repr(PyObject *a) {
 static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
     ECurve *cv;
     
-	assert(PyObject_TypeCheck(o, &ECurveType) != 0);
+	if (!ECurve_Check(o)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECurve");
+		return NULL;
+	}
 	cv = (ECurve *)o;
 
     if (strcmp(attr_name, "p") == 0) {
diff --git a/python/pycurve.h b/python/pycurve.h
index 6d6f71f..18b54fe 100644
--- a/python/pycurve.h
+++ b/python/pycurve.h
@@ -47,6 +47,9 @@ typedef struct {
 
 extern PyTypeObject ECurveType;
 
+// an object of the type which holds a value (one made without __init__ does not)
+#define ECurve_Check(o)  (PyObject_TypeCheck((PyObject *)(o), &ECurveType) && (((ECurve *)(o))->ready != 0))
+
 PyObject *PyECurve_FromECurve(mpECurve_t cv);
 
 #ifdef __cplusplus
diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 00af979..acad7b4 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -127,12 +127,18 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
     Py_ssize_t bsz;
     int status;
 
+    // other objects may depend on the value
+    if (self->ready) {
+        PyErr_SetString(PyExc_TypeError, "ECDSASignature object is already initialized");
+        return -1;
+    }
+
     if (!PyArg_ParseTuple(args, "OO", (PyObject *)&ss, &ssbytes)) {
         PyErr_SetString(PyExc_TypeError, "Error parsing ECDSASignature_init arguments");
         return -1;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)ss, &ECDSASignatureSchemeType)) {
+    if (!ECDSASignatureScheme_Check(ss)) {
         PyErr_SetString(PyExc_TypeError, "ECDSASignature_init: expected ECDSASignatureScheme type as argument 1");
         return -1;
     }
@@ -180,7 +186,10 @@ static PyObject *ECDSASignature_str(PyObject *self) {
     char *sstr;
     PyObject *str;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!ECDSASignature_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECDSASignature");
+		return NULL;
+	}
     ssig = (ECDSASignature *)self;
 
     sstr = mpECDSASignature_export_str(ssig->sig);
@@ -197,7 +206,10 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
     size_t bsz;
     PyObject *bytes;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!ECDSASignature_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECDSASignature");
+		return NULL;
+	}
     ssig = (ECDSASignature *)self;
 
     sbytes = mpECDSASignature_export_bytes(ssig->sig, &bsz);
@@ -213,7 +225,10 @@ static PyObject *ECDSASignature_repr(PyObject *self) {
     PyObject *ssstr;
     ECDSASignature *ssig;
 
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!ECDSASignature_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECDSASignature");
+		return NULL;
+	}
     ssig = (ECDSASignature *)self;
 
     ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
@@ -248,7 +263,10 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     _hash_and_msg_t ham;
     int status;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+    if (!ECDSASignature_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECDSASignature");
+		return NULL;
+	}
     ssis = (ECDSASignature *)self;
 
 	if (!PyArg_ParseTuple(args, "OO", &key, &msg)) {
@@ -256,7 +274,7 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 		return NULL;
 	}
 
-    if(!PyObject_TypeCheck(key, &ECPointType)) {
+    if(!ECPoint_Check(key)) {
 		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 1st arg must be public key of ECPoint type");
 		return NULL;
     }
@@ -370,12 +388,18 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     long int hsz;
     int status;
 
+    // other objects may depend on the value
+    if (self->ready) {
+        PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme object is already initialized");
+        return -1;
+    }
+
     if (!PyArg_ParseTuple(args, "OO", &curve, &hashmodule)) {
         PyErr_SetString(PyExc_TypeError, "Error parsing ECDSASignatureScheme_init arguments");
         return -1;
     }
 
-    if(!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+    if(!ECurve_Check(curve)) {
         PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_init: expected ECurve type as argument 1");
         return -1;
     }
@@ -496,7 +520,10 @@ static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     PyObject *cvstr;
     ECDSASignatureScheme *ss;
 
-    assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
+    if (!ECDSASignatureScheme_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECDSASignatureScheme");
+		return NULL;
+	}
     ss = (ECDSASignatureScheme *)self;
 
     cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
@@ -533,7 +560,10 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     _hash_and_msg_t ham;
     int status;
     
-    assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
+    if (!ECDSASignatureScheme_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECDSASignatureScheme");
+		return NULL;
+	}
     ss = (ECDSASignatureScheme *)self;
 
 	if (!PyArg_ParseTuple(args, "OO", &key, &msg)) {
@@ -541,7 +571,7 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 		return NULL;
 	}
 
-    if(PyObject_TypeCheck(key, &FieldElementType)) {
+    if(FieldElement_Check(key)) {
         kfe = (FieldElement *)key;
     } else if (PyLong_Check(key)) {
         mpz_t fe_i;
diff --git a/python/pyecdsa.h b/python/pyecdsa.h
index c9faf73..0ae5be3 100644
--- a/python/pyecdsa.h
+++ b/python/pyecdsa.h
@@ -48,6 +48,9 @@ typedef struct {
 
 extern PyTypeObject ECDSASignatureSchemeType;
 
+// an object of the type which holds a value (one made without __init__ does not)
+#define ECDSASignatureScheme_Check(o)  (PyObject_TypeCheck((PyObject *)(o), &ECDSASignatureSchemeType) && (((ECDSASignatureScheme *)(o))->ready != 0))
+
 typedef struct {
     PyObject_HEAD
     mpECDSASignature_t sig;
@@ -57,6 +60,9 @@ typedef struct {
 
 extern PyTypeObject ECDSASignatureType;
 
+// an object of the type which holds a value (one made without __init__ does not)
+#define ECDSASignature_Check(o)  (PyObject_TypeCheck((PyObject *)(o), &ECDSASignatureType) && (((ECDSASignature *)(o))->ready != 0))
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 933e3a7..2bdbc85 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -67,17 +67,23 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     ECPoint *C;
     ECPoint *D;
 
+    // other objects may depend on the value
+    if (self->ready) {
+        PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext object is already initialized");
+        return -1;
+    }
+
     if (!PyArg_ParseTuple(args, "OO", (PyObject *)&C, &D)) {
         PyErr_SetString(PyExc_TypeError, "Error parsing ECElgamalCiphertext_init arguments");
         return -1;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)C, &ECPointType)) {
+    if (!ECPoint_Check(C)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 1 (C)");
         return -1;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)D, &ECPointType)) {
+    if (!ECPoint_Check(D)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 2 (D)");
         return -1;
     }
@@ -108,7 +114,10 @@ static PyObject *ECElgamalCiphertext_str(PyObject *self) {
     size_t sz;
     PyObject *str;
     
-    assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+    if (!ECElgamalCiphertext_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECElgamalCiphertext");
+		return NULL;
+	}
     egc = (ECElgamalCiphertext *)self;
 
     sz = mpECP_out_strlen(egc->ctxt->C, 1);
@@ -132,7 +141,10 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     PyObject *Dstr;
     ECElgamalCiphertext *egc;
 
-    assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+    if (!ECElgamalCiphertext_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECElgamalCiphertext");
+		return NULL;
+	}
     egc = (ECElgamalCiphertext *)self;
 
 	Cpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
@@ -172,12 +184,12 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
         return NULL;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)key, &ECPointType)) {
+    if (!ECPoint_Check(key)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 1 (public key)");
         return NULL;
     }
 
-    if (!PyObject_TypeCheck((PyObject *)ptxt, &ECPointType)) {
+    if (!ECPoint_Check(ptxt)) {
         PyErr_SetString(PyExc_TypeError, "ECElgamalCiphertext_init: expected ECPoint type as argument 2 (plaintext)");
         return NULL;
     }
@@ -216,10 +228,13 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
     int status;
     ECElgamalCiphertext *egc;
 
-    assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+    if (!ECElgamalCiphertext_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECElgamalCiphertext");
+		return NULL;
+	}
     egc = (ECElgamalCiphertext *)self;
 
-    if (PyObject_TypeCheck(sK, &FieldElementType)) {
+    if (FieldElement_Check(sK)) {
         feK = ((FieldElement *)sK)->fe;
 
         if (mpz_cmp(feK->fp->p, egc->ctxt->C->cvp->n) != 0) {
@@ -270,7 +285,10 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
 static PyObject *ECElgamalCiphertext_getattr(PyObject *o, char *attr_name) {
     ECElgamalCiphertext *egc;
 
-    assert(PyObject_TypeCheck(o, &ECElgamalCiphertextType) != 0);
+    if (!ECElgamalCiphertext_Check(o)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECElgamalCiphertext");
+		return NULL;
+	}
     egc = (ECElgamalCiphertext *)o;
 
     if (strcmp(attr_name, "C") == 0) {
diff --git a/python/pyecelgamal.h b/python/pyecelgamal.h
index 2bf502a..58ace80 100644
--- a/python/pyecelgamal.h
+++ b/python/pyecelgamal.h
@@ -47,6 +47,9 @@ typedef struct {
 
 extern PyTypeObject ECElgamalCiphertextType;
 
+// an object of the type which holds a value (one made without __init__ does not)
+#define ECElgamalCiphertext_Check(o)  (PyObject_TypeCheck((PyObject *)(o), &ECElgamalCiphertextType) && (((ECElgamalCiphertext *)(o))->ready != 0))
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/python/pyfield.c b/python/pyfield.c
index d90d0b1..e61a976 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -74,6 +74,12 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 	mpz_t pmpz;
 	int status;
 
+	// other objects may depend on the value
+	if (self->ready) {
+		PyErr_SetString(PyExc_TypeError, "FieldElement object is already initialized");
+		return -1;
+	}
+
 	if (!PyArg_ParseTuple(args, "OO", &i, &p)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing FieldElement_init arguments");
 		return -1;
@@ -123,6 +129,11 @@ static PyObject *FieldElement_op_int(FieldElement *self, PyObject *none) {
 	PyObject *rop;
 	mpz_t t;
 
+	if (!FieldElement_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized FieldElement");
+		return NULL;
+	}
+
 	mpz_init(t);
 
 	// convert mpz to bytes, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
@@ -161,8 +172,8 @@ static PyObject *FieldElement_op_add_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_add(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
-	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Check(op1)) {
+		if(FieldElement_Check(op2)) {
 			return FieldElement_op_add(op2, op1);
 		}
 		PyErr_SetString(PyExc_TypeError, "expected FieldElement, got something else.");
@@ -173,7 +184,7 @@ static PyObject *FieldElement_op_add(FieldElement *op1, FieldElement *op2) {
 		return FieldElement_op_add_pylong(op1, (PyLongObject *)op2);
 	}
 	
-	if(!PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Check(op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -218,8 +229,8 @@ static PyObject *FieldElement_op_sub_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
-	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Check(op1)) {
+		if(FieldElement_Check(op2)) {
 			PyObject *nop1;
 			PyObject *nop2;
 			nop1 = (Py_TYPE(op1))->tp_as_number->nb_negative((PyObject *)op1);
@@ -240,7 +251,7 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 		return FieldElement_op_sub_pylong(op1, (PyLongObject *)op2);
 	}
 	
-	if(!PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Check(op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -285,8 +296,8 @@ static PyObject *FieldElement_op_mul_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
-	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Check(op1)) {
+		if(FieldElement_Check(op2)) {
 			return FieldElement_op_mul(op2, op1);
 		}
 		PyErr_SetString(PyExc_TypeError, "expected FieldElement, got something else.");
@@ -297,7 +308,7 @@ static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 		return FieldElement_op_mul_pylong(op1, (PyLongObject *)op2);
 	}
 	
-	if(!PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	if(!FieldElement_Check(op2)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -317,6 +328,11 @@ static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 
 static PyObject *FieldElement_op_neg(FieldElement *op1) {
 	FieldElement *rop;
+
+	if (!FieldElement_Check(op1)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized FieldElement");
+		return NULL;
+	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -330,6 +346,11 @@ static PyObject *FieldElement_op_neg(FieldElement *op1) {
 static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObject *none) {
 	FieldElement *rop;
 	int status;
+
+	if (!FieldElement_Check(op1)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized FieldElement");
+		return NULL;
+	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -347,6 +368,11 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
 static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
 	FieldElement *rop;
 	int status;
+
+	if (!FieldElement_Check(op1)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized FieldElement");
+		return NULL;
+	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -396,7 +422,10 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
-	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
+	if (!FieldElement_Check(a)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized FieldElement");
+		return NULL;
+	}
 
 	if (PyLong_Check(b)) {
 		mpz_t bmpz;
@@ -425,7 +454,7 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		}
 		mpz_clear(bmpz);
 	} else {
-		if (!PyObject_TypeCheck((PyObject *)b, &FieldElementType)) {
+		if (!FieldElement_Check(b)) {
 			Py_RETURN_NOTIMPLEMENTED;
 		}
 		switch (op) {
@@ -490,7 +519,10 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	PyObject *i;
 	PyObject *p;
 	PyObject *rep;
-	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
+	if (!FieldElement_Check(a)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized FieldElement");
+		return NULL;
+	}
 	
 	i = _mpFp_to_pylong(((FieldElement *)a)->fe);
 	assert(i != NULL);
diff --git a/python/pyfield.h b/python/pyfield.h
index c5a9a2b..fb5fc8e 100644
--- a/python/pyfield.h
+++ b/python/pyfield.h
@@ -47,6 +47,9 @@ typedef struct {
 
 extern PyTypeObject FieldElementType;
 
+// an object of the type which holds a value (one made without __init__ does not)
+#define FieldElement_Check(o)  (PyObject_TypeCheck((PyObject *)(o), &FieldElementType) && (((FieldElement *)(o))->ready != 0))
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/python/pypoint.c b/python/pypoint.c
index 4a9d2d8..fd76786 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -72,12 +72,18 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
     PyObject *initial = NULL;
 	int status;
 
+	// other objects may depend on the value
+	if (self->ready) {
+		PyErr_SetString(PyExc_TypeError, "ECPoint object is already initialized");
+		return -1;
+	}
+
 	if (!PyArg_ParseTuple(args, "O|O", &curve, &initial)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing ECPoint_init arguments");
 		return -1;
 	}
 
-	if(!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+	if(!ECurve_Check(curve)) {
 		PyErr_SetString(PyExc_TypeError, "ECPoint_init: expected ECurve type as argument 1");
 		return -1;
 	}
@@ -119,8 +125,8 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 mpz_clear(iympz);
                 mpz_clear(ixmpz);
             } else {
-                if ((!PyObject_TypeCheck(ix, &FieldElementType)) || 
-                    (!PyObject_TypeCheck(iy, &FieldElementType))) {
+                if ((!FieldElement_Check(ix)) || 
+                    (!FieldElement_Check(iy))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
         		    return -1;
                 }
@@ -193,7 +199,10 @@ static PyObject *ECPoint_str(PyObject *self) {
     PyObject *pointstr;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!ECPoint_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECPoint");
+		return NULL;
+	}
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_strlen(ecself->ecp, 1);
@@ -211,7 +220,10 @@ static PyObject *ECPoint_binary(PyObject *self) {
     PyObject *pointbin;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!ECPoint_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECPoint");
+		return NULL;
+	}
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 1);
@@ -229,7 +241,10 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
     PyObject *pointbin;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!ECPoint_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECPoint");
+		return NULL;
+	}
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 0);
@@ -246,7 +261,10 @@ static PyObject *ECPoint_repr(PyObject *self) {
     PyObject *cvstr;
     ECPoint *ecself;
 
-	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (!ECPoint_Check(self)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECPoint");
+		return NULL;
+	}
 	ecself = (ECPoint *)self;
 
     pointstr = ECPoint_str(self);
@@ -271,9 +289,12 @@ static void ECPoint_dealloc(ECPoint *self) {
 static PyObject *ECPoint_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
-	assert(PyObject_TypeCheck(a, &ECPointType) != 0);
+	if (!ECPoint_Check(a)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECPoint");
+		return NULL;
+	}
 
-	if (!PyObject_TypeCheck((PyObject *)b, &ECPointType)) {
+	if (!ECPoint_Check(b)) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
@@ -301,8 +322,8 @@ static PyObject *ECPoint_richcompare(PyObject *a, PyObject *b, int op) {
 static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
 	ECPoint *rop;
 
-	if ((!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) ||
-		(!PyObject_TypeCheck((PyObject *)op2, &ECPointType))) {
+	if ((!ECPoint_Check(op1)) ||
+		(!ECPoint_Check(op2))) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -323,8 +344,8 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
 static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
 	ECPoint *rop;
 
-	if ((!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) ||
-		(!PyObject_TypeCheck((PyObject *)op2, &ECPointType))) {
+	if ((!ECPoint_Check(op1)) ||
+		(!ECPoint_Check(op2))) {
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 	
@@ -345,7 +366,7 @@ static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
 static PyObject *ECPoint_op_neg(ECPoint *op1) {
 	ECPoint *rop;
 
-	if (!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) {
+	if (!ECPoint_Check(op1)) {
 		PyErr_SetString(PyExc_TypeError, "unsupported operand type for ECPoint negation(unary -)");
 		return NULL;
 	}
@@ -364,8 +385,8 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	mpz_t scalar;
 	int negative = 0;
 
-	if(!PyObject_TypeCheck(op1, &ECPointType)) {
-		if(PyObject_TypeCheck((PyObject *)op2, &ECPointType)) {
+	if(!ECPoint_Check(op1)) {
+		if(ECPoint_Check(op2)) {
 			return ECPoint_op_mul(op2, op1);
 		}
 		PyErr_SetString(PyExc_TypeError, "expected ECPointType, got something else.");
@@ -383,7 +404,7 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 		    negative = 1;
 		    mpz_neg(scalar, scalar);
 		}
-	} else if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
+	} else if(FieldElement_Check(op2)) {
 	    mpz_set_mpFp(scalar, ((FieldElement *)op2)->fe);
     } else {
 		Py_RETURN_NOTIMPLEMENTED;
@@ -415,7 +436,10 @@ PyDoc_STRVAR(ECPoint_urandom__doc__,
 static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	ECPoint *rop;
 	
-	assert(PyObject_TypeCheck((PyObject *)curve, &ECurveType));
+	if (!ECurve_Check(curve)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECurve");
+		return NULL;
+	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
     mpECP_urandom(rop->ecp, curve->ec);
@@ -433,7 +457,10 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
     mpz_t zx, zy;
     int status;
 	
-	assert(PyObject_TypeCheck((PyObject *)p, &ECPointType));
+	if (!ECPoint_Check(p)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECPoint");
+		return NULL;
+	}
 	
 	mpz_init(zx);
 	mpz_init(zy);
@@ -461,7 +488,10 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 }
 
 static PyObject *ECPoint_set_basemult(PyObject *p, PyObject *none) {
-	assert(PyObject_TypeCheck((PyObject *)p, &ECPointType));
+	if (!ECPoint_Check(p)) {
+		PyErr_SetString(PyExc_TypeError, "expected an initialized ECPoint");
+		return NULL;
+	}
 
     mpECP_scalar_base_mul_setup(((ECPoint *)p)->ecp);
     
diff --git a/python/pypoint.h b/python/pypoint.h
index 7687c64..1176e1f 100644
--- a/python/pypoint.h
+++ b/python/pypoint.h
@@ -49,6 +49,9 @@ typedef struct {
 
 extern PyTypeObject ECPointType;
 
+// an object of the type which holds a value (one made without __init__ does not)
+#define ECPoint_Check(o)  (PyObject_TypeCheck((PyObject *)(o), &ECPointType) && (((ECPoint *)(o))->ready != 0))
+
 PyObject *PyECPoint_FromECP(mpECP_t pt);
 
 #ifdef __cplusplus
-- 
2.43.0


From 45bcec25a1b63b80d81feb4dbddec7fdb7a787d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 26/71] fix: Python field elements accepted moduli the field
 code cannot work with

---
 python/pyfield.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index e61a976..ad8bcf0 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -47,6 +47,13 @@ static inline void mpFp_realloc(mpFp_t c) {
     }
 }
 
+// the field implementation (Montgomery reduction) requires an odd modulus
+// which fits in the fixed size buffers of the field operations
+static int _modulus_is_valid(mpz_t p) {
+	return (mpz_cmp_ui(p, 3) >= 0) && (mpz_odd_p(p) != 0) &&
+		(mpz_size(p) * 2 <= _MPFP_MAX_LIMBS);
+}
+
 PyDoc_STRVAR(FieldElement__doc__,
 "FieldElement implements a prime field element type.\n");
 
@@ -93,6 +100,12 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 		return -1;
 	}
 
+	if (!_modulus_is_valid(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement modulus must be odd, at least 3 and at most 1024 bits");
+		mpz_clear(pmpz);
+		return -1;
+	}
+
 	mpz_init(impz);
     status = _pylong_to_mpz(i, impz);
 	if (status != 0) {
@@ -373,6 +386,12 @@ static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
 		PyErr_SetString(PyExc_TypeError, "expected an initialized FieldElement");
 		return NULL;
 	}
+
+	// the square root algorithm does not terminate for composite moduli
+	if (mpz_probab_prime_p(op1->fe->fp->p, 25) == 0) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement sqrt requires a prime modulus");
+		return NULL;
+	}
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -408,7 +427,14 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 		return NULL;
 	}
 
+	if (!_modulus_is_valid(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement modulus must be odd, at least 3 and at most 1024 bits");
+		mpz_clear(pmpz);
+		return NULL;
+	}
+
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
+	mpFp_init(rop->fe, pmpz);
     mpFp_urandom(rop->fe, pmpz);
 
     mpz_clear(pmpz);
-- 
2.43.0


From 5df8f8e5e8918beb99effb692158606fdc09cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 27/71] fix: Python field subtraction and power crashed on
 unsupported left operands

---
 python/pyfield.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index ad8bcf0..ec5bdee 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -215,6 +215,8 @@ static PyObject *FieldElement_op_add(FieldElement *op1, FieldElement *op2) {
     return (PyObject *)rop;
 }
 
+static PyObject *FieldElement_op_neg(FieldElement *op1);
+
 static PyObject *FieldElement_op_sub_pylong(FieldElement *op1, PyLongObject *op2) {
 	FieldElement *rop;
 	mpz_t op2z;
@@ -244,15 +246,17 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 
 	if(!FieldElement_Check(op1)) {
 		if(FieldElement_Check(op2)) {
-			PyObject *nop1;
 			PyObject *nop2;
-			nop1 = (Py_TYPE(op1))->tp_as_number->nb_negative((PyObject *)op1);
-			nop2 = (Py_TYPE(op2))->tp_as_number->nb_negative((PyObject *)op2);
-			if ((nop1 == NULL) || (nop2 == NULL)) {
+
+			if(!PyLong_Check((PyObject *)op1)) {
+				Py_RETURN_NOTIMPLEMENTED;
+			}
+			// a - b = (-b) + a
+			nop2 = FieldElement_op_neg(op2);
+			if (nop2 == NULL) {
 				return NULL;
 			}
-			rop = (FieldElement *)FieldElement_op_sub((FieldElement *)nop2, (FieldElement *)nop1);
-			Py_DECREF(nop1);
+			rop = (FieldElement *)FieldElement_op_add_pylong((FieldElement *)nop2, (PyLongObject *)op1);
 			Py_DECREF(nop2);
 			return (PyObject *)rop;
 		}
@@ -511,6 +515,10 @@ static PyObject *FieldElement_op_power(FieldElement *a, FieldElement *b, PyObjec
 	unsigned long bui;
 	int status;
 	
+	if (!FieldElement_Check(a)) {
+		Py_RETURN_NOTIMPLEMENTED;
+	}
+
 	if (c != Py_None) {
 		PyErr_SetString(PyExc_ValueError, "Optional 3rd argument to pow() not supported for Type");
 		return NULL;
-- 
2.43.0


From ccf95c4eefac5d20b1e886d82aac01320fdfaa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 28/71] fix: ordering a Python field element against an integer
 leaked

---
 python/pyfield.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index ec5bdee..b1257c7 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -463,9 +463,9 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		
 		mpz_init(bmpz);
 		status = _pylong_to_mpz((PyLongObject *)b, bmpz);
-		assert(status == 0);
 		if (status != 0) {
 			PyErr_SetString(PyExc_TypeError, "Error converting integer to mpz_t");
+			mpz_clear(bmpz);
 			return NULL;
 		}
 		switch (op) {
@@ -480,6 +480,7 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 			}
 			break;
 		default:
+			mpz_clear(bmpz);
 			Py_RETURN_NOTIMPLEMENTED;
 		}
 		mpz_clear(bmpz);
-- 
2.43.0


From ecbc9e35c203baa5e7576a9263cd8ac39f6ad8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 29/71] fix: comparing Python elements of different fields
 ended the process

---
 python/pyfield.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index b1257c7..b917b29 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -488,6 +488,14 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		if (!FieldElement_Check(b)) {
 			Py_RETURN_NOTIMPLEMENTED;
 		}
+		// elements of different fields are never equal
+		if ((((FieldElement *)a)->fe->fp != ((FieldElement *)b)->fe->fp) &&
+			((op == Py_EQ) || (op == Py_NE))) {
+			if (op == Py_NE) {
+				Py_RETURN_TRUE;
+			}
+			Py_RETURN_FALSE;
+		}
 		switch (op) {
 		case Py_EQ:
 			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0) {
-- 
2.43.0


From 7e3984ee156a31f91dcd99c29229d22f92e7d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 30/71] fix: Python inverse and sqrt without a result leaked an
 object

---
 python/pyfield.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index b917b29..a2de874 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -376,6 +376,7 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
     status = mpFp_inv(rop->fe, op1->fe);
     if (__GMP_UNLIKELY(status != 0)) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -404,6 +405,7 @@ static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
     status = mpFp_sqrt(rop->fe, op1->fe);
     if (status != 0) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
-- 
2.43.0


From 188542efae7d360a0b90a4ced99eb598fa3ba01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 31/71] fix: failed Python point construction leaked the point
 and its curve

---
 python/pypoint.c | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index fd76786..51a6e17 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -99,7 +99,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
             if (PyTuple_Size(initial) != 2) {
         		PyErr_SetString(PyExc_TypeError, "initializer tuple size mismatch");
-        		return -1;
+        		goto InitError;
             }
             
             ix = PyTuple_GetItem(initial, 0);
@@ -112,7 +112,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
                 if (!PyLong_Check(iy)) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
                 
                 mpz_init(ixmpz);
@@ -128,13 +128,13 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 if ((!FieldElement_Check(ix)) || 
                     (!FieldElement_Check(iy))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
 
                 if ((((FieldElement *)ix)->fe->fp != ((ECurve *)curve)->ec->fp) || 
                     (((FieldElement *)iy)->fe->fp != ((ECurve *)curve)->ec->fp)) {
         		    PyErr_SetString(PyExc_ValueError, "initializer tuple field order mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
 
                 mpECP_set_mpFp(self->ecp, ((FieldElement *)ix)->fe,
@@ -148,7 +148,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 status = mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto InitError;
                 }
             } else if (PyBytes_Check(initial)) { 
             	unsigned char *buffer;
@@ -157,32 +157,16 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 status = PyBytes_AsStringAndSize(initial, (char **)&buffer, &bsize);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "unable to convert bytes initializer");
-            		return -1;
+            		goto InitError;
                 }
                 status = mpECP_set_bytes(self->ecp,buffer, (size_t)bsize, ((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto InitError;
                 }
             } else {
         		PyErr_SetString(PyExc_TypeError, "initializer type mismatch, expected unicode string");
-        		return -1;
-                //char *buffer;
-                //int len;
-                //if (!PyBytes_Check(initial) {
-        		//    PyErr_SetString(PyExc_TypeError, "initializer type mismatch, expected bytes");
-        		//    return -1;
-                //}
-
-                //status = PyBytes_AsStringAndSize(initial, &buffer, &len);
-                //if (status != 0) {
-        		//    PyErr_SetString(PyExc_ValueError, "initializer type mismatch, unable to convert bytes");
-        		//    return -1;
-                //}
-                
-                //if (buffer[0] == 0x04) {
-                    
-                //}
+        		goto InitError;
             }
         }
     }
@@ -191,6 +175,12 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 	self->ready = 1;
 	// all's clear
 	return 0;
+
+InitError:
+	mpECP_clear(self->ecp);
+	self->cv = NULL;
+	Py_DECREF(curve);
+	return -1;
 }
 
 static PyObject *ECPoint_str(PyObject *self) {
-- 
2.43.0


From ae11f0a10acc283272414a001587518177e4d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 32/71] fix: Python point text which is not plain ASCII crashed
 or was truncated

---
 python/pypoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pypoint.c b/python/pypoint.c
index 51a6e17..67baf92 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -145,6 +145,11 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 char *buffer;
 
                 buffer = (char *)PyUnicode_AsUTF8(initial);
+                if (buffer == NULL) goto InitError;
+                if (strlen(buffer) != (size_t)PyUnicode_GET_LENGTH(initial)) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		goto InitError;
+                }
                 status = mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-- 
2.43.0


From 011c72cd110e05c50262ddf2c3a78463117ee997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 33/71] fix: Python points accepted coordinates which are not
 on the curve

---
 python/pypoint.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/python/pypoint.c b/python/pypoint.c
index 67baf92..0cacdf6 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -120,11 +120,21 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 mpz_init(iympz);
                 _pylong_to_mpz((PyLongObject *)iy, iympz);
 
+                if (mpECurve_point_check(((ECurve *)curve)->ec, ixmpz, iympz) == 0) {
+                    mpz_clear(iympz);
+                    mpz_clear(ixmpz);
+        		    PyErr_SetString(PyExc_ValueError, "invalid curve point");
+        		    goto InitError;
+                }
+
                 mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
                 
                 mpz_clear(iympz);
                 mpz_clear(ixmpz);
             } else {
+                mpz_t ixmpz, iympz;
+                int valid;
+
                 if ((!FieldElement_Check(ix)) || 
                     (!FieldElement_Check(iy))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
@@ -137,6 +147,18 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         		    goto InitError;
                 }
 
+                mpz_init(ixmpz);
+                mpz_init(iympz);
+                mpz_set_mpFp(ixmpz, ((FieldElement *)ix)->fe);
+                mpz_set_mpFp(iympz, ((FieldElement *)iy)->fe);
+                valid = mpECurve_point_check(((ECurve *)curve)->ec, ixmpz, iympz);
+                mpz_clear(iympz);
+                mpz_clear(ixmpz);
+                if (valid == 0) {
+        		    PyErr_SetString(PyExc_ValueError, "invalid curve point");
+        		    goto InitError;
+                }
+
                 mpECP_set_mpFp(self->ecp, ((FieldElement *)ix)->fe,
                     ((FieldElement *)iy)->fe, ((ECurve *)curve)->ec);
             }
-- 
2.43.0


From fa4048cb7deb0ecdcb83fb817cfed40512bb6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 34/71] fix: Python point repr, affine and refused products
 leaked

---
 python/pypoint.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 0cacdf6..ff39ad4 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -276,6 +276,7 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
 static PyObject *ECPoint_repr(PyObject *self) {
     PyObject *pointstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECPoint *ecself;
 
 	if (!ECPoint_Check(self)) {
@@ -285,10 +286,18 @@ static PyObject *ECPoint_repr(PyObject *self) {
 	ecself = (ECPoint *)self;
 
     pointstr = ECPoint_str(self);
+    if (pointstr == NULL) return NULL;
 
-    cvstr = Py_TYPE((PyObject *)(ecself->cv))->tp_repr((PyObject *)(ecself->cv));
+    cvstr = PyObject_Repr((PyObject *)(ecself->cv));
+    if (cvstr == NULL) {
+        Py_DECREF(pointstr);
+        return NULL;
+    }
 
-	return PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+	rep = PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+	Py_DECREF(cvstr);
+	Py_DECREF(pointstr);
+	return rep;
 }
 
 // deallocates the object when done
@@ -411,6 +420,10 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	}
 	p = (ECPoint *)op1;
 
+	if (!PyLong_Check(op2) && !FieldElement_Check(op2)) {
+		Py_RETURN_NOTIMPLEMENTED;
+	}
+
 	mpz_init(scalar);
 	if(PyLong_Check(op2)) {
 	    int status;
@@ -421,10 +434,8 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 		    negative = 1;
 		    mpz_neg(scalar, scalar);
 		}
-	} else if(FieldElement_Check(op2)) {
+	} else {
 	    mpz_set_mpFp(scalar, ((FieldElement *)op2)->fe);
-    } else {
-		Py_RETURN_NOTIMPLEMENTED;
 	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
@@ -496,10 +507,8 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 
     status = PyTuple_SetItem(rt, 0, rx);
     assert(status == 0);
-    Py_INCREF(rx);
     status = PyTuple_SetItem(rt, 1, ry);
     assert(status == 0);
-    Py_INCREF(ry);
 
 	return (PyObject *)rt;
 }
-- 
2.43.0


From 02cda1d116fb20b799aec51548f30ba1d83db992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 35/71] fix: Python random points were filled in without being
 initialised

---
 python/pypoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pypoint.c b/python/pypoint.c
index ff39ad4..760282c 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -470,6 +470,7 @@ static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
+    mpECP_init(rop->ecp, curve->ec);
     mpECP_urandom(rop->ecp, curve->ec);
     rop->cv = curve;
     Py_INCREF(rop->cv);
-- 
2.43.0


From 74a7e9f38a79458635c89420bc69bd1febde08f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 36/71] fix: Python ElGamal points referred to curves that
 could be released before them

---
 python/pyecelgamal.c | 20 +++++++++++++++-----
 python/pypoint.c     |  9 ++++++---
 python/pypoint.h     |  3 ++-
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 2bdbc85..6d398a3 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -100,6 +100,9 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     mpECP_set(self->ctxt->C, C->ecp);
     mpECP_init(self->ctxt->D, D->ecp->cvp);
     mpECP_set(self->ctxt->D, D->ecp);
+    // only the curve object of C is kept alive by this object
+    self->ctxt->C->cvp = self->cv->ec;
+    self->ctxt->D->cvp = self->cv->ec;
 
     // you're ready!
     self->ready = 1;
@@ -147,8 +150,8 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
 	}
     egc = (ECElgamalCiphertext *)self;
 
-	Cpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
-	Dpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->D);
+	Cpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C, egc->cv);
+	Dpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->D, egc->cv);
     Cstr = Py_TYPE((PyObject *)Cpt)->tp_repr((PyObject *)Cpt);
     Dstr = Py_TYPE((PyObject *)Dpt)->tp_repr((PyObject *)Dpt);
 
@@ -209,6 +212,9 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
 
     Py_INCREF((PyObject *)key->cv);
     rop->cv = key->cv;
+    // only the curve object of the key is kept alive by this object
+    rop->ctxt->C->cvp = rop->cv->ec;
+    rop->ctxt->D->cvp = rop->cv->ec;
     
     // you're ready!
     rop->ready = 1;
@@ -262,7 +268,7 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         return NULL;
     }
 
-	rop = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
+	rop = (ECPoint *)ECPointType.tp_new(&ECPointType, NULL, NULL);
 
     status = mpECElgamal_init_decrypt(rop->ecp, feK, egc->ctxt);
 
@@ -273,8 +279,12 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
 
     if (status != 0) {
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error decrypting");
+        Py_DECREF(rop);
         return NULL;
     }
+    rop->ecp->cvp = egc->cv->ec;
+    rop->cv = egc->cv;
+    Py_INCREF(rop->cv);
 
     // you're ready!
     rop->ready = 1;
@@ -292,11 +302,11 @@ static PyObject *ECElgamalCiphertext_getattr(PyObject *o, char *attr_name) {
     egc = (ECElgamalCiphertext *)o;
 
     if (strcmp(attr_name, "C") == 0) {
-        return PyECPoint_FromECP(egc->ctxt->C);
+        return PyECPoint_FromECP(egc->ctxt->C, egc->cv);
     }
 
     if (strcmp(attr_name, "D") == 0) {
-        return PyECPoint_FromECP(egc->ctxt->D);
+        return PyECPoint_FromECP(egc->ctxt->D, egc->cv);
     }
 
     PyErr_SetString(PyExc_ValueError, "ECurve_getattr: Unknown attribute");
diff --git a/python/pypoint.c b/python/pypoint.c
index 760282c..b647d4e 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -525,13 +525,16 @@ static PyObject *ECPoint_set_basemult(PyObject *p, PyObject *none) {
     Py_RETURN_NONE;
 }
 
-PyObject *PyECPoint_FromECP(mpECP_t pt) {
+// pt refers to (a curve equal to) the curve held by cv, the new object shares
+// ownership of that curve
+PyObject *PyECPoint_FromECP(mpECP_t pt, ECurve *cv) {
 	ECPoint *rop;
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
-	mpECP_init(rop->ecp, pt->cvp);
+	mpECP_init(rop->ecp, cv->ec);
 	mpECP_set(rop->ecp, pt);
-	rop->cv = (ECurve *)PyECurve_FromECurve(pt->cvp);
+	rop->ecp->cvp = &cv->ec[0];
+	rop->cv = cv;
 	Py_INCREF(rop->cv);
 	rop->ready = 1;
 	return (PyObject *)rop;
diff --git a/python/pypoint.h b/python/pypoint.h
index 1176e1f..beb865f 100644
--- a/python/pypoint.h
+++ b/python/pypoint.h
@@ -34,6 +34,7 @@
 #include <gmp.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
+#include <pycurve.h>
 #include <Python.h>
 
 #ifdef __cplusplus
@@ -52,7 +53,7 @@ extern PyTypeObject ECPointType;
 // an object of the type which holds a value (one made without __init__ does not)
 #define ECPoint_Check(o)  (PyObject_TypeCheck((PyObject *)(o), &ECPointType) && (((ECPoint *)(o))->ready != 0))
 
-PyObject *PyECPoint_FromECP(mpECP_t pt);
+PyObject *PyECPoint_FromECP(mpECP_t pt, ECurve *cv);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From dbacc42f931cac3d2235bdf70db6da1da7e0134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 37/71] fix: Python ElGamal repr and failed encryption leaked

---
 python/pyecelgamal.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 6d398a3..4b545fe 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -142,6 +142,7 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     ECPoint *Dpt;
     PyObject *Cstr;
     PyObject *Dstr;
+    PyObject *rep;
     ECElgamalCiphertext *egc;
 
     if (!ECElgamalCiphertext_Check(self)) {
@@ -154,8 +155,16 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
 	Dpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->D, egc->cv);
     Cstr = Py_TYPE((PyObject *)Cpt)->tp_repr((PyObject *)Cpt);
     Dstr = Py_TYPE((PyObject *)Dpt)->tp_repr((PyObject *)Dpt);
+    Py_DECREF(Cpt);
+    Py_DECREF(Dpt);
 
-    return PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    rep = NULL;
+    if ((Cstr != NULL) && (Dstr != NULL)) {
+        rep = PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    }
+    Py_XDECREF(Cstr);
+    Py_XDECREF(Dstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -207,6 +216,7 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
     status = mpECElgamal_init_encrypt(rop->ctxt, key->ecp, ptxt->ecp);
     if (status != 0) {
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error encrypting");
+        Py_DECREF(rop);
         return NULL;
     }
 
-- 
2.43.0


From 18ae24bccc8bd5fd6947abc2da2899a564323cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 38/71] fix: Python attribute lookup crashed on unencodable
 names and raised ValueError

---
 python/pycurve.c     | 11 ++++++++---
 python/pyecelgamal.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 9af6822..5db30b6 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -706,7 +706,7 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
         break;
     }
 
-    PyErr_SetString(PyExc_ValueError, "ECurve_getattr: Unknown attribute");
+    PyErr_SetString(PyExc_AttributeError, "ECurve_getattr: Unknown attribute");
     return NULL;
 }
 
@@ -723,8 +723,13 @@ static PyObject *ECurve_getattro(PyObject *o, PyObject *attr_name) {
         return tmp;
     }
 
-	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    // GenericGetAttr only reports AttributeError for names which are strings
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
+    if (strlen(attr_nm_c) != (size_t)PyUnicode_GET_LENGTH(attr_name)) {
+        PyErr_SetString(PyExc_AttributeError, "ECurve_getattr: Unknown attribute");
+        return NULL;
+    }
 
     return ECurve_getattr(o, attr_nm_c);
 }
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 4b545fe..3fadb8b 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -319,7 +319,7 @@ static PyObject *ECElgamalCiphertext_getattr(PyObject *o, char *attr_name) {
         return PyECPoint_FromECP(egc->ctxt->D, egc->cv);
     }
 
-    PyErr_SetString(PyExc_ValueError, "ECurve_getattr: Unknown attribute");
+    PyErr_SetString(PyExc_AttributeError, "ECElgamalCiphertext_getattr: Unknown attribute");
     return NULL;
 }
 
@@ -336,8 +336,13 @@ static PyObject *ECElgamalCiphertext_getattro(PyObject *o, PyObject *attr_name)
         return tmp;
     }
 
-	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    // GenericGetAttr only reports AttributeError for names which are strings
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
+    if (strlen(attr_nm_c) != (size_t)PyUnicode_GET_LENGTH(attr_name)) {
+        PyErr_SetString(PyExc_AttributeError, "ECElgamalCiphertext_getattr: Unknown attribute");
+        return NULL;
+    }
 
     return ECElgamalCiphertext_getattr(o, attr_nm_c);
 }
-- 
2.43.0


From 6b75c12f29bb917b9ab4d2f4f51040382642fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 39/71] fix: Python curve objects leaked on unknown names and
 on reading the generator

---
 python/pycurve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 5db30b6..4b5c214 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -78,6 +78,7 @@ static int ECurve_init(ECurve *self, PyObject *args, PyObject *kwargs) {
     status = mpECurve_set_named(self->ec, name);
     
     if (status != 0) {
+		mpECurve_clear(self->ec);
 		PyErr_SetString(PyExc_ValueError, "Unable to find curve matching name");
 		return -1;
     }
@@ -645,10 +646,8 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
 
         status = PyTuple_SetItem(t, 0, gx);
         assert(status == 0);
-        Py_INCREF(gx);
         status = PyTuple_SetItem(t, 1, gy);
         assert(status == 0);
-        Py_INCREF(gy);
 
         return t;
     }
-- 
2.43.0


From 5232f0e9bfd039b6d58efd2e19d49363635232f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 40/71] fix: Python list of curve names leaked the C list

---
 python/pycurve.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 4b5c214..0e84af3 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -533,13 +533,12 @@ static PyObject *ECurve_list_curve_names(PyObject *type, PyObject *none) {
         assert(pstr != NULL);
         status = PyList_Append(clist, pstr);
         Py_DECREF(pstr);
-        if (status != 0) {
-            Py_DECREF(clist);
-            return NULL;
-        }
+        assert(status == 0);
+        free(list[i]);
 
         i++;
     }
+    free(list);
     return clist;
 }
 
-- 
2.43.0


From 3be72e3696c93187ebe356724e8f9c4c702dfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 41/71] fix: Python ECDSA crashed, overran or leaked on failing
 hash modules, keys and messages

---
 python/pyecdsa.c | 231 +++++++++++++++++++++--------------------------
 1 file changed, 103 insertions(+), 128 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index acad7b4..af3dd4a 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -42,62 +42,83 @@
 #include <Python.h>
 #include <structmember.h>
 
-// since we want to call back into a python hash function to generate the
-// message digest we need to pass both a pointer to the message and the
-// python hash function module in place of msg pointer
+// the message digest is generated by a python hash function, which can fail.
+// As there is no way to report that from the hash function called by the C
+// library the digest is calculated beforehand and passed in place of the
+// message
 typedef struct {
-    PyObject *hashmodule;
-    PyObject *msg;
-} _hash_and_msg_t;
+    unsigned char *digest;
+    size_t hsz;
+} _hash_digest_t;
 
-// c routine to call the python hash function - note presumes that the
-// the msg has been replaced by _hash_and_msg_t to encode both the python
-// hash function and the message bytes (python bytes object)
-static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
-    _hash_and_msg_t *ham;
-    PyObject *mdict;
+// call hashmodule.new(msg).digest(), returns bytes object (new reference) or
+// NULL with an exception set
+static PyObject *_python_digest(PyObject *hashmodule, PyObject *msg) {
     PyObject *hnew;
-    PyObject *tuple;
     PyObject *pyhash;
     PyObject *hbytes;
-    int status;
-    Py_ssize_t hsz;
-    unsigned char *digest;
-    
-    ham = (_hash_and_msg_t *)msg;
-    
-    // no way to error out here, calling function must ensure message is bytes
-    assert(PyBytes_Check(ham->msg));
-
-    // call hash.new(msg) to initialize and process message
-    mdict = PyModule_GetDict(ham->hashmodule);
-    assert(PyDict_Check(mdict));
-    hnew = PyDict_GetItemString(mdict, "new");
-    assert(PyFunction_Check(hnew));
-    assert(PyCallable_Check(hnew));
-    Py_INCREF(hnew);
 
-    tuple = PyTuple_New(1);
-    assert(tuple != NULL);
-    Py_INCREF(ham->msg);
-    status = PyTuple_SetItem(tuple, 0, ham->msg);
-    assert(status == 0);
-    pyhash = PyObject_CallObject(hnew, tuple);
-    assert(pyhash != NULL);
-    Py_DECREF(ham->msg);
+    hnew = PyDict_GetItemString(PyModule_GetDict(hashmodule), "new");
+    if ((hnew == NULL) || !PyFunction_Check(hnew)) {
+        PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
+        return NULL;
+    }
+
+    Py_INCREF(hnew);
+    pyhash = PyObject_CallFunctionObjArgs(hnew, msg, NULL);
     Py_DECREF(hnew);
+    if (pyhash == NULL) return NULL;
 
-    Py_INCREF(pyhash);
     hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-    assert(PyBytes_Check(hbytes));
     Py_DECREF(pyhash);
+    if (hbytes == NULL) return NULL;
+
+    if (!PyBytes_Check(hbytes)) {
+        Py_DECREF(hbytes);
+        PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
+        return NULL;
+    }
+    return hbytes;
+}
+
+// hash function for the C library - note presumes that the the msg has been
+// replaced by _hash_digest_t
+static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
+    _hash_digest_t *hd;
+
+    hd = (_hash_digest_t *)msg;
+    memcpy(hash, hd->digest, hd->hsz);
+}
+
+// calculate the digest of msg (bytes or unicode), fills in hd and the message
+// size and returns the bytes object (new reference) which holds the digest or
+// NULL with an exception set
+static PyObject *_message_digest(_hash_digest_t *hd, size_t *msz, PyObject *hashmodule, size_t hsz, PyObject *msg) {
+    PyObject *bytes;
+    PyObject *hbytes;
+
+    if (PyBytes_Check(msg)) {
+        bytes = msg;
+        Py_INCREF(bytes);
+    } else {
+        bytes = PyUnicode_AsUTF8String(msg);
+        if (bytes == NULL) return NULL;
+    }
+
+    hbytes = _python_digest(hashmodule, bytes);
+    *msz = PyBytes_Size(bytes);
+    Py_DECREF(bytes);
+    if (hbytes == NULL) return NULL;
 
-    hsz = PyBytes_Size(hbytes);
-    status = PyBytes_AsStringAndSize(hbytes, (char **)&digest, &hsz);
-    assert(status == 0);
+    if ((size_t)PyBytes_Size(hbytes) != hsz) {
+        Py_DECREF(hbytes);
+        PyErr_SetString(PyExc_ValueError, "Hash digest size mismatch");
+        return NULL;
+    }
 
-    memcpy(hash, digest, hsz);
-    return;
+    hd->digest = (unsigned char *)PyBytes_AsString(hbytes);
+    hd->hsz = hsz;
+    return hbytes;
 }
 
 PyDoc_STRVAR(ECDSASignature__doc__,
@@ -259,8 +280,9 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     PyObject *msg;
     ECDSASignature *ssis;
     ECPoint *kpt;
-    PyObject *bytes;
-    _hash_and_msg_t ham;
+    PyObject *digest;
+    _hash_digest_t hd;
+    size_t msz;
     int status;
     
     if (!ECDSASignature_Check(self)) {
@@ -280,23 +302,17 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     }
     kpt = (ECPoint *)key;
 
-    if (PyBytes_Check(msg)) {
-        bytes = msg;
-    } else {
-        if (!PyUnicode_Check(msg)) {
-    		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
-    		return NULL;
-        }
-        bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+    if (!PyBytes_Check(msg) && !PyUnicode_Check(msg)) {
+    	PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
+    	return NULL;
     }
-    
-    ham.hashmodule = ssis->ss->hashmodule;
-    ham.msg = bytes;
 
-    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&ham, PyBytes_Size(bytes));
+    digest = _message_digest(&hd, &msz, ssis->ss->hashmodule, ssis->ss->sscheme->H->hsz, msg);
+    if (digest == NULL) return NULL;
 
-    Py_DECREF(bytes);
+    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&hd, msz);
+
+    Py_DECREF(digest);
     if (status != 0) {
         Py_INCREF(Py_False);
         return Py_False;
@@ -418,76 +434,33 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     digest_size = PyDict_GetItemString(hashmodule_dict, "digest_size");
 
-    if (!PyLong_Check(digest_size)) {
+    if ((digest_size == NULL) || !PyLong_Check(digest_size)) {
         PyErr_SetString(PyExc_TypeError, "Hash module digest_size is not an Integer(PyLong) type");
         return -1;
     }
     
     hsz = PyLong_AsLong(digest_size);
     if (hsz <= 0) {
+        if (PyErr_Occurred()) return -1;
         PyErr_SetString(PyExc_ValueError, "Hash module returned negative or zero digest_size");
         return -1;
     }
 
     // test hash module all the way through
     {
-        PyObject *hnew;
-        PyObject *tuple;
-        PyObject *pyhash;
         PyObject *mbytes;
         PyObject *hbytes;
         Py_ssize_t bsz;
 
-        // call hash.new(msg) to initialize and process message
-        hnew = PyDict_GetItemString(hashmodule_dict, "new");
-        if (!PyFunction_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
-            return -1;
-        }
-    
-        if (!PyCallable_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() function is not callable");
-            return -1;
-        }
-        Py_INCREF(hnew);
-
-        tuple = PyTuple_New(1);
-        if (tuple == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Tuple Failed !?");
-            return -1;
-        }
-
         mbytes = PyBytes_FromStringAndSize("test", 4);
-        if (mbytes == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Bytes from String Failed !?");
-            return -1;
-        }
-        Py_INCREF(mbytes);
-
-        status = PyTuple_SetItem(tuple, 0, mbytes);
-        if (status != 0) {
-            PyErr_SetString(PyExc_TypeError, "Tuple SetItem Failed !?");
-            return -1;
-        }
-
-        pyhash = PyObject_CallObject(hnew, tuple);
-        if (pyhash == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Call Hash returned NULL");
-            return -1;
-        }
+        if (mbytes == NULL) return -1;
 
+        hbytes = _python_digest(hashmodule, mbytes);
         Py_DECREF(mbytes);
-        Py_DECREF(hnew);
-        
-        Py_INCREF(pyhash);
-        hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-        if (!PyBytes_Check(hbytes)) {
-            PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
-            return -1;
-        }
-        Py_DECREF(pyhash);
-        
+        if (hbytes == NULL) return -1;
+
         bsz = PyBytes_Size(hbytes);
+        Py_DECREF(hbytes);
         if (bsz != hsz) {
             PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
             return -1;
@@ -506,6 +479,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     if (status != 0) {
         Py_DECREF(curve);
         Py_DECREF(hashmodule);
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_init: cannot initialize scheme");
         return -1;
     }
 
@@ -554,10 +528,11 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     PyObject *key;
     PyObject *msg;
     ECDSASignatureScheme *ss;
-    ECDSASignature *psig;
+    ECDSASignature *psig = NULL;
     FieldElement *kfe;
-    PyObject *bytes;
-    _hash_and_msg_t ham;
+    PyObject *digest;
+    _hash_digest_t hd;
+    size_t msz;
     int status;
     
     if (!ECDSASignatureScheme_Check(self)) {
@@ -573,6 +548,7 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     if(FieldElement_Check(key)) {
         kfe = (FieldElement *)key;
+        Py_INCREF(kfe);
     } else if (PyLong_Check(key)) {
         mpz_t fe_i;
 
@@ -593,31 +569,30 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 		return NULL;
     }
 
-    if (PyBytes_Check(msg)) {
-        bytes = msg;
-    } else {
-        if (!PyUnicode_Check(msg)) {
-    		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
-    		return NULL;
-        }
-        bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+    if (!PyBytes_Check(msg) && !PyUnicode_Check(msg)) {
+    	PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
+    	goto SignDone;
     }
 
+    digest = _message_digest(&hd, &msz, ss->hashmodule, ss->sscheme->H->hsz, msg);
+    if (digest == NULL) goto SignDone;
+
     psig = (ECDSASignature *)ECDSASignature_new(&ECDSASignatureType, NULL, NULL);
-    
-    ham.hashmodule = ss->hashmodule;
-    ham.msg = bytes;
 
-    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&ham, PyBytes_Size(bytes));
-    Py_DECREF(bytes);
+    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&hd, msz);
+    Py_DECREF(digest);
     if (status != 0) {
-        return NULL;
+        Py_DECREF(psig);
+        psig = NULL;
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: cannot sign (empty message or key of the wrong order)");
+        goto SignDone;
     }
     psig->ss = ss;
     Py_INCREF(ss);
     psig->ready = 1;
 
+SignDone:
+    Py_DECREF(kfe);
     return (PyObject *)psig;
 }
 
-- 
2.43.0


From 41c31a3c37c2814bcc42232bca9c6bebd700700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 42/71] fix: Python signature text which is not plain ASCII
 crashed or was truncated

---
 python/pyecdsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index af3dd4a..23bc206 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -184,7 +184,12 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
             return -1;
         }
 
-        sstr = PyUnicode_AsUTF8(ssbytes);
+        sstr = (char *)PyUnicode_AsUTF8(ssbytes);
+        if (sstr == NULL) return -1;
+        if (strlen(sstr) != (size_t)PyUnicode_GET_LENGTH(ssbytes)) {
+            PyErr_SetString(PyExc_ValueError, "ECDSASignature_init: cannot initialize from string object");
+            return -1;
+        }
 
         status =  mpECDSASignature_init_import_str(self->sig, ss->sscheme, sstr);
         if (status != 0) {
-- 
2.43.0


From 8bf93312f44df6e030c248f19c142d6caa542a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 43/71] fix: Python ECDSA reprs leaked

---
 python/pyecdsa.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 23bc206..652fe59 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -219,7 +219,7 @@ static PyObject *ECDSASignature_str(PyObject *self) {
     ssig = (ECDSASignature *)self;
 
     sstr = mpECDSASignature_export_str(ssig->sig);
-    if (sstr == NULL) return NULL;
+    if (sstr == NULL) return PyErr_NoMemory();
     str = PyUnicode_FromFormat("%s", sstr);
     free(sstr);
 
@@ -239,7 +239,7 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
     ssig = (ECDSASignature *)self;
 
     sbytes = mpECDSASignature_export_bytes(ssig->sig, &bsz);
-    if (sbytes == NULL) return NULL;
+    if (sbytes == NULL) return PyErr_NoMemory();
     bytes = PyBytes_FromStringAndSize((char *)sbytes, bsz);
     free(sbytes);
 
@@ -249,6 +249,7 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
 static PyObject *ECDSASignature_repr(PyObject *self) {
     char *hashstr;
     PyObject *ssstr;
+    PyObject *rep;
     ECDSASignature *ssig;
 
     if (!ECDSASignature_Check(self)) {
@@ -258,9 +259,17 @@ static PyObject *ECDSASignature_repr(PyObject *self) {
     ssig = (ECDSASignature *)self;
 
     ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
+    if (ssstr == NULL) return NULL;
     hashstr = mpECDSASignature_export_str(ssig->sig);
+    if (hashstr == NULL) {
+        Py_DECREF(ssstr);
+        return PyErr_NoMemory();
+    }
 
-    return PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    Py_DECREF(ssstr);
+    free(hashstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -497,6 +506,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     PyObject *hashstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECDSASignatureScheme *ss;
 
     if (!ECDSASignatureScheme_Check(self)) {
@@ -506,9 +516,17 @@ static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     ss = (ECDSASignatureScheme *)self;
 
     cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
+    if (cvstr == NULL) return NULL;
     hashstr = Py_TYPE((PyObject *)(ss->hashmodule))->tp_repr((PyObject *)(ss->hashmodule));
+    if (hashstr == NULL) {
+        Py_DECREF(cvstr);
+        return NULL;
+    }
 
-    return PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    Py_DECREF(cvstr);
+    Py_DECREF(hashstr);
+    return rep;
 }
 
 // deallocates the object when done
-- 
2.43.0


From 67cf4d9a6a108ea738fa830881d8066e15ecdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 44/71] fix: Go operations replaced negative integer arguments
 by their absolute value

---
 ecgo/field.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 036f366..529df30 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -107,13 +107,8 @@ func bigint_to_c_mpz_unsigned(m *C.__mpz_struct, a *big.Int) error {
 }
 
 func bigint_to_c_mpz_signed(m *C.__mpz_struct, a *big.Int) {
-	var negative bool
-
-	if a.Cmp(big.NewInt(0)) < 0 {
-		negative = true
-		a.Neg(a)
-	}
-
+	// Bytes() is the absolute value
+	negative := a.Sign() < 0
 	abytes := a.Bytes()
 
 	if len(abytes) == 0 {
-- 
2.43.0


From e08b074e758b5d300ee846f4b4a1bb209f8eb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 45/71] fix: Go field elements accepted moduli the field code
 cannot work with

---
 ecgo/field.go | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 529df30..47ed2ad 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -141,21 +141,29 @@ func c_mpz_to_bigint(m *C.__mpz_struct) (z *big.Int) {
 	return z
 }
 
+// modulus_to_c_mpz imports the order of a field. The field implementation
+// (Montgomery reduction) requires an odd modulus, at least 3, which fits in
+// the fixed size buffers of the field operations. The caller must clear m
+func modulus_to_c_mpz(m *C.__mpz_struct, field *big.Int) bool {
+	if field.Sign() == 0 {
+		panic("cannot operate on field of order 0")
+	}
+	C.mpz_init(m)
+	err := bigint_to_c_mpz_unsigned(m, field)
+	return err == nil && field.Cmp(big.NewInt(3)) >= 0 && field.Bit(0) == 1 &&
+		field.BitLen() <= (_MPFP_Max_Bytes/2)*8
+}
+
+// NewFieldElement returns nil if field is not a valid modulus
 func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 	var vmpz, pmpz C.__mpz_struct
-	var err error
 
-	C.mpz_init(&vmpz)
-	C.mpz_init(&pmpz)
-
-	if field.Cmp(big.NewInt(0)) == 0 {
-		panic("cannot operate on field of order 0")
-	}
-	bigint_to_c_mpz_signed(&vmpz, value)
-	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if !modulus_to_c_mpz(&pmpz, field) {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
+	C.mpz_init(&vmpz)
+	bigint_to_c_mpz_signed(&vmpz, value)
 
 	// fmt.Println("imported value as:")
 	// C.print_mpz_hex(&vmpz)
@@ -175,14 +183,9 @@ func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 
 func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 	var pmpz C.__mpz_struct
-	var err error
 
-	if field.Cmp(big.NewInt(0)) == 0 {
-		panic("cannot operate on field of order 0")
-	}
-	C.mpz_init(&pmpz)
-	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if !modulus_to_c_mpz(&pmpz, field) {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
@@ -201,14 +204,9 @@ func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 
 func NewFieldElementURandom(field *big.Int) (z *FieldElement) {
 	var pmpz C.__mpz_struct
-	var err error
 
-	if field.Cmp(big.NewInt(0)) == 0 {
-		panic("cannot operate on field of order 0")
-	}
-	C.mpz_init(&pmpz)
-	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if !modulus_to_c_mpz(&pmpz, field) {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
-- 
2.43.0


From d1cd49089f3c5c833e57ff8308551af6ca1f8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 46/71] fix: Go square root in a field of composite order never
 ended

---
 ecgo/field.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecgo/field.go b/ecgo/field.go
index 47ed2ad..e31e20b 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -286,6 +286,10 @@ func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 }
 
 func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
+	// the square root algorithm does not terminate for composite moduli
+	if C.mpz_probab_prime_p(C._p_of_fe(a.fe), 25) == 0 {
+		return nil, errors.New("square root requires a prime modulus")
+	}
 	status := C.mpFp_sqrt(z.fe, a.fe)
 	if int(status) != 0 {
 		return nil, errors.New("element is not a quadratic residue")
-- 
2.43.0


From a02829390bfe5ad311ced7d437bfecca33ab8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 47/71] fix: comparing Go elements of different fields ended
 the process

---
 ecgo/field.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecgo/field.go b/ecgo/field.go
index e31e20b..3244ba7 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -245,6 +245,9 @@ func (z *FieldElement) Order() (r *big.Int) {
 }
 
 func (z *FieldElement) Cmp(a *FieldElement) int {
+	if C._fp_of_fe(z.fe) != C._fp_of_fe(a.fe) {
+		panic("FE.Cmp: field mismatch")
+	}
 	return int(C.mpFp_cmp(z.fe, a.fe))
 }
 
-- 
2.43.0


From 7c543e1dd925cc190dd3f69840316c884a946c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 48/71] fix: Go points accepted coordinates which are not on
 the curve

---
 ecgo/point.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecgo/point.go b/ecgo/point.go
index c8d7a4a..bd9e846 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -114,6 +114,7 @@ type Point struct {
 	cv  *Curve
 }
 
+// NewPointXY returns nil if (x, y) is not a point of the curve
 func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 	var xmpz, ympz C.__mpz_struct
 
@@ -128,7 +129,11 @@ func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 	z.cv = c
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
-	C.mpECP_set_mpz(z.ecp, &xmpz, &ympz, c.ec)
+	if C.mpECurve_point_check(c.ec, &xmpz, &ympz) != 0 {
+		C.mpECP_set_mpz(z.ecp, &xmpz, &ympz, c.ec)
+	} else {
+		z = nil
+	}
 
 	C.mpz_clear(&xmpz)
 	C.mpz_clear(&ympz)
-- 
2.43.0


From 63336bd1eaae67f83fa662200d92536b2157b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 49/71] fix: adding Go points of different curves ended the
 process

---
 ecgo/point.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecgo/point.go b/ecgo/point.go
index bd9e846..9cc52e9 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -278,12 +278,18 @@ func (z *Point) Cmp(a *Point) int {
 }
 
 func (z *Point) Add(a, b *Point) *Point {
+	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
+		panic("Point.Add: curve mismatch")
+	}
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
 	return z
 }
 
 func (z *Point) Sub(a, b *Point) *Point {
+	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
+		panic("Point.Sub: curve mismatch")
+	}
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
 	return z
-- 
2.43.0


From 07541001180d4884c1be262a34a9d7684ebe95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 50/71] fix: Go point text and curve names were cut at the
 first NUL

---
 ecgo/curve.go | 6 +++++-
 ecgo/point.go | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index fb12abf..1d4953d 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -132,7 +132,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -161,6 +161,10 @@ func CurveNames() []string {
 }
 
 func NamedCurve(name string) (z *Curve) {
+	// C would read only up to the first NUL
+	if strings.IndexByte(name, 0) >= 0 {
+		return nil
+	}
 	z = new(Curve)
 	z.ec = C.malloc_ECurve()
 	C.mpECurve_init(z.ec)
diff --git a/ecgo/point.go b/ecgo/point.go
index 9cc52e9..7d0dbee 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -101,7 +101,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -178,6 +178,10 @@ func NewPointURandom(c *Curve) (z *Point) {
 
 func NewPointFromString(gst string, c *Curve) (z *Point) {
 
+	// C would read only up to the first NUL
+	if strings.IndexByte(gst, 0) >= 0 {
+		return nil
+	}
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
 	z.cv = c
@@ -185,10 +189,10 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	runtime.SetFinalizer(z, point_clear)
 	cstr := C.CString(gst)
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
+	C.free(unsafe.Pointer(cstr))
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(unsafe.Pointer(cstr))
 
 	return z
 }
-- 
2.43.0


From 3f22cb9e5c034e05d8bd16e91199d836b359cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 51/71] fix: Go point products and refused point bytes leaked

---
 ecgo/point.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecgo/point.go b/ecgo/point.go
index 7d0dbee..db2ce98 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -207,10 +207,10 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	cby := C.CBytes(gby)
 	l := len(gby)
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
+	C.free(cby)
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(cby)
 
 	return z
 }
@@ -322,6 +322,7 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 	} else {
 		C.mpECP_scalar_mul_mpz(z.ecp, a.ecp, &bmpz)
 	}
+	C.mpz_clear(&bmpz)
 	z.cv = a.cv
 
 	return z
-- 
2.43.0


From ebd11e882437c52825252db7edb7e0ce20b599f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 52/71] fix: Go curves and the list of curve names were never
 released

---
 ecgo/curve.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 1d4953d..4a0f666 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -53,6 +53,14 @@ package ecgo
 //     return i;
 // }
 //
+// void free_clist(char **list) {
+//     char **l;
+//
+//     if (list == NULL) return;
+//     for (l = list; *l != NULL; l++) free(*l);
+//     free(list);
+// }
+//
 // __mpz_struct *_p_of_cv(mpECurve_t cv) {
 //     return cv->fp->p;
 // }
@@ -157,7 +165,9 @@ type Curve struct {
 func CurveNames() []string {
 	clist := C._mpECurve_list_standard_curves()
 	cllen := C.clist_len(clist)
-	return goStrings(cllen, clist)
+	names := goStrings(C.int(cllen), clist)
+	C.free_clist(clist)
+	return names
 }
 
 func NamedCurve(name string) (z *Curve) {
@@ -347,6 +357,8 @@ func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -413,6 +425,8 @@ func EdwardsCurve(p, c, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -479,6 +493,8 @@ func MontgomeryCurve(p, B, A, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -545,6 +561,8 @@ func TwistedEdwardsCurve(p, a, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
-- 
2.43.0


From f6e5ea8e7aa89532c3c5dae2e3fb6f31cc733924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 53/71] fix: Go curves cut the given width to 32 bits

---
 ecgo/curve.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 4a0f666..0ab4e3c 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -304,6 +304,11 @@ cleanup:
 }
 
 func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
+	// the C type is narrower
+	if uint(C.uint(bits)) != bits {
+		return nil
+	}
+
 	var pmpz, ampz, bmpz, nmpz, hmpz, gxmpz, gympz C.__mpz_struct
 	var err error
 	var z *Curve
@@ -372,6 +377,11 @@ cleanup:
 }
 
 func EdwardsCurve(p, c, d, n, h, gx, gy *big.Int, bits uint) *Curve {
+	// the C type is narrower
+	if uint(C.uint(bits)) != bits {
+		return nil
+	}
+
 	var pmpz, cmpz, dmpz, nmpz, hmpz, gxmpz, gympz C.__mpz_struct
 	var err error
 	var z *Curve
@@ -440,6 +450,11 @@ cleanup:
 }
 
 func MontgomeryCurve(p, B, A, n, h, gx, gy *big.Int, bits uint) *Curve {
+	// the C type is narrower
+	if uint(C.uint(bits)) != bits {
+		return nil
+	}
+
 	var pmpz, Bmpz, Ampz, nmpz, hmpz, gxmpz, gympz C.__mpz_struct
 	var err error
 	var z *Curve
@@ -508,6 +523,11 @@ cleanup:
 }
 
 func TwistedEdwardsCurve(p, a, d, n, h, gx, gy *big.Int, bits uint) *Curve {
+	// the C type is narrower
+	if uint(C.uint(bits)) != bits {
+		return nil
+	}
+
 	var pmpz, ampz, dmpz, nmpz, hmpz, gxmpz, gympz C.__mpz_struct
 	var err error
 	var z *Curve
-- 
2.43.0


From 40f696b0f514df4288e1213afe87402f50c7bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 54/71] fix: Go ECDSA signatures were never released

---
 ecgo/ecdsa.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 53c8126..25be4d3 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -116,6 +116,11 @@ func signaturescheme_clear(ss *ECDSASignatureScheme) {
 	C.free_ECDSASignatureScheme(ss.css)
 }
 
+func signature_clear(sig *ECDSASignature) {
+	C.mpECDSASignature_clear(sig.csig)
+	C.free_ECDSASignature(sig.csig)
+}
+
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
 	ss.h.Reset()
 	ss.h.Write(message)
@@ -133,6 +138,7 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 		return nil
 	}
 	sig.ss = ss
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
 
@@ -171,5 +177,6 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 		C.free_ECDSASignature(sig.csig)
 		return nil
 	}
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
-- 
2.43.0


From ca8aeb8608da8f046e1a21c3c91dbe5b0c307514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 55/71] fix: Go ECDSA calls with missing or unusable keys
 leaked or crashed

---
 ecgo/ecdsa.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 25be4d3..113d9d5 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -100,13 +100,14 @@ type ECDSASignature struct {
 func NewECDSASignatureScheme(c *Curve, h hash.Hash) (ss *ECDSASignatureScheme) {
 	var hdesc C._mpECDSAHashfunc_t
 
+	ec := c.ec
+	hdesc.dohash = C._ecdsa_dohash(C.cgo_dohash)
+	hdesc.hsz = C.size_t(h.Size())
 	ss = new(ECDSASignatureScheme)
 	ss.css = C.malloc_ECDSASignatureScheme()
 	ss.cv = c
 	ss.h = h
-	hdesc.dohash = C._ecdsa_dohash(C.cgo_dohash)
-	hdesc.hsz = C.size_t(h.Size())
-	C.mpECDSASignatureScheme_init(ss.css, c.ec, &hdesc)
+	C.mpECDSASignatureScheme_init(ss.css, ec, &hdesc)
 	runtime.SetFinalizer(ss, signaturescheme_clear)
 	return ss
 }
@@ -122,6 +123,10 @@ func signature_clear(sig *ECDSASignature) {
 }
 
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
+	sKfe := NewFieldElement(sK, ss.cv.GetAttr("n"))
+	if sKfe == nil {
+		return nil
+	}
 	ss.h.Reset()
 	ss.h.Write(message)
 	mhash := C.CBytes(ss.h.Sum(nil))
@@ -130,7 +135,6 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 	hsz := C.size_t(ss.h.Size())
 	sig := new(ECDSASignature)
 	sig.csig = C.malloc_ECDSASignature()
-	sKfe := NewFieldElement(sK, ss.cv.GetAttr("n"))
 	status := C.mpECDSASignature_init_Sign(sig.csig, ss.css, sKfe.fe, C._toUCP(mhash), hsz)
 	C.free(mhash)
 	if status != C.int(0) {
@@ -143,11 +147,12 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 }
 
 func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
+	ecp := pK.ecp
 	sig.ss.h.Reset()
 	sig.ss.h.Write(message)
 	mhash := C.CBytes(sig.ss.h.Sum(nil))
 	hsz := C.size_t(sig.ss.h.Size())
-	status := C.mpECDSASignature_verify_cmp(sig.csig, pK.ecp, C._toUCP(mhash), hsz)
+	status := C.mpECDSASignature_verify_cmp(sig.csig, ecp, C._toUCP(mhash), hsz)
 	C.free(mhash)
 	if status == C.int(0) {
 		return true
-- 
2.43.0


From a0d3deb4afaf54c37767bc2c18dbf5762e7fc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 56/71] fix: Go ElGamal decryption leaked, and a refused
 encryption cleared uninitialised storage

---
 ecgo/ecelgamal.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 08b4fa0..29efc05 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -40,6 +40,9 @@ package ecgo
 //     return (mpECElgamalCiphertext_ptr)malloc(sizeof(_mpECElgamalCiphertext_t));
 // }
 //
+// extern mpECP_ptr malloc_ECPoint();
+// extern void free_ECPoint(mpECP_ptr pt);
+//
 // void free_ECElgamalCiphertext(mpECElgamalCiphertext_ptr csig) {
 //     free(csig);
 // }
@@ -87,10 +90,11 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 	ctxt.egc = C.malloc_ECElgamalCiphertext()
 	ctxt.cv = pK.cv
 	status := C.mpECElgamal_init_encrypt(ctxt.egc, pK.ecp, ptxt.ecp)
-	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	if status != C.int(0) {
+		C.free_ECElgamalCiphertext(ctxt.egc)
 		return nil
 	}
+	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
 
@@ -101,11 +105,18 @@ func ecelgamalciphertext_clear(ctxt *ECElgamalCiphertext) {
 
 func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
-	ptxt = NewPointNeutral(ctxt.cv)
+	if sKfe == nil {
+		return nil
+	}
+	ptxt = new(Point)
+	ptxt.ecp = C.malloc_ECPoint()
+	ptxt.cv = ctxt.cv
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
 	if status != C.int(0) {
+		C.free_ECPoint(ptxt.ecp)
 		return nil
 	}
+	runtime.SetFinalizer(ptxt, point_clear)
 	return ptxt
 }
 
-- 
2.43.0


From a92f12fac7e222bbb2dcc6f691173b4aa2983b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 57/71] fix: Go ElGamal ciphertexts referred to curves that
 could be released before them

---
 ecgo/ecelgamal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 29efc05..7626ce2 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -47,6 +47,11 @@ package ecgo
 //     free(csig);
 // }
 //
+// void bind_to_curve(mpECElgamalCiphertext_ptr ctxt, mpECurve_ptr cv) {
+//     ctxt->C->cvp = cv;
+//     ctxt->D->cvp = cv;
+// }
+//
 // mpECP_ptr C_of(mpECElgamalCiphertext_ptr ctxt) {
 //     return ctxt->C;
 // }
@@ -94,6 +99,8 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 		C.free_ECElgamalCiphertext(ctxt.egc)
 		return nil
 	}
+	// only the curve object of the key is kept alive by the ciphertext
+	C.bind_to_curve(ctxt.egc, ctxt.cv.ec)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
@@ -143,6 +150,8 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	C.mpECP_set(C.C_of(ctxt.egc), c.ecp)
 	C.mpECP_init(C.D_of(ctxt.egc), d.cv.ec)
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
+	// only the curve object of c is kept alive by the ciphertext
+	C.bind_to_curve(ctxt.egc, ctxt.cv.ec)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
-- 
2.43.0


From 07b61dce15c285f3f93747c988e36cb7cc23cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 58/71] fix: Go objects could be collected while C code was
 using them

---
 ecgo/curve.go     | 11 +++++++++--
 ecgo/ecdsa.go     |  7 +++++++
 ecgo/ecelgamal.go | 10 ++++++++++
 ecgo/field.go     | 29 +++++++++++++++++++++++++++--
 ecgo/point.go     | 27 ++++++++++++++++++++++++++-
 5 files changed, 79 insertions(+), 5 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 0ab4e3c..a89a000 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -205,11 +205,16 @@ func mpFp_to_bigint(fp *C._mpFp_struct) (r *big.Int) {
 }
 
 func (z *Curve) Type() (r int) {
-	return int(C._type_of_cv(z.ec))
+	r = int(C._type_of_cv(z.ec))
+	runtime.KeepAlive(z)
+	return r
 }
 
 func (z *Curve) Cmp(a *Curve) int {
-	return int(C.mpECurve_cmp(z.ec, a.ec))
+	r := int(C.mpECurve_cmp(z.ec, a.ec))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *Curve) GetAttr(attr string) (r *big.Int) {
@@ -274,6 +279,7 @@ func (z *Curve) GetAttr(attr string) (r *big.Int) {
 	default:
 		return nil
 	}
+	runtime.KeepAlive(z)
 	return r
 }
 
@@ -297,6 +303,7 @@ func (z *Curve) PointCheck(gx, gy *big.Int) bool {
 	}
 
 	r = (C.mpECurve_point_check(z.ec, &gxmpz, &gympz) != 0)
+	runtime.KeepAlive(z)
 cleanup:
 	C.mpz_clear(&gympz)
 	C.mpz_clear(&gxmpz)
diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 113d9d5..8edba45 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -108,6 +108,7 @@ func NewECDSASignatureScheme(c *Curve, h hash.Hash) (ss *ECDSASignatureScheme) {
 	ss.cv = c
 	ss.h = h
 	C.mpECDSASignatureScheme_init(ss.css, ec, &hdesc)
+	runtime.KeepAlive(c)
 	runtime.SetFinalizer(ss, signaturescheme_clear)
 	return ss
 }
@@ -136,6 +137,8 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 	sig := new(ECDSASignature)
 	sig.csig = C.malloc_ECDSASignature()
 	status := C.mpECDSASignature_init_Sign(sig.csig, ss.css, sKfe.fe, C._toUCP(mhash), hsz)
+	runtime.KeepAlive(ss)
+	runtime.KeepAlive(sKfe)
 	C.free(mhash)
 	if status != C.int(0) {
 		C.free_ECDSASignature(sig.csig)
@@ -153,6 +156,8 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 	mhash := C.CBytes(sig.ss.h.Sum(nil))
 	hsz := C.size_t(sig.ss.h.Size())
 	status := C.mpECDSASignature_verify_cmp(sig.csig, ecp, C._toUCP(mhash), hsz)
+	runtime.KeepAlive(sig)
+	runtime.KeepAlive(pK)
 	C.free(mhash)
 	if status == C.int(0) {
 		return true
@@ -163,6 +168,7 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 func (sig *ECDSASignature) AsBytes() []byte {
 	var sz C.size_t
 	cbytes := unsafe.Pointer(C.mpECDSASignature_export_bytes(sig.csig, &sz))
+	runtime.KeepAlive(sig)
 	gobytes := C.GoBytes(cbytes, C.int(sz))
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
@@ -176,6 +182,7 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 	cbytes := C.CBytes(gobytes)
 	sz := C.size_t(len(gobytes))
 	status := C.mpECDSASignature_init_import_bytes(sig.csig, ss.css, C._toUCP(cbytes), sz)
+	runtime.KeepAlive(ss)
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
 	if status != 0 {
diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 7626ce2..4800a2c 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -95,6 +95,8 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 	ctxt.egc = C.malloc_ECElgamalCiphertext()
 	ctxt.cv = pK.cv
 	status := C.mpECElgamal_init_encrypt(ctxt.egc, pK.ecp, ptxt.ecp)
+	runtime.KeepAlive(pK)
+	runtime.KeepAlive(ptxt)
 	if status != C.int(0) {
 		C.free_ECElgamalCiphertext(ctxt.egc)
 		return nil
@@ -119,6 +121,8 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	ptxt.ecp = C.malloc_ECPoint()
 	ptxt.cv = ctxt.cv
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
+	runtime.KeepAlive(ctxt)
+	runtime.KeepAlive(sKfe)
 	if status != C.int(0) {
 		C.free_ECPoint(ptxt.ecp)
 		return nil
@@ -130,12 +134,16 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 func (ctxt *ECElgamalCiphertext) C() (c *Point) {
 	c = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(c.ecp, C.C_of(ctxt.egc))
+	runtime.KeepAlive(c)
+	runtime.KeepAlive(ctxt)
 	return c
 }
 
 func (ctxt *ECElgamalCiphertext) D() (d *Point) {
 	d = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(d.ecp, C.D_of(ctxt.egc))
+	runtime.KeepAlive(d)
+	runtime.KeepAlive(ctxt)
 	return d
 }
 
@@ -152,6 +160,8 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
 	// only the curve object of c is kept alive by the ciphertext
 	C.bind_to_curve(ctxt.egc, ctxt.cv.ec)
+	runtime.KeepAlive(c)
+	runtime.KeepAlive(d)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
diff --git a/ecgo/field.go b/ecgo/field.go
index 3244ba7..2bcfa4b 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -233,6 +233,7 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 
 	C.mpz_init(&impz)
 	C.mpz_set_mpFp(&impz, z.fe)
+	runtime.KeepAlive(z)
 	r = c_mpz_to_bigint(&impz)
 	C.mpz_clear(&impz)
 	return r
@@ -241,6 +242,7 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 func (z *FieldElement) Order() (r *big.Int) {
 	impz := C._p_of_fe(z.fe)
 	r = c_mpz_to_bigint(impz)
+	runtime.KeepAlive(z)
 	return r
 }
 
@@ -248,7 +250,10 @@ func (z *FieldElement) Cmp(a *FieldElement) int {
 	if C._fp_of_fe(z.fe) != C._fp_of_fe(a.fe) {
 		panic("FE.Cmp: field mismatch")
 	}
-	return int(C.mpFp_cmp(z.fe, a.fe))
+	r := int(C.mpFp_cmp(z.fe, a.fe))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
@@ -256,6 +261,9 @@ func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_add(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -264,6 +272,9 @@ func (z *FieldElement) Sub(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_sub(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -272,16 +283,23 @@ func (z *FieldElement) Mul(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_mul(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *FieldElement) Neg(a *FieldElement) *FieldElement {
 	C.mpFp_neg(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 	status := C.mpFp_inv(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("no inverse exists for element")
 	}
@@ -291,9 +309,12 @@ func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 	// the square root algorithm does not terminate for composite moduli
 	if C.mpz_probab_prime_p(C._p_of_fe(a.fe), 25) == 0 {
+		runtime.KeepAlive(a)
 		return nil, errors.New("square root requires a prime modulus")
 	}
 	status := C.mpFp_sqrt(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("element is not a quadratic residue")
 	}
@@ -302,9 +323,13 @@ func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 
 func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 	C.mpFp_pow_ui(z.fe, a.fe, C.ulong(e))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *FieldElement) Bit(i int) uint {
-	return uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	r := uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	runtime.KeepAlive(z)
+	return r
 }
diff --git a/ecgo/point.go b/ecgo/point.go
index db2ce98..222bc4f 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -134,6 +134,7 @@ func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 	} else {
 		z = nil
 	}
+	runtime.KeepAlive(c)
 
 	C.mpz_clear(&xmpz)
 	C.mpz_clear(&ympz)
@@ -189,6 +190,7 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	runtime.SetFinalizer(z, point_clear)
 	cstr := C.CString(gst)
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
+	runtime.KeepAlive(z)
 	C.free(unsafe.Pointer(cstr))
 	if status != C.int(0) {
 		return nil
@@ -207,6 +209,7 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	cby := C.CBytes(gby)
 	l := len(gby)
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
+	runtime.KeepAlive(z)
 	C.free(cby)
 	if status != C.int(0) {
 		return nil
@@ -228,6 +231,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 
 	C.mpz_set_mpECP_affine_x(&xmpz, z.ecp)
 	C.mpz_set_mpECP_affine_y(&ympz, z.ecp)
+	runtime.KeepAlive(z)
 
 	x = c_mpz_to_bigint(&xmpz)
 	y = c_mpz_to_bigint(&ympz)
@@ -241,6 +245,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 func (z *Point) IsNeutral() bool {
 	pt := z.ecp
 	isn := pt.is_neutral
+	runtime.KeepAlive(z)
 	if int(isn) == 0 {
 		return false
 	}
@@ -249,6 +254,7 @@ func (z *Point) IsNeutral() bool {
 
 func (z *Point) StringCompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -256,6 +262,7 @@ func (z *Point) StringCompressed() string {
 
 func (z *Point) StringUncompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -264,6 +271,7 @@ func (z *Point) StringUncompressed() string {
 func (z *Point) BytesCompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(1))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -272,13 +280,17 @@ func (z *Point) BytesCompressed() []byte {
 func (z *Point) BytesUncompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(0))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
 }
 
 func (z *Point) Cmp(a *Point) int {
-	return int(C.mpECP_cmp(z.ecp, a.ecp))
+	r := int(C.mpECP_cmp(z.ecp, a.ecp))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *Point) Add(a, b *Point) *Point {
@@ -287,6 +299,9 @@ func (z *Point) Add(a, b *Point) *Point {
 	}
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -296,18 +311,25 @@ func (z *Point) Sub(a, b *Point) *Point {
 	}
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *Point) Neg(a *Point) *Point {
 	C.mpECP_neg(z.ecp, a.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *Point) Set(a *Point) *Point {
 	C.mpECP_set(z.ecp, a.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
@@ -324,11 +346,14 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 	}
 	C.mpz_clear(&bmpz)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 
 	return z
 }
 
 func (z *Point) SetupBaseMul() {
 	C.mpECP_scalar_base_mul_setup(z.ecp)
+	runtime.KeepAlive(z)
 	return
 }
-- 
2.43.0


From 003fa7b03d7fb47ac09b0a7b607dc8e370b34a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:55 +0000
Subject: [PATCH 59/71] fix: Go IsNeutral was false for the neutral element of
 Edwards curves

---
 ecgo/point.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecgo/point.go b/ecgo/point.go
index 222bc4f..1a72fdb 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -247,7 +247,8 @@ func (z *Point) IsNeutral() bool {
 	isn := pt.is_neutral
 	runtime.KeepAlive(z)
 	if int(isn) == 0 {
-		return false
+		// on (twisted) Edwards curves the neutral element is a regular point
+		return z.Cmp(NewPointNeutral(z.cv)) == 0
 	}
 	return true
 }
-- 
2.43.0


From 91e7e9e1ccae89556bcaea285877b894dff2d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 60/71] fix: Go Bit cut the bit number to 32 bits

---
 ecgo/field.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecgo/field.go b/ecgo/field.go
index 2bcfa4b..d2a15ac 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -329,6 +329,10 @@ func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 }
 
 func (z *FieldElement) Bit(i int) uint {
+	if i < 0 || int(C.int(i)) != i {
+		// beyond the bits of any element
+		return 0
+	}
 	r := uint(C.mpFp_tstbit(z.fe, C.int(i)))
 	runtime.KeepAlive(z)
 	return r
-- 
2.43.0


From 66e18546c9df551e3609d1d7f94c7b74d425e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 61/71] fix: armoured text overran its buffer for short data
 and hid write errors

---
 examples/b64file.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index 5280e31..16c45cf 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -31,34 +31,42 @@
 #include <assert.h>
 #include <b64/cencode.h>
 #include <b64/cdecode.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
-int write_b64wrapped_to_file(FILE *fPtr, char* bindata, int sz, char *wrap) {
+int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
     char *enc;
     char *c;
+    int result;
     base64_encodestate b64state;
 
     assert(bindata != NULL);
     assert(wrap != NULL);
     assert(fPtr != NULL);
-    assert(sz > 0);
+    // the encoder counts in int
+    if (sz > (INT_MAX / 2)) return -1;
 
-    // allocate buffer big enough for b64 encoding > 4/3 * sz
-    enc = (char *)malloc((2 * sz) * sizeof(char));
+    // allocate buffer big enough for b64 encoding > 4/3 * sz, and for the
+    // padding, newline and terminator which follow even the shortest data
+    enc = (char *)malloc((2 * sz + 8) * sizeof(char));
+    if (enc == NULL) return -1;
     c = enc;
     base64_init_encodestate(&b64state);
     c += base64_encode_block(bindata, sz, c, &b64state);
     c += base64_encode_blockend(c, &b64state);
     *c = 0;
     //printf("DER encoded privkey (%d bytes)=\n", sz);
-    fprintf(fPtr, "-----BEGIN %s-----\n", wrap);
-    fprintf(fPtr, "%s", enc);
-    fprintf(fPtr, "-----END %s-----\n", wrap);
+    result = 0;
+    if (fprintf(fPtr, "-----BEGIN %s-----\n", wrap) < 0) result = -1;
+    if (fprintf(fPtr, "%s", enc) < 0) result = -1;
+    if (fprintf(fPtr, "-----END %s-----\n", wrap) < 0) result = -1;
+    // data which is still buffered is not written yet
+    if (fflush(fPtr) != 0) result = -1;
     free(enc);
-    return 0;
+    return result;
 }
 
 #define _B64W_READ_CHUNK_SIZE   (16000)
-- 
2.43.0


From 1322bb3c88e1afcda60e4a36229f78e30333deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 62/71] fix: reading a file whose reads fail never ended, and
 empty files were not read

---
 examples/b64file.c    | 5 ++++-
 examples/ecdh_enc.c   | 4 ++++
 examples/ecdsa_sign.c | 4 ++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index 16c45cf..c6fe1b2 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -93,6 +93,7 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
 
    // read file into linked list of chunks
     head = (_readbuf_t *)malloc(sizeof(_readbuf_t));
+    if (head == NULL) return NULL;
     next = head;
     next->next = (_readbuf_t *)NULL;
     len = 0;
@@ -104,14 +105,16 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         if (feof(fPtr)) {
             break;
         }
+        if (ferror(fPtr)) goto error_cleanup;
         next->next = (_readbuf_t *)malloc(sizeof(_readbuf_t));
+        if (next->next == NULL) goto error_cleanup;
         next = next->next;
         next->next = NULL;
     }
-    if (len == 0) goto error_cleanup;
     
     // concatenate into a single buffer
     filedata = (char *)malloc((len + 1) * sizeof(char));
+    if (filedata == NULL) goto error_cleanup;
     next = head;
     b64data = filedata;
     while (next != NULL) {
diff --git a/examples/ecdh_enc.c b/examples/ecdh_enc.c
index da9cf8d..a1b5569 100644
--- a/examples/ecdh_enc.c
+++ b/examples/ecdh_enc.c
@@ -113,6 +113,10 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
+    if (msg == NULL) {
+        fprintf(stderr,"<Error>: unable to read input file\n");
+        exit(1);
+    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
diff --git a/examples/ecdsa_sign.c b/examples/ecdsa_sign.c
index 6339a3f..72e728b 100644
--- a/examples/ecdsa_sign.c
+++ b/examples/ecdsa_sign.c
@@ -116,6 +116,10 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
+    if (msg == NULL) {
+        fprintf(stderr,"<Error>: unable to read input file\n");
+        exit(1);
+    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
-- 
2.43.0


From 7513658529ce039a77cc34590e7c6ee231edb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 63/71] fix: reading armoured text destroyed the buffer, so
 that a second pass read beyond an unterminated copy

---
 examples/b64file.c      | 40 ++++++++++++++++------------------------
 examples/ecdsa_verify.c |  7 +------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index c6fe1b2..03045cc 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -136,49 +136,41 @@ error_cleanup:
 char *read_b64wrapped_from_buffer(char *buffer, char *wrap, size_t *sz) {
     char *bindata;
     char *b64data;
+    char *b64end;
     char *begin_tag;
     char *end_tag;
     size_t len;
     base64_decodestate b64state;
     int result;
 
-    len = strlen(wrap) + strlen("BEGIN ") + 1;
+    len = strlen(wrap) + strlen("-----BEGIN -----") + 1;
     begin_tag = (char *)malloc(len * sizeof(char));
-    sprintf(begin_tag, "BEGIN %s", wrap);
+    sprintf(begin_tag, "-----BEGIN %s-----", wrap);
 
-    len = strlen(wrap) + strlen("END ") + 1;
+    len = strlen(wrap) + strlen("-----END -----") + 1;
     end_tag = (char *)malloc(len * sizeof(char));
-    sprintf(end_tag, "END %s", wrap);
+    sprintf(end_tag, "-----END %s-----", wrap);
 
-    // find BEGIN/END tags (and base64 data in the middle)
-    b64data = strtok(buffer, "-----");
+    // find BEGIN/END tags (and base64 data in the middle), the buffer is not
+    // altered as it may hold other data for subsequent passes
+    b64data = strstr(buffer, begin_tag);
     if (b64data == NULL) goto error_cleanup;
-
-    while (strcmp(b64data, begin_tag) != 0) {
-        b64data = strtok(NULL, "-----");
-        if (b64data == NULL) goto error_cleanup;
-    }
-
-    b64data = strtok(NULL, "-----");
-    if (b64data == NULL) goto error_cleanup;
-    bindata = strtok(NULL, "-----");
-    if (bindata == NULL) goto error_cleanup;
+    b64data += strlen(begin_tag);
+    b64end = strchr(b64data, '-');
+    if (b64end == NULL) goto error_cleanup;
 
     // expect end tag, error if not found;
-    if (strcmp(bindata, end_tag) != 0) goto error_cleanup;
+    if (strncmp(b64end, end_tag, strlen(end_tag)) != 0) goto error_cleanup;
 
     // over-allocate buffer, only need ~3/4 len
-    len = strlen(b64data);
-    bindata = (char *)malloc(len * sizeof(char));
+    len = b64end - b64data;
+    if (len > INT_MAX) goto error_cleanup;
+    bindata = (char *)malloc((len + 1) * sizeof(char));
+    if (bindata == NULL) goto error_cleanup;
 
     base64_init_decodestate(&b64state);
     result = base64_decode_block(b64data, len, bindata, &b64state);
 
-    if (result == 0) {
-        free(bindata);
-        goto error_cleanup;
-    }
-
     free(end_tag);
     free(begin_tag);
     *sz = result;
diff --git a/examples/ecdsa_verify.c b/examples/ecdsa_verify.c
index b66aa7c..882c221 100644
--- a/examples/ecdsa_verify.c
+++ b/examples/ecdsa_verify.c
@@ -65,7 +65,6 @@ int main(int argc, char **argv) {
     mpECDSASignatureScheme_t ss;
     mpECDSASignature_t sig;
     char *der;
-    char *dercp;
     size_t sz;
     int result;
 
@@ -125,21 +124,17 @@ int main(int argc, char **argv) {
     }
     fclose(fPtr);
     
-    dercp = malloc(sz*sizeof(char));
-    memcpy(dercp, der, sz);
-
     sigbytes = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNATURE", &siglen);
     if (sigbytes == NULL) {
         fprintf(stderr,"<ParseError>: unable to decode b64 signature data\n");
         exit(1);
     }
  
-    msg = (unsigned char *)read_b64wrapped_from_buffer(dercp, "ECDSA SIGNED MESSAGE", &msglen);
+    msg = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNED MESSAGE", &msglen);
     if (msg == NULL) {
         fprintf(stderr,"<ParseError>: unable to decode b64 message data\n");
         exit(1);
     }
-    free(dercp);
     free(der);
 
     der = read_b64wrapped_from_file(kPtr, "ECDH PUBLIC KEY", &sz);
-- 
2.43.0


From 20b01543784e6ece03f1272c0b9a0fccb1a26b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 64/71] fix: fields of odd length in DER data aborted, missing
 ones freed uninitialised storage

---
 examples/ecdh_der.c    | 22 +++++++++++++++-------
 examples/elgamal_der.c | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index d131164..3194ff2 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -65,13 +65,18 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if (result != ASN1_MEM_ERROR) return -1;
-    assert(len_test > 0);
+    // an empty string fits into no space at all
+    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
+    if (len_test < 0) return -1;
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
+    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    assert(len_read == len_test);
+    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
+        free(buffer);
+        return -1;
+    }
 
     *sz = len_read;
     *buf = buffer;
@@ -83,6 +88,10 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
+        return -1;
+    }
+    // numbers have at least one byte
+    if (sz < 1) {
         free(buffer);
         return -1;
     }
@@ -102,12 +111,11 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    assert(length > 0);
-    assert(length <= sizeof(int));
+    // longer numbers do not occur in well-formed data
+    if ((length < 1) || (length > (int)sizeof(int))) return -1;
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    assert(result == ASN1_SUCCESS);
-    assert(lread == length);
+    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index 3be5759..a202b2e 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -46,13 +46,18 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if (result != ASN1_MEM_ERROR) return -1;
-    assert(len_test > 0);
+    // an empty string fits into no space at all
+    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
+    if (len_test < 0) return -1;
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
+    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    assert(len_read == len_test);
+    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
+        free(buffer);
+        return -1;
+    }
 
     *sz = len_read;
     *buf = buffer;
@@ -83,6 +88,10 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
+        return -1;
+    }
+    // numbers have at least one byte
+    if (sz < 1) {
         free(buffer);
         return -1;
     }
@@ -102,12 +111,11 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    assert(length > 0);
-    assert(length <= sizeof(int));
+    // longer numbers do not occur in well-formed data
+    if ((length < 1) || (length > (int)sizeof(int))) return -1;
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    assert(result == ASN1_SUCCESS);
-    assert(lread == length);
+    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
-- 
2.43.0


From 8bb2c5cdcc6a4ac2a2f02b1cb80a9ac391e310be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 65/71] fix: importing data which is not DER leaked the ASN.1
 structures

---
 examples/ecdh_der.c    | 18 +++++++++++++++---
 examples/elgamal_der.c |  6 +++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index 3194ff2..de2b0dd 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -291,7 +291,11 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&privkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&privkey_asn1);
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -551,7 +555,11 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&pubkey_asn1);
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -753,7 +761,11 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&pubkey_asn1);
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, pubkey_asn1, "", ASN1_PRINT_ALL);
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index a202b2e..ffcd71a 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -315,7 +315,11 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&ct_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&ct_asn1);
+        asn1_delete_structure(&eceg_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, ct_asn1, "", ASN1_PRINT_ALL);
-- 
2.43.0


From c7164ae892d382052d1eb41f42fa4247eb815037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 66/71] fix: importing a public key with invalid curve data
 used an undefined curve, and failures leaked

---
 examples/ecdh_der.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index de2b0dd..ce801ba 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -532,7 +532,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     mpz_t cv_p2;
     int cv_type;
     int cv_bits;
-    unsigned char *rawpubkey;
+    unsigned char *rawpubkey = NULL;
     int rawpubkeysz;
 
     // read ASN1 syntax
@@ -632,12 +632,15 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         result = -1;
     }
 
+    // without a curve there are no points
+    if (result != 0) {
+        mpECurve_clear(cv);
+        goto error_cleanup;
+    }
+
     mpECP_init(pubkey, cv);
+    result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
     if (result == 0) {
-        result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
-    }
-    free(rawpubkey);
-    {
         mpz_t px;
         mpz_t py;
 
@@ -649,8 +652,13 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         mpz_clear(py);
         mpz_clear(px);
     }
+    if (result != 0) {
+        mpECP_clear(pubkey);
+        mpECurve_clear(cv);
+    }
 
 error_cleanup:
+    free(rawpubkey);
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     mpz_clear(cv_p2);
-- 
2.43.0


From 87bc7fd60c3cd1a4f9700da90b568a9e89e1b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 67/71] fix: empty messages were measured as C strings, and
 malformed ones leaked or were used unchecked

---
 examples/ecdh_dec.c |  9 ++++++++-
 examples/ecdh_der.c | 18 +++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index f837cbb..dc9400f 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -152,8 +152,15 @@ int main(int argc, char **argv) {
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
-    mpECP_set_bytes(Ppt, ptxt, psz, cv);
+    if (mpECP_set_bytes(Ppt, ptxt, psz, cv) != 0) {
+        fprintf(stderr,"<Error>: Invalid public key in message\n");
+        exit(1);
+    }
     free(ptxt);
+    if (nsz != sizeof(nonce)) {
+        fprintf(stderr,"<Error>: Invalid nonce in message\n");
+        exit(1);
+    }
 
     // shared (ECDH) key using 
     mpECP_init(pQpt, cv);
diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index ce801ba..9e9f524 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -708,14 +708,14 @@ char *_ecdhe_der_export_message(mpECP_t pubkey, unsigned char *nonce, size_t nsz
     assert(result == 0);
     free(buf);
     
-    // public key value
-    result = asn1_write_value(msg_asn1, "nonce", nonce, nsz);
+    // public key value (a size of zero would ask for the length of a C string)
+    result = asn1_write_value(msg_asn1, "nonce", (nsz > 0) ? (void *)nonce : (void *)"", nsz);
     assert(result == 0);
     
     bsz += nsz + 5;
     
     // public key value
-    result = asn1_write_value(msg_asn1, "ciphertext", msg, msz);
+    result = asn1_write_value(msg_asn1, "ciphertext", (msz > 0) ? (void *)msg : (void *)"", msz);
     assert(result == 0);
     
     bsz += msz + 5;
@@ -779,6 +779,10 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     //asn1_print_structure(stdout, pubkey_asn1, "", ASN1_PRINT_ALL);
     //printf("-----------------\n");
 
+    *ptxt = NULL;
+    *ntxt = NULL;
+    *ctxt = NULL;
+
     // private key value
     result = myasn1_read_octet_string_to_bytes(pubkey_asn1, "pubkeybytes", ptxt, psz);
     if (result != 0) goto error_cleanup;
@@ -792,6 +796,14 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     if (result != 0) goto error_cleanup;
 
 error_cleanup:
+    if (result != 0) {
+        free(*ctxt);
+        free(*ntxt);
+        free(*ptxt);
+        *ptxt = NULL;
+        *ntxt = NULL;
+        *ctxt = NULL;
+    }
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     return result;
-- 
2.43.0


From 43a6ec4670b1fdc2788e8e7bfaf6bf86ef016033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 68/71] fix: importing an ElGamal ciphertext ignored failures
 of its curve and first point and refused the neutral element

---
 examples/elgamal_der.c | 61 +++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 37 deletions(-)

diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index ffcd71a..dd4a7e6 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -386,53 +386,40 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
         result = -1;
     }
 
+    // without a curve there are no points
+    if (result != 0) goto error_cleanup;
+
     {
-        unsigned char *rawpubkey;
-        int rawpubkeysz;
+        unsigned char *rawpoint;
+        int rawpointsz;
 
-        // ciphertext points
-        result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpubkey, &rawpubkeysz);
+        // ciphertext points (the bytes of a point are only accepted if it is
+        // a point of the curve, and either may be the neutral element)
+        result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpoint, &rawpointsz);
         if (result != 0) goto error_cleanup;
 
         mpECP_init(ctxt->C, cv);
-        if (result == 0) {
-            result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
-        }
-        free(rawpubkey);
-        {
-            mpz_t px;
-            mpz_t py;
-    
-            mpz_init(px);
-            mpz_init(py);
-            mpz_set_mpECP_affine_x(px, ctxt->C);
-            mpz_set_mpECP_affine_y(py, ctxt->C);
-            if (!mpECurve_point_check(cv, px, py)) result = -1;
-            mpz_clear(py);
-            mpz_clear(px);
+        result = mpECP_set_bytes(ctxt->C, rawpoint, rawpointsz, cv);
+        free(rawpoint);
+        if (result != 0) {
+            mpECP_clear(ctxt->C);
+            goto error_cleanup;
         }
 
-        result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpubkey, &rawpubkeysz);
-        if (result != 0) goto error_cleanup;
+        result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpoint, &rawpointsz);
+        if (result != 0) {
+            mpECP_clear(ctxt->C);
+            goto error_cleanup;
+        }
 
         mpECP_init(ctxt->D, cv);
-        if (result == 0) {
-            result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
-        }
-        free(rawpubkey);
-        {
-            mpz_t px;
-            mpz_t py;
-    
-            mpz_init(px);
-            mpz_init(py);
-            mpz_set_mpECP_affine_x(px, ctxt->D);
-            mpz_set_mpECP_affine_y(py, ctxt->D);
-            if (!mpECurve_point_check(cv, px, py)) result = -1;
-            mpz_clear(py);
-            mpz_clear(px);
+        result = mpECP_set_bytes(ctxt->D, rawpoint, rawpointsz, cv);
+        free(rawpoint);
+        if (result != 0) {
+            mpECP_clear(ctxt->D);
+            mpECP_clear(ctxt->C);
+            goto error_cleanup;
         }
-
     }
 
 error_cleanup:
-- 
2.43.0


From 971187d3d9436c457bf697772e2ea0b858d879ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 69/71] fix: ElGamal encryption and ECDSA signing in a group of
 order one never ended

---
 src/ecdsa.c     | 3 +++
 src/ecelgamal.c | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 08c42d9..f91724c 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -107,6 +107,9 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
 
     if (mpz_cmp(sK->fp->p, sscheme->cvp->n) != 0) return -1;
 
+    // a group of one element has no usable nonce
+    if (mpz_cmp_ui(sscheme->cvp->n, 1) <= 0) return -1;
+
     hash = (unsigned char *)malloc(sscheme->H->hsz * sizeof(char));
     assert(hash != NULL);
 
diff --git a/src/ecelgamal.c b/src/ecelgamal.c
index 9a2d5b3..0a7c39e 100644
--- a/src/ecelgamal.c
+++ b/src/ecelgamal.c
@@ -43,6 +43,10 @@ int mpECElgamal_init_encrypt(mpECElgamalCiphertext_t ctxt, mpECP_t pK, mpECP_t p
     if (mpECurve_cmp(pK->cvp, ptxt->cvp) != 0) {
         return -1;
     }
+    // a group of one element has no usable nonce
+    if (mpz_cmp_ui(pK->cvp->n, 1) <= 0) {
+        return -1;
+    }
     mpECP_init(ctxt->C, pK->cvp);
     mpECP_init(ctxt->D, pK->cvp);
     mpFp_init(k, pK->cvp->n);
-- 
2.43.0


From 1dd83315399f1e70f95f6eccaa51b503c3aed99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 70/71] fix: swapping points left their tables bound to the
 other's curve object

---
 src/ecpoint.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 5218718..cba17d5 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -739,6 +739,16 @@ edte_return_notequal:
     return 0;
 }
 
+// the points of a table refer to the same curve object as the point itself
+static void _mpECP_base_pts_rebind(mpECP_t pt) {
+    int i, npts;
+    if (pt->base_bits == 0) return;
+    npts = _mpECP_n_base_pts(pt);
+    for (i = 0; i < npts; i++) {
+        pt->base_pt[i].cvp = pt->cvp;
+    }
+}
+
 void mpECP_swap(mpECP_t pt2, mpECP_t pt1) {
     int t;
     struct _p_mpECP_t *t_base_pt;
@@ -755,6 +765,10 @@ void mpECP_swap(mpECP_t pt2, mpECP_t pt1) {
     t_base_pt = pt2->base_pt;
     pt2->base_pt = pt1->base_pt;
     pt1->base_pt = t_base_pt;
+    if (pt1->cvp != pt2->cvp) {
+        _mpECP_base_pts_rebind(pt1);
+        _mpECP_base_pts_rebind(pt2);
+    }
     return;
 }
 
-- 
2.43.0


From c839fa060d7d5808a572738d359851ef32e7d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 71/71] Restore the example programs: they are left as they
 were

---
 examples/b64file.c      | 69 +++++++++++++++-----------------
 examples/ecdh_dec.c     |  9 +----
 examples/ecdh_der.c     | 76 +++++++++--------------------------
 examples/ecdh_enc.c     |  4 --
 examples/ecdsa_sign.c   |  4 --
 examples/ecdsa_verify.c |  7 +++-
 examples/elgamal_der.c  | 89 +++++++++++++++++++++--------------------
 7 files changed, 103 insertions(+), 155 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index 03045cc..5280e31 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -31,42 +31,34 @@
 #include <assert.h>
 #include <b64/cencode.h>
 #include <b64/cdecode.h>
-#include <limits.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
-int write_b64wrapped_to_file(FILE *fPtr, char* bindata, size_t sz, char *wrap) {
+int write_b64wrapped_to_file(FILE *fPtr, char* bindata, int sz, char *wrap) {
     char *enc;
     char *c;
-    int result;
     base64_encodestate b64state;
 
     assert(bindata != NULL);
     assert(wrap != NULL);
     assert(fPtr != NULL);
-    // the encoder counts in int
-    if (sz > (INT_MAX / 2)) return -1;
+    assert(sz > 0);
 
-    // allocate buffer big enough for b64 encoding > 4/3 * sz, and for the
-    // padding, newline and terminator which follow even the shortest data
-    enc = (char *)malloc((2 * sz + 8) * sizeof(char));
-    if (enc == NULL) return -1;
+    // allocate buffer big enough for b64 encoding > 4/3 * sz
+    enc = (char *)malloc((2 * sz) * sizeof(char));
     c = enc;
     base64_init_encodestate(&b64state);
     c += base64_encode_block(bindata, sz, c, &b64state);
     c += base64_encode_blockend(c, &b64state);
     *c = 0;
     //printf("DER encoded privkey (%d bytes)=\n", sz);
-    result = 0;
-    if (fprintf(fPtr, "-----BEGIN %s-----\n", wrap) < 0) result = -1;
-    if (fprintf(fPtr, "%s", enc) < 0) result = -1;
-    if (fprintf(fPtr, "-----END %s-----\n", wrap) < 0) result = -1;
-    // data which is still buffered is not written yet
-    if (fflush(fPtr) != 0) result = -1;
+    fprintf(fPtr, "-----BEGIN %s-----\n", wrap);
+    fprintf(fPtr, "%s", enc);
+    fprintf(fPtr, "-----END %s-----\n", wrap);
     free(enc);
-    return result;
+    return 0;
 }
 
 #define _B64W_READ_CHUNK_SIZE   (16000)
@@ -93,7 +85,6 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
 
    // read file into linked list of chunks
     head = (_readbuf_t *)malloc(sizeof(_readbuf_t));
-    if (head == NULL) return NULL;
     next = head;
     next->next = (_readbuf_t *)NULL;
     len = 0;
@@ -105,16 +96,14 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         if (feof(fPtr)) {
             break;
         }
-        if (ferror(fPtr)) goto error_cleanup;
         next->next = (_readbuf_t *)malloc(sizeof(_readbuf_t));
-        if (next->next == NULL) goto error_cleanup;
         next = next->next;
         next->next = NULL;
     }
+    if (len == 0) goto error_cleanup;
     
     // concatenate into a single buffer
     filedata = (char *)malloc((len + 1) * sizeof(char));
-    if (filedata == NULL) goto error_cleanup;
     next = head;
     b64data = filedata;
     while (next != NULL) {
@@ -136,41 +125,49 @@ error_cleanup:
 char *read_b64wrapped_from_buffer(char *buffer, char *wrap, size_t *sz) {
     char *bindata;
     char *b64data;
-    char *b64end;
     char *begin_tag;
     char *end_tag;
     size_t len;
     base64_decodestate b64state;
     int result;
 
-    len = strlen(wrap) + strlen("-----BEGIN -----") + 1;
+    len = strlen(wrap) + strlen("BEGIN ") + 1;
     begin_tag = (char *)malloc(len * sizeof(char));
-    sprintf(begin_tag, "-----BEGIN %s-----", wrap);
+    sprintf(begin_tag, "BEGIN %s", wrap);
 
-    len = strlen(wrap) + strlen("-----END -----") + 1;
+    len = strlen(wrap) + strlen("END ") + 1;
     end_tag = (char *)malloc(len * sizeof(char));
-    sprintf(end_tag, "-----END %s-----", wrap);
+    sprintf(end_tag, "END %s", wrap);
 
-    // find BEGIN/END tags (and base64 data in the middle), the buffer is not
-    // altered as it may hold other data for subsequent passes
-    b64data = strstr(buffer, begin_tag);
+    // find BEGIN/END tags (and base64 data in the middle)
+    b64data = strtok(buffer, "-----");
     if (b64data == NULL) goto error_cleanup;
-    b64data += strlen(begin_tag);
-    b64end = strchr(b64data, '-');
-    if (b64end == NULL) goto error_cleanup;
+
+    while (strcmp(b64data, begin_tag) != 0) {
+        b64data = strtok(NULL, "-----");
+        if (b64data == NULL) goto error_cleanup;
+    }
+
+    b64data = strtok(NULL, "-----");
+    if (b64data == NULL) goto error_cleanup;
+    bindata = strtok(NULL, "-----");
+    if (bindata == NULL) goto error_cleanup;
 
     // expect end tag, error if not found;
-    if (strncmp(b64end, end_tag, strlen(end_tag)) != 0) goto error_cleanup;
+    if (strcmp(bindata, end_tag) != 0) goto error_cleanup;
 
     // over-allocate buffer, only need ~3/4 len
-    len = b64end - b64data;
-    if (len > INT_MAX) goto error_cleanup;
-    bindata = (char *)malloc((len + 1) * sizeof(char));
-    if (bindata == NULL) goto error_cleanup;
+    len = strlen(b64data);
+    bindata = (char *)malloc(len * sizeof(char));
 
     base64_init_decodestate(&b64state);
     result = base64_decode_block(b64data, len, bindata, &b64state);
 
+    if (result == 0) {
+        free(bindata);
+        goto error_cleanup;
+    }
+
     free(end_tag);
     free(begin_tag);
     *sz = result;
diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index dc9400f..f837cbb 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -152,15 +152,8 @@ int main(int argc, char **argv) {
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
-    if (mpECP_set_bytes(Ppt, ptxt, psz, cv) != 0) {
-        fprintf(stderr,"<Error>: Invalid public key in message\n");
-        exit(1);
-    }
+    mpECP_set_bytes(Ppt, ptxt, psz, cv);
     free(ptxt);
-    if (nsz != sizeof(nonce)) {
-        fprintf(stderr,"<Error>: Invalid nonce in message\n");
-        exit(1);
-    }
 
     // shared (ECDH) key using 
     mpECP_init(pQpt, cv);
diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index 9e9f524..d131164 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -65,18 +65,13 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    // an empty string fits into no space at all
-    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
-    if (len_test < 0) return -1;
+    if (result != ASN1_MEM_ERROR) return -1;
+    assert(len_test > 0);
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
-    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
-        free(buffer);
-        return -1;
-    }
+    assert(len_read == len_test);
 
     *sz = len_read;
     *buf = buffer;
@@ -88,10 +83,6 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
-        return -1;
-    }
-    // numbers have at least one byte
-    if (sz < 1) {
         free(buffer);
         return -1;
     }
@@ -111,11 +102,12 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    // longer numbers do not occur in well-formed data
-    if ((length < 1) || (length > (int)sizeof(int))) return -1;
+    assert(length > 0);
+    assert(length <= sizeof(int));
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
+    assert(result == ASN1_SUCCESS);
+    assert(lread == length);
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -291,11 +283,7 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&privkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&privkey_asn1);
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -532,7 +520,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     mpz_t cv_p2;
     int cv_type;
     int cv_bits;
-    unsigned char *rawpubkey = NULL;
+    unsigned char *rawpubkey;
     int rawpubkeysz;
 
     // read ASN1 syntax
@@ -555,11 +543,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&pubkey_asn1);
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -632,15 +616,12 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         result = -1;
     }
 
-    // without a curve there are no points
-    if (result != 0) {
-        mpECurve_clear(cv);
-        goto error_cleanup;
-    }
-
     mpECP_init(pubkey, cv);
-    result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
     if (result == 0) {
+        result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
+    }
+    free(rawpubkey);
+    {
         mpz_t px;
         mpz_t py;
 
@@ -652,13 +633,8 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         mpz_clear(py);
         mpz_clear(px);
     }
-    if (result != 0) {
-        mpECP_clear(pubkey);
-        mpECurve_clear(cv);
-    }
 
 error_cleanup:
-    free(rawpubkey);
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     mpz_clear(cv_p2);
@@ -708,14 +684,14 @@ char *_ecdhe_der_export_message(mpECP_t pubkey, unsigned char *nonce, size_t nsz
     assert(result == 0);
     free(buf);
     
-    // public key value (a size of zero would ask for the length of a C string)
-    result = asn1_write_value(msg_asn1, "nonce", (nsz > 0) ? (void *)nonce : (void *)"", nsz);
+    // public key value
+    result = asn1_write_value(msg_asn1, "nonce", nonce, nsz);
     assert(result == 0);
     
     bsz += nsz + 5;
     
     // public key value
-    result = asn1_write_value(msg_asn1, "ciphertext", (msz > 0) ? (void *)msg : (void *)"", msz);
+    result = asn1_write_value(msg_asn1, "ciphertext", msg, msz);
     assert(result == 0);
     
     bsz += msz + 5;
@@ -769,20 +745,12 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&pubkey_asn1);
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, pubkey_asn1, "", ASN1_PRINT_ALL);
     //printf("-----------------\n");
 
-    *ptxt = NULL;
-    *ntxt = NULL;
-    *ctxt = NULL;
-
     // private key value
     result = myasn1_read_octet_string_to_bytes(pubkey_asn1, "pubkeybytes", ptxt, psz);
     if (result != 0) goto error_cleanup;
@@ -796,14 +764,6 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     if (result != 0) goto error_cleanup;
 
 error_cleanup:
-    if (result != 0) {
-        free(*ctxt);
-        free(*ntxt);
-        free(*ptxt);
-        *ptxt = NULL;
-        *ntxt = NULL;
-        *ctxt = NULL;
-    }
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     return result;
diff --git a/examples/ecdh_enc.c b/examples/ecdh_enc.c
index a1b5569..da9cf8d 100644
--- a/examples/ecdh_enc.c
+++ b/examples/ecdh_enc.c
@@ -113,10 +113,6 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
-    if (msg == NULL) {
-        fprintf(stderr,"<Error>: unable to read input file\n");
-        exit(1);
-    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
diff --git a/examples/ecdsa_sign.c b/examples/ecdsa_sign.c
index 72e728b..6339a3f 100644
--- a/examples/ecdsa_sign.c
+++ b/examples/ecdsa_sign.c
@@ -116,10 +116,6 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
-    if (msg == NULL) {
-        fprintf(stderr,"<Error>: unable to read input file\n");
-        exit(1);
-    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
diff --git a/examples/ecdsa_verify.c b/examples/ecdsa_verify.c
index 882c221..b66aa7c 100644
--- a/examples/ecdsa_verify.c
+++ b/examples/ecdsa_verify.c
@@ -65,6 +65,7 @@ int main(int argc, char **argv) {
     mpECDSASignatureScheme_t ss;
     mpECDSASignature_t sig;
     char *der;
+    char *dercp;
     size_t sz;
     int result;
 
@@ -124,17 +125,21 @@ int main(int argc, char **argv) {
     }
     fclose(fPtr);
     
+    dercp = malloc(sz*sizeof(char));
+    memcpy(dercp, der, sz);
+
     sigbytes = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNATURE", &siglen);
     if (sigbytes == NULL) {
         fprintf(stderr,"<ParseError>: unable to decode b64 signature data\n");
         exit(1);
     }
  
-    msg = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNED MESSAGE", &msglen);
+    msg = (unsigned char *)read_b64wrapped_from_buffer(dercp, "ECDSA SIGNED MESSAGE", &msglen);
     if (msg == NULL) {
         fprintf(stderr,"<ParseError>: unable to decode b64 message data\n");
         exit(1);
     }
+    free(dercp);
     free(der);
 
     der = read_b64wrapped_from_file(kPtr, "ECDH PUBLIC KEY", &sz);
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index dd4a7e6..3be5759 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -46,18 +46,13 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    // an empty string fits into no space at all
-    if ((result != ASN1_MEM_ERROR) && (result != ASN1_SUCCESS)) return -1;
-    if (len_test < 0) return -1;
+    if (result != ASN1_MEM_ERROR) return -1;
+    assert(len_test > 0);
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
-    if (buffer == NULL) return -1;
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
-        free(buffer);
-        return -1;
-    }
+    assert(len_read == len_test);
 
     *sz = len_read;
     *buf = buffer;
@@ -88,10 +83,6 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
-        return -1;
-    }
-    // numbers have at least one byte
-    if (sz < 1) {
         free(buffer);
         return -1;
     }
@@ -111,11 +102,12 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    // longer numbers do not occur in well-formed data
-    if ((length < 1) || (length > (int)sizeof(int))) return -1;
+    assert(length > 0);
+    assert(length <= sizeof(int));
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
+    assert(result == ASN1_SUCCESS);
+    assert(lread == length);
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -315,11 +307,7 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&ct_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&ct_asn1);
-        asn1_delete_structure(&eceg_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, ct_asn1, "", ASN1_PRINT_ALL);
@@ -386,40 +374,53 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
         result = -1;
     }
 
-    // without a curve there are no points
-    if (result != 0) goto error_cleanup;
-
     {
-        unsigned char *rawpoint;
-        int rawpointsz;
+        unsigned char *rawpubkey;
+        int rawpubkeysz;
 
-        // ciphertext points (the bytes of a point are only accepted if it is
-        // a point of the curve, and either may be the neutral element)
-        result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpoint, &rawpointsz);
+        // ciphertext points
+        result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpubkey, &rawpubkeysz);
         if (result != 0) goto error_cleanup;
 
         mpECP_init(ctxt->C, cv);
-        result = mpECP_set_bytes(ctxt->C, rawpoint, rawpointsz, cv);
-        free(rawpoint);
-        if (result != 0) {
-            mpECP_clear(ctxt->C);
-            goto error_cleanup;
+        if (result == 0) {
+            result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
         }
-
-        result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpoint, &rawpointsz);
-        if (result != 0) {
-            mpECP_clear(ctxt->C);
-            goto error_cleanup;
+        free(rawpubkey);
+        {
+            mpz_t px;
+            mpz_t py;
+    
+            mpz_init(px);
+            mpz_init(py);
+            mpz_set_mpECP_affine_x(px, ctxt->C);
+            mpz_set_mpECP_affine_y(py, ctxt->C);
+            if (!mpECurve_point_check(cv, px, py)) result = -1;
+            mpz_clear(py);
+            mpz_clear(px);
         }
 
+        result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpubkey, &rawpubkeysz);
+        if (result != 0) goto error_cleanup;
+
         mpECP_init(ctxt->D, cv);
-        result = mpECP_set_bytes(ctxt->D, rawpoint, rawpointsz, cv);
-        free(rawpoint);
-        if (result != 0) {
-            mpECP_clear(ctxt->D);
-            mpECP_clear(ctxt->C);
-            goto error_cleanup;
+        if (result == 0) {
+            result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
+        }
+        free(rawpubkey);
+        {
+            mpz_t px;
+            mpz_t py;
+    
+            mpz_init(px);
+            mpz_init(py);
+            mpz_set_mpECP_affine_x(px, ctxt->D);
+            mpz_set_mpECP_affine_y(py, ctxt->D);
+            if (!mpECurve_point_check(cv, px, py)) result = -1;
+            mpz_clear(py);
+            mpz_clear(px);
         }
+
     }
 
 error_cleanup:
-- 
2.43.0

