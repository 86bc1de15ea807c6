From b397247f17314b1be9e0ff895884fd989ebdbb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:08 +0000
Subject: [PATCH 01/54] fix: dsa: propagate the failures of the internal steps

---
 src/crypt/dsa.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..918bf79 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -148,11 +148,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, (cry_mpi *)NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -165,7 +166,9 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            if ((res = cry_mpi_is_prime(&ctx->p)) < 0)
+                goto e;
+            if (res == 1)
                 break;
         }
         if (j == ITER_MAX_IN)
@@ -185,11 +188,11 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
-        break;
+        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
+        goto e;
     }
-e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
+    res = -1; /* Attempts exhausted */
+e:  cry_mpi_clear_list(&p1, &q, &r, &one, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 9464fd25f2316201685d1cce3145e4c6b0b194a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:35 +0000
Subject: [PATCH 02/54] fix: dsa: draw the private key in [1,q-1], not below
 the cofactor

---
 src/crypt/dsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 918bf79..6bac52e 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -188,7 +188,7 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
         CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         goto e;
     }
-- 
2.43.0


From c4bd3f18ff170fc88f3b8d03f0a84b1dc4e190a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:42 +0000
Subject: [PATCH 03/54] fix: dsa: reject signature components out of range

---
 src/crypt/dsa.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 6bac52e..4655169 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -88,6 +88,13 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
     int res;
     cry_mpi z, w, u1, u2;
 
+    /* Both the signature components shall be in [1,q-1] */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
+        cry_mpi_cmp(&sig->r, &ctx->q) >= 0 ||
+        cry_mpi_is_zero(&sig->s) || cry_mpi_is_neg(&sig->s) ||
+        cry_mpi_cmp(&sig->s, &ctx->q) >= 0)
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, &u1, &u2, (cry_mpi *)NULL)) != 0)
         return res;
 
-- 
2.43.0


From 7f08a029601325355af805224d3b4a1ae382f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:50 +0000
Subject: [PATCH 04/54] fix: ecdsa: sign reports failures, verify clears what
 it has set up only

---
 src/crypt/ecdsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..38c62af 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -46,7 +46,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
@@ -88,7 +88,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From fce2fb16c6399b322d06bb8ea329513771e5dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:37 +0000
Subject: [PATCH 05/54] fix: ecdsa: reduce r modulo n, reject signature
 components out of range

---
 src/crypt/ecdsa.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 38c62af..28f7501 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -35,7 +35,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
 
     /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
+    CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
 
     /* s = (inv(k) * (z + r*d)) mod n */
     CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
@@ -56,6 +56,13 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     cry_mpi z, w;
     cry_ecp G, Q;
 
+    /* Both the signature components shall be in [1,n-1] */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
+        cry_mpi_cmp(&sig->r, &ctx->grp.n) >= 0 ||
+        cry_mpi_is_zero(&sig->s) || cry_mpi_is_neg(&sig->s) ||
+        cry_mpi_cmp(&sig->s, &ctx->grp.n) >= 0)
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, (cry_mpi *)NULL)) != 0)
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
-- 
2.43.0


From bad44072ff0c6119c168a8200c49d366e0bd91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 06/54] fix: elgamal: report the failure to find an invertible
 secret

---
 src/crypt/elgamal.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..92fe01b 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -39,15 +39,13 @@ static int secret_gen(cry_mpi *k, const cry_mpi *t, const cry_mpi *one)
     if ((res = cry_mpi_init(&r)) != 0)
         return res;
 
-    res = -1;
     do {
         CHK(cry_mpi_rand_range(k, t));
         CHK(cry_mpi_gcd(&r, k, t));
-        if (cry_mpi_cmp(&r, one) == 0) {
-            res = 0;
-            break;
-        }
+        if (cry_mpi_cmp(&r, one) == 0)
+            goto e;
     } while (++iter < MAX_ITER);
+    res = -1; /* Attempts exhausted */
 
 e:  cry_mpi_clear(&r);
     return res;
-- 
2.43.0


From 815e24563d885c3800c84128173fc11b5cdb37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 07/54] fix: elgamal: reject signature components out of range

---
 src/crypt/elgamal.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index 92fe01b..25ea8d5 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -100,9 +100,22 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
 
+    /* Shall be 0 < r < p and 0 < s < p-1 */
+    if (cry_mpi_is_zero(&sign->r) || cry_mpi_is_neg(&sign->r) ||
+        cry_mpi_cmp(&sign->r, &ctx->p) >= 0 ||
+        cry_mpi_is_zero(&sign->s) || cry_mpi_is_neg(&sign->s))
+        return -1;
+
     if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
         return res;
 
+    CHK(cry_mpi_set_int(&z, 1));
+    CHK(cry_mpi_sub(&z, &ctx->p, &z));
+    if (cry_mpi_cmp(&sign->s, &z) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
     CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
     CHK(cry_mpi_mul(&r, &r, &z));
-- 
2.43.0


From c9607ddee4a74491630dbe03cd6018d3fc7f1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:56 +0000
Subject: [PATCH 08/54] fix: ecdsa: never accept the point at infinity as a
 match for r

---
 src/crypt/ecdsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 28f7501..69a8f35 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -88,6 +88,10 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&G, &ctx->grp.g, &z, &ctx->grp));
     CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
+    if (cry_ecp_is_zero(&G)) {
+        res = -1;
+        goto e1;
+    }
 
     /* r = x1 mod n */
     CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
-- 
2.43.0


From fad640d25dd00088f75dab3d94a614f177011268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 09/54] fix: ecp_mul: report the failure to allocate the window

---
 src/ecp/ecp_mul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 6271369..30b573d 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -26,8 +26,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {
             while (i-- > 0) /* rollback */
@@ -131,8 +133,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {  // 0P
             while (i-- > 0) /* rollback */
-- 
2.43.0


From 29986ba141b8c4fe97e71b5a8edaa6a1b0248adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:48 +0000
Subject: [PATCH 10/54] fix: ecp_mul: make the plain windowed variant compile

---
 src/ecp/ecp_mul.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 30b573d..5fc399a 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -120,8 +120,6 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
     int res, i, j, w, paf = 1;
     struct cry_ecp r, *win = NULL;
     cry_mpi_digit msk;
-    cry_mpi *a = &grp->a;
-    cry_mpi *p = &grp->p;
 
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
@@ -145,20 +143,20 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         }
     }
     CHK(cry_ecp_copy(&win[1], p1));                     /* 1P */
-    CHK(cry_ecp_dbl(&win[2],  &win[1], a, p));          /* 2P */
-    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], p));    /* 3P */
-    CHK(cry_ecp_dbl(&win[4],  &win[2], a, p));          /* 4P */
-    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], p));    /* 5P */
-    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], p));    /* 6P */
-    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], p));    /* 7P */
-    CHK(cry_ecp_dbl(&win[8],  &win[4], a, p));          /* 8P */
-    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], p));    /* 9P */
-    CHK(cry_ecp_add(&win[10], &win[9], &win[1], p));    /* 10P */
-    CHK(cry_ecp_add(&win[11], &win[10], &win[1], p));   /* 11P */
-    CHK(cry_ecp_add(&win[12], &win[11], &win[1], p));   /* 12P */
-    CHK(cry_ecp_add(&win[13], &win[12], &win[1], p));   /* 13P */
-    CHK(cry_ecp_add(&win[14], &win[13], &win[1], p));   /* 14P */
-    CHK(cry_ecp_add(&win[15], &win[14], &win[1], p));   /* 15P */
+    CHK(cry_ecp_dbl(&win[2],  &win[1], grp));          /* 2P */
+    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], grp));    /* 3P */
+    CHK(cry_ecp_dbl(&win[4],  &win[2], grp));          /* 4P */
+    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], grp));    /* 5P */
+    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], grp));    /* 6P */
+    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], grp));    /* 7P */
+    CHK(cry_ecp_dbl(&win[8],  &win[4], grp));          /* 8P */
+    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], grp));    /* 9P */
+    CHK(cry_ecp_add(&win[10], &win[9], &win[1], grp));    /* 10P */
+    CHK(cry_ecp_add(&win[11], &win[10], &win[1], grp));   /* 11P */
+    CHK(cry_ecp_add(&win[12], &win[11], &win[1], grp));   /* 12P */
+    CHK(cry_ecp_add(&win[13], &win[12], &win[1], grp));   /* 13P */
+    CHK(cry_ecp_add(&win[14], &win[13], &win[1], grp));   /* 14P */
+    CHK(cry_ecp_add(&win[15], &win[14], &win[1], grp));   /* 15P */
     /*
      * END window generation
      */
@@ -172,14 +170,14 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         while (j > 0) {
             if (!paf) {
                 for (w = 0; w < WINSIZ; w++)
-                    CHK(cry_ecp_dbl(&r, &r, a, p));
+                    CHK(cry_ecp_dbl(&r, &r, grp));
             }
 
             j -= WINSIZ;
             w = (k->data[i] & msk) >> j;
             if (w > 0) {
                 if (!paf) {
-                    CHK(cry_ecp_add(&r, &r, &win[w], p));
+                    CHK(cry_ecp_add(&r, &r, &win[w], grp));
                 } else {
                     paf = 0; /* First addition */
                     CHK(cry_ecp_copy(&r, &win[w]));
-- 
2.43.0


From 94d900b1046830af792d463e267c55414dd796b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:56 +0000
Subject: [PATCH 11/54] fix: mpi_div: do not dereference a missing remainder,
 report every failure

---
 src/mpi/mpi_div.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..b812412 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -1,26 +1,36 @@
 #include "mpi_pvt.h"
 
+#define CHK(exp) CRY_CHK(res = (exp), e)
+
 int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                 const cry_mpi *b)
 {
-    int res, sign = a->sign ^ b->sign;
+    int res;
+    cry_mpi tq, tr, one;
+    cry_mpi_digit one_dig = 1;
 
-    if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
-        return res;
+    if (a->sign == b->sign)
+        return cry_mpi_div_abs(q, r, a, b);
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
-        if (q != NULL) {
-            cry_mpi one;
-            cry_mpi_digit one_dig = 1;
+    one.sign = 0;
+    one.used = one.alloc = 1;
+    one.data = &one_dig;
 
-            one.sign = 0;
-            one.used = one.alloc = 1;
-            one.data = &one_dig;
-            q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
-        }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+    /* The remainder is required even if the caller doesn't want it */
+    if ((res = cry_mpi_init_list(&tq, &tr, (cry_mpi *)NULL)) != 0)
+        return res;
+
+    CHK(cry_mpi_div_abs(&tq, &tr, a, b));
+    if (!cry_mpi_is_zero(&tr)) {
+        CHK(cry_mpi_sub_abs(&tr, b, &tr));
+        CHK(cry_mpi_add_abs(&tq, &tq, &one));
+    }
+    if (q != NULL) {
+        cry_mpi_swap(q, &tq);
+        q->sign = cry_mpi_is_zero(q) ? 0 : 1;
     }
+    if (r != NULL)
+        cry_mpi_swap(r, &tr);
+e:  cry_mpi_clear_list(&tq, &tr, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 0c68f351be8b2d934bad5e50c2d1cd0ef6d81ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:49 +0000
Subject: [PATCH 12/54] fix: mpi_inv: propagate failures, reject not invertible
 values in the binary variant

---
 src/mpi/mpi_inv.c | 102 ++++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 45 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index ae0d6c5..b52ba46 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -1,6 +1,8 @@
 #include "mpi_pvt.h"
 #include <cry/config.h>
 
+#define CHK(exp) CRY_CHK(res = (exp), e)
+
 #ifdef CRY_MPI_INV_EUCLID
 
 /*
@@ -10,26 +12,26 @@
  */
 int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 {
-    int ret = 0;
+    int res;
     cry_mpi r0, r1, s0, s1, q;
 
-    if ((ret = cry_mpi_init_list(&r0, &r1, &s0, &s1, &q,
+    if ((res = cry_mpi_init_list(&r0, &r1, &s0, &s1, &q,
                                  (cry_mpi *)NULL)) != 0)
-        return ret;
+        return res;
 
-    cry_mpi_copy(&r0, a);
-    cry_mpi_copy(&r1, m);
-    cry_mpi_set_int(&s0, 1);
-    cry_mpi_set_int(&s1, 0);
+    CHK(cry_mpi_copy(&r0, a));
+    CHK(cry_mpi_copy(&r1, m));
+    CHK(cry_mpi_set_int(&s0, 1));
+    CHK(cry_mpi_set_int(&s1, 0));
 
     while (!cry_mpi_is_zero(&r1)) {
         /* r2 = r0 - q1*r1 */
-        cry_mpi_div(&q, &r0, &r0, &r1);
+        CHK(cry_mpi_div(&q, &r0, &r0, &r1));
         cry_mpi_swap(&r0, &r1);
 
         /* s2 = s0 - q1*s1 */
-        cry_mpi_mul(&q, &q, &s1);
-        cry_mpi_sub(&s0, &s0, &q);
+        CHK(cry_mpi_mul(&q, &q, &s1));
+        CHK(cry_mpi_sub(&s0, &s0, &q));
         cry_mpi_swap(&s0, &s1);
 
         cry_mpi_zero(&q);
@@ -37,15 +39,14 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 
     /* Check that the GCD is 1, necessary condition */
     if (r0.used == 1 && r0.sign == 0 && r0.data[0] == 1) {
+        if (s0.sign)
+            CHK(cry_mpi_mod(&s0, &s0, m));
         cry_mpi_swap(r, &s0);
-        if (r->sign)
-            cry_mpi_mod(r, r, m);
     } else {
-        cry_mpi_zero(&s0);
-        ret = -1;
+        res = -1;
     }
-    cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
-    return ret;
+e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
+    return res;
 }
 
 #else
@@ -64,56 +65,67 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *x, const cry_mpi *m)
                                  &TB, &TV, &V1, &V2, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_mod(&TA, x, m)) != 0)
-        goto cleanup;
-    cry_mpi_copy(&TU, &TA);
-    cry_mpi_copy(&TB, m);
-    cry_mpi_copy(&TV, m);
+    CHK(cry_mpi_mod(&TA, x, m));
+
+    /* Zero or, with an even modulus, an even value can't be inverted */
+    if (cry_mpi_is_zero(&TA) || (cry_mpi_is_even(&TA) && cry_mpi_is_even(m))) {
+        res = -1;
+        goto e;
+    }
+
+    CHK(cry_mpi_copy(&TU, &TA));
+    CHK(cry_mpi_copy(&TB, m));
+    CHK(cry_mpi_copy(&TV, m));
 
-    cry_mpi_set_int(&U1, 1);
-    cry_mpi_set_int(&U2, 0);
-    cry_mpi_set_int(&V1, 0);
-    cry_mpi_set_int(&V2, 1);
+    CHK(cry_mpi_set_int(&U1, 1));
+    CHK(cry_mpi_set_int(&U2, 0));
+    CHK(cry_mpi_set_int(&V1, 0));
+    CHK(cry_mpi_set_int(&V2, 1));
 
     do {
         while (cry_mpi_is_even(&TU)) {
-            cry_mpi_shr(&TU, &TU, 1);
+            CHK(cry_mpi_shr(&TU, &TU, 1));
             if (cry_mpi_is_odd(&U1) || cry_mpi_is_odd(&U2)) {
-                cry_mpi_add(&U1, &U1, &TB);
-                cry_mpi_sub(&U2, &U2, &TA);
+                CHK(cry_mpi_add(&U1, &U1, &TB));
+                CHK(cry_mpi_sub(&U2, &U2, &TA));
             }
-            cry_mpi_shr(&U1, &U1, 1);
-            cry_mpi_shr(&U2, &U2, 1);
+            CHK(cry_mpi_shr(&U1, &U1, 1));
+            CHK(cry_mpi_shr(&U2, &U2, 1));
         }
         while (cry_mpi_is_even(&TV)) {
-            cry_mpi_shr(&TV, &TV, 1);
+            CHK(cry_mpi_shr(&TV, &TV, 1));
             if (cry_mpi_is_odd(&V1) || cry_mpi_is_odd(&V2)) {
-                cry_mpi_add(&V1, &V1, &TB);
-                cry_mpi_sub(&V2, &V2, &TA);
+                CHK(cry_mpi_add(&V1, &V1, &TB));
+                CHK(cry_mpi_sub(&V2, &V2, &TA));
             }
-            cry_mpi_shr(&V1, &V1, 1);
-            cry_mpi_shr(&V2, &V2, 1);
+            CHK(cry_mpi_shr(&V1, &V1, 1));
+            CHK(cry_mpi_shr(&V2, &V2, 1));
         }
         if (cry_mpi_cmp(&TU, &TV) >= 0) {
-            cry_mpi_sub(&TU, &TU, &TV);
-            cry_mpi_sub(&U1, &U1, &V1);
-            cry_mpi_sub(&U2, &U2, &V2);
+            CHK(cry_mpi_sub(&TU, &TU, &TV));
+            CHK(cry_mpi_sub(&U1, &U1, &V1));
+            CHK(cry_mpi_sub(&U2, &U2, &V2));
         } else {
-            cry_mpi_sub(&TV, &TV, &TU);
-            cry_mpi_sub(&V1, &V1, &U1);
-            cry_mpi_sub(&V2, &V2, &U2);
+            CHK(cry_mpi_sub(&TV, &TV, &TU));
+            CHK(cry_mpi_sub(&V1, &V1, &U1));
+            CHK(cry_mpi_sub(&V2, &V2, &U2));
         }
     } while (TU.used != 0);
 
+    /* Check that the GCD is 1, necessary condition */
+    if (TV.used != 1 || TV.data[0] != 1) {
+        res = -1;
+        goto e;
+    }
+
     while (V1.used && V1.sign)
-        cry_mpi_add(&V1, &V1, m);
+        CHK(cry_mpi_add(&V1, &V1, m));
 
     while (cry_mpi_cmp(&V1, m) >= 0)
-        cry_mpi_sub(&V1, &V1, m);
+        CHK(cry_mpi_sub(&V1, &V1, m));
 
     cry_mpi_swap(r, &V1);
-cleanup:
-    cry_mpi_clear_list(&TA, &TB, &TU, &TV, &U1, &U2, &V1, &V2,
+e:  cry_mpi_clear_list(&TA, &TB, &TU, &TV, &U1, &U2, &V1, &V2,
                        (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 6813c76cb4b3b0ad476a5d44e69b7855ccbfd90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:14 +0000
Subject: [PATCH 13/54] fix: mpi_gcd: do not scan the digits of a zero operand

---
 src/mpi/mpi_gcd.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index de43d33..2e5d5c2 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -34,6 +34,18 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
         (res = cry_mpi_copy(&ty, y)) != 0)
         goto e;
 
+    /* gcd(x,0) = |x|, gcd(0,y) = |y| */
+    if (cry_mpi_is_zero(&tx)) {
+        cry_mpi_swap(r, &ty);
+        r->sign = 0;
+        goto e;
+    }
+    if (cry_mpi_is_zero(&ty)) {
+        cry_mpi_swap(r, &tx);
+        r->sign = 0;
+        goto e;
+    }
+
     lz  = cry_mpi_lsb(&tx);
     lzt = cry_mpi_lsb(&ty);
     if (lzt < lz)
-- 
2.43.0


From d7a03dd89be027a7db685a6781d2baa239c11db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:23 +0000
Subject: [PATCH 14/54] fix: mpi_gcd: do not overwrite the failure of a
 reduction step

---
 src/mpi/mpi_gcd.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index 2e5d5c2..a6b3990 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -58,19 +58,20 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     while (!cry_mpi_is_zero(&tx)) {
         if ((res = cry_mpi_shr(&tx, &tx, cry_mpi_lsb(&tx))) != 0 ||
             (res = cry_mpi_shr(&ty, &ty, cry_mpi_lsb(&ty))) != 0)
-            break;
+            goto e;
 
         if (cry_mpi_cmp_abs(&tx, &ty) >= 0) {
             if ((res = cry_mpi_sub_abs(&tx, &tx, &ty)) != 0 ||
                 (res = cry_mpi_shr(&tx, &tx, 1)) != 0)
-                break;
+                goto e;
         } else {
             if ((res = cry_mpi_sub_abs(&ty, &ty, &tx)) != 0 ||
                 (res = cry_mpi_shr(&ty, &ty, 1)) != 0)
-                break;
+                goto e;
         }
     }
-    res = cry_mpi_shl(&ty, &ty, lz);
+    if ((res = cry_mpi_shl(&ty, &ty, lz)) != 0)
+        goto e;
     cry_mpi_swap(r, &ty);
 e:  cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 15806915263dfed67214f4a9a72c821ad8485b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:35 +0000
Subject: [PATCH 15/54] fix: mpi_mod_exp: check the accumulator initialization

---
 src/mpi/mpi_mod_exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index ee15d00..4ce37b7 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -6,14 +6,15 @@
 int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
                     const cry_mpi *m)
 {
-    int res = 0;
+    int res;
     size_t bits;
     cry_mpi exp;
 
     if (cry_mpi_is_neg(e) || (m != NULL && cry_mpi_is_neg(m)))
         return -1;
 
-    res = cry_mpi_init_int(&exp, 1);
+    if ((res = cry_mpi_init_int(&exp, 1)) != 0)
+        return res;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From 2e5083805a51746e867c7b23bfaeef6c02d75b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:38 +0000
Subject: [PATCH 16/54] fix: ecdh_init: report failures and leave nothing
 allocated behind

---
 src/crypt/ecdh.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 0daed65..6eb9eef 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -1,12 +1,21 @@
 #include <cry/ecdh.h>
+#include "misc.h"
 
 int cry_ecdh_init(cry_ecdh_ctx *ctx)
 {
-    cry_ecp_grp_init(&ctx->ec);
-    cry_mpi_init(&ctx->d);
-    cry_ecp_init(&ctx->q);
-    cry_ecp_init(&ctx->z);
+    int res;
+
+    if ((res = cry_ecp_grp_init(&ctx->ec)) != 0)
+        return res;
+    CRY_CHK(res = cry_mpi_init(&ctx->d), e0);
+    CRY_CHK(res = cry_ecp_init(&ctx->q), e1);
+    CRY_CHK(res = cry_ecp_init(&ctx->z), e2);
     return 0;
+
+e2: cry_ecp_clear(&ctx->q);
+e1: cry_mpi_clear(&ctx->d);
+e0: cry_ecp_grp_clear(&ctx->ec);
+    return res;
 }
 
 void cry_ecdh_clear(cry_ecdh_ctx *ctx)
-- 
2.43.0


From 9d6f82a9de0dd798abe26705b742e4b6b3c06113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 17/54] fix: ecdh_clear: wipe the context as the other public
 key schemes do

---
 src/crypt/ecdh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 6eb9eef..4c2fb45 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -24,6 +24,7 @@ void cry_ecdh_clear(cry_ecdh_ctx *ctx)
     cry_mpi_clear(&ctx->d);
     cry_ecp_clear(&ctx->q);
     cry_ecp_clear(&ctx->z);
+    cry_memset(ctx, 0, sizeof(*ctx));
 }
 
 int cry_ecdh_agree(cry_ecdh_ctx *ctx)
-- 
2.43.0


From 5cc87ea3840b23aa72db2890a2a69209be45175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 18/54] fix: rsa: empty input returned an unset result

---
 src/crypt/rsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index a0008ff..9a2e16e 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -174,7 +174,7 @@ e:  free(buf);
 static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                    const unsigned char *in, size_t inlen, int sign)
 {
-    int res;
+    int res = -1; /* nothing to process is an error */
     size_t mod_siz, block_siz;
     void *newptr;
 
@@ -216,7 +216,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
 static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                    const unsigned char *in, size_t inlen, int sign)
 {
-    int res;
+    int res = -1; /* nothing to process is an error */
     size_t mod_siz;
     void *newptr;
 
-- 
2.43.0


From 4eabf8380010ddea1caf2bd57d2f797bd43e70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:11 +0000
Subject: [PATCH 19/54] fix: rsa: decrypted blocks overwrote each other

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 9a2e16e..9a262bc 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -238,7 +238,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         }
         *out = newptr;
 
-        res = decrypt_block(ctx, *out, in, mod_siz, sign);
+        res = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
         if (res < 0)
             break;
         *outlen += res;
-- 
2.43.0


From f69ad19cf87267ac2abb08967bbc36f16bd1dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 20/54] fix: rsa: buffer overrun when the modulus is smaller
 than the padding

---
 src/crypt/rsa.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 9a262bc..83ad446 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -26,7 +26,7 @@ static int padding_add(unsigned char *dst, size_t dlen,
     unsigned char *p = dst;
     size_t j;
 
-    if (slen > (dlen - 11))
+    if (dlen < 11 || slen > (dlen - 11))
         return -1;
 
     *(p++) = 0;
@@ -67,6 +67,9 @@ static int padding_del(unsigned char *dst, size_t dlen,
 
     (void)padding; /* unused */
 
+    if (slen < 11)
+        return -1;
+
     if (src[0] != 0 || (sign != 0 && src[1] != 0x01) ||
         (sign == 0 && src[1] != 0x02))
         /* Unrecognized block type */
@@ -181,7 +184,11 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *out = NULL;
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
-    block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
+    block_siz = mod_siz;
+    if (ctx->padding != CRY_RSA_PADDING_NONE)
+        block_siz = (mod_siz > 11) ? mod_siz - 11 : 0;
+    if (block_siz == 0)
+        return -1; /* modulus too small to carry any data */
 
     while (inlen) {
         if (inlen < block_siz)
-- 
2.43.0


From 05c2a49cfeab9c90b3c351d89f731f7be3180065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:32 +0000
Subject: [PATCH 21/54] fix: rsa: reject blocks with less than eight padding
 bytes

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 83ad446..11a50a6 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -83,7 +83,7 @@ static int padding_del(unsigned char *dst, size_t dlen,
         if (sign != 0 && src[i] != 0xFF)
             return -1;
     }
-    if (i == slen)
+    if (i == slen || i < 10) /* at least eight padding bytes */
         return -1;
     i++; /* skip zero */
     if (slen - i < dlen)
-- 
2.43.0


From 34236b050851d00317a9520bbb1c7e7b2d1374e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:41 +0000
Subject: [PATCH 22/54] fix: rsa_keygen: compute the private exponent, fail if
 no key has been found

---
 src/crypt/rsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 11a50a6..2915048 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -355,6 +355,10 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
             break;
     } while (cry_mpi_cmp(&g, &one) != 0 && ++j < MAX_ITER);
 
+    /* Private exponent, fails if a suitable key has not been found */
+    if (res == 0)
+        res = cry_mpi_inv(&ctx->d, &ctx->e, &phi);
+
     cry_mpi_clear_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From d1e7bbdef78e747551e0618f555ecb3793cade03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:52 +0000
Subject: [PATCH 23/54] fix: rsa_verify: without padding any prefix of the
 signed message was accepted

---
 src/crypt/rsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 2915048..b808c82 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -289,7 +289,7 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
 {
     int res;
     unsigned char *out;
-    size_t outlen;
+    size_t i, outlen;
 
     res = decrypt(ctx, &out, &outlen, sig, siglen, 1);
     if (res == 0) {
@@ -298,6 +298,11 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
             memcmp(out, in, inlen) != 0) {
             res = -1;
         }
+        /* Without padding the last block is filled with zeros */
+        for (i = inlen; i < outlen; i++) {
+            if (out[i] != 0)
+                res = -1;
+        }
         free(out);
     }
     return res;
-- 
2.43.0


From 19f356ec80dff451ea1b26dbe2340ac5a83a780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:28 +0000
Subject: [PATCH 24/54] fix: rsa: an unknown padding mode left the padding
 bytes unset

---
 src/crypt/rsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index b808c82..f37256d 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -49,6 +49,7 @@ static int padding_add(unsigned char *dst, size_t dlen,
         res = -1;
         break;
     default:
+        res = -1;
         break;
     }
     if (res != 0)
-- 
2.43.0


From bfcdb3c290129e52c0c092b123b20ea05d07b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:40 +0000
Subject: [PATCH 25/54] fix: mpi_load_bin: stale sign of the destination

---
 src/mpi/mpi_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
-- 
2.43.0


From 97f8632efe87d1890e04f16187dd0ec765378ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 26/54] fix: mpi comba: stale sign of the destination

---
 src/mpi/mpi_mul_comba.c | 1 +
 src/mpi/mpi_sqr_comba.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 11804c3..4848aa9 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -24,6 +24,7 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         dst = r;
     }
     cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..cef35e9 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -24,7 +24,8 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
             return res;
         dst = r;
     }
-    cry_mpi_set_used(dst, pa);;
+    cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
-- 
2.43.0


From 1ac87cb87599d0083f220c5fe18ec3ea895edb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 27/54] fix: mpi_rand: leading zero bytes left the top digit
 out of the number

---
 src/mpi/mpi_rand.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index d1072d0..decc55e 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -24,6 +24,11 @@ int cry_mpi_rand(cry_mpi *r, size_t bits)
         goto e;
 
     digs = CRY_MPI_BITS_TO_DIGS(bits);
+    /* The most significant digits may be missing if the bytes are zero */
+    if ((res = cry_mpi_grow(r, digs)) != 0)
+        goto e;
+    while (r->used < digs)
+        r->data[r->used++] = 0;
     msb = bits - CRY_MPI_DIGIT_BITS * (digs - 1);
     if (msb < CRY_MPI_DIGIT_BITS)
         r->data[digs-1] &= ((cry_mpi_digit)1 << msb) - 1; /* Clear extra bits */
-- 
2.43.0


From da95cc0902607d33ea6059442bbab2faa2f98569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:54 +0000
Subject: [PATCH 28/54] fix: mpi_print: buffer too small for radixes less than
 16

---
 src/mpi/mpi_print.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_print.c b/src/mpi/mpi_print.c
index a00622b..d27d6a5 100644
--- a/src/mpi/mpi_print.c
+++ b/src/mpi/mpi_print.c
@@ -8,7 +8,8 @@ void cry_mpi_print(const cry_mpi *a, unsigned int radix)
     size_t len;
     int ret;
 
-    len = 2*cry_mpi_count_bytes(a) + 2; /* space for NULL and sign */
+    /* radix 2 worst case, plus space for NULL and sign */
+    len = 8*cry_mpi_count_bytes(a) + 2;
     if ((s = malloc(len)) == NULL) {
         fprintf(stderr, "cry_mpi_print: out of memory error\n");
         return;
-- 
2.43.0


From 0a2aae28dc7dfcc7c91dc14b2f63dd179ba1f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 29/54] fix: mpi_is_prime: endless loop on one

---
 src/mpi/mpi_prime.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index aa4785d..4941ba5 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -195,6 +195,12 @@ int cry_mpi_is_prime(const cry_mpi *p)
 {
     int i, res;
 
+    /* Not positive numbers and one are not primes, two is */
+    if (cry_mpi_is_neg(p) || cry_mpi_is_zero(p))
+        return 0;
+    if (p->used == 1 && p->data[0] <= 2)
+        return (p->data[0] == 2) ? 1 : 0;
+
     res = is_obviously_not_prime(p);
     switch (res) {
     case 0:
-- 
2.43.0


From 9889b5206190ac45960f55bde1996df6d819ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:20 +0000
Subject: [PATCH 30/54] fix: mpi get/set_int: signed overflow on the most
 negative value

---
 src/mpi/mpi_core.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..daf27ff 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = 0UL - (unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -98,13 +98,10 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
 int cry_mpi_get_int(cry_mpi *a, long *val)
 {
-    size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long rval = 0;
 
-    used = cry_mpi_count_bits(a);
-    /* consider the sign bit */
-    if (used > 8*sizeof(long) - ((a->sign == 0) ? 1 : 0))
+    if (cry_mpi_count_bits(a) > 8*sizeof(long))
         return -1;
     i = a->used;
     while (i-- > 0) {
@@ -113,7 +110,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 #endif
         rval |= a->data[i];
     }
-    *val = (a->sign == 0) ? rval : -rval;
+    /* consider the sign bit */
+    if (rval > (unsigned long)LONG_MAX + ((a->sign == 0) ? 0 : 1))
+        return -1;
+    *val = (a->sign == 0) ? (long)rval : -(long)(rval - 1) - 1;
     return 0;
 }
 
-- 
2.43.0


From 5e6938cdd4e52eba04f9bce0285075c9be5e08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 31/54] fix: aes_wrap: reject data that is not a positive
 multiple of 8 bytes

---
 src/utils/aes_wrap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..0597323 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -24,6 +24,9 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     cry_aes_ctx aes;
 
+    if (len == 0 || (len & 7) != 0)
+        return -1;
+
     a = out;
     r = out + 8;
 
@@ -57,6 +60,9 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     int res = 0;
 
+    if (len == 0 || (len & 7) != 0)
+        return -1;
+
     /* Initialize variables */
     memcpy(a, in, 8);
     r = out;
-- 
2.43.0


From 66830cd9ae7c27de4ef6b45d26d34bf1eb0a08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:18 +0000
Subject: [PATCH 32/54] fix: aes_wrap: key schedule left on the stack

---
 src/utils/aes_wrap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 0597323..a642cc9 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -49,6 +49,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             r += 8;
         }
     }
+    cry_aes_clear(&aes);
     return 0;
 }
 
@@ -92,5 +93,6 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
             break;
         }
     }
+    cry_aes_clear(&aes);
     return res;
 }
-- 
2.43.0


From 286225fea599fc958efc8fce738a3c50327db5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:25 +0000
Subject: [PATCH 33/54] fix: cipher modes clear: context wipe can be optimized
 out

---
 src/crypt/cbc.c | 2 +-
 src/crypt/cfb.c | 2 +-
 src/crypt/ctr.c | 2 +-
 src/crypt/gcm.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..a1806b8 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -20,7 +20,7 @@ void cry_cbc_clear(struct cry_cbc_ctx *ctx)
 {
     if (ctx->ciph_itf->clear != NULL)
         ctx->ciph_itf->clear(ctx->ciph_ctx);
-    memset(ctx, 0, sizeof(*ctx));
+    cry_memset(ctx, 0, sizeof(*ctx));
 }
 
 void cry_cbc_key_set(struct cry_cbc_ctx *ctx, const unsigned char *key,
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..c65f761 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -17,7 +17,7 @@ void cry_cfb_clear(struct cry_cfb_ctx *ctx)
 {
     if (ctx->ciph_itf->clear != NULL)
         ctx->ciph_itf->clear(ctx->ciph_ctx);
-    memset(ctx, 0, sizeof(*ctx));
+    cry_memset(ctx, 0, sizeof(*ctx));
 }
 
 void cry_cfb_key_set(struct cry_cfb_ctx *ctx, const unsigned char *key,
diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..8a13197 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -20,7 +20,7 @@ void cry_ctr_clear(struct cry_ctr_ctx *ctx)
 {
     if (ctx->ciph_itf->clear != NULL)
         ctx->ciph_itf->clear(ctx->ciph_ctx);
-    memset(ctx, 0, sizeof(*ctx));
+    cry_memset(ctx, 0, sizeof(*ctx));
 }
 
 void cry_ctr_key_set(struct cry_ctr_ctx *ctx, const unsigned char *key,
diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..b88d74c 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -87,7 +87,7 @@ void cry_gcm_clear(struct cry_gcm_ctx *ctx)
 {
     if (ctx->ciph_itf->clear != NULL)
         ctx->ciph_itf->clear(ctx->ciph_ctx);
-    memset(ctx, 0, sizeof(*ctx));
+    cry_memset(ctx, 0, sizeof(*ctx));
 }
 
 void cry_gcm_key_set(struct cry_gcm_ctx *gcm, const unsigned char *key,
-- 
2.43.0


From ba5d339a2dd2cab3c5d81af93aa32c35064760b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:34 +0000
Subject: [PATCH 34/54] fix: cbc_decrypt: empty input reads and writes out of
 bounds

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index a1806b8..b0ab5e7 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From 5d3e7f996226602ddb5db6a17c89ca5feb40be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:42 +0000
Subject: [PATCH 35/54] fix: ctr: in-place operation assumes 16 bytes blocks

---
 src/crypt/ctr.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 8a13197..6b3855e 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -46,7 +46,7 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
     unsigned char buf[BUF_LEN];
     void *ciph = ctx->ciph_ctx;
     cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
-    size_t n;
+    size_t n, buf_len;
     unsigned char *p;
 
     if (src != dst) {
@@ -66,18 +66,19 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
             cry_memxor2(dst + len - n, src + len - n, buf, n);
         }
     } else {
-        while (len >= BUF_LEN) {
+        buf_len = BUF_BLOCKS * ctx->ctrlen;
+        while (len >= buf_len) {
             p = buf;
             for (n = 0; n < BUF_BLOCKS; n++) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
             }
-            encrypt(ciph, buf, buf, BUF_LEN);
-            cry_memxor2(dst, src, buf, BUF_LEN);
-            len -= BUF_LEN;
-            src += BUF_LEN;
-            dst += BUF_LEN;
+            encrypt(ciph, buf, buf, buf_len);
+            cry_memxor2(dst, src, buf, buf_len);
+            len -= buf_len;
+            src += buf_len;
+            dst += buf_len;
         }
 
         if (len != 0) {
-- 
2.43.0


From d78b807c76323af1492cd67cb9b521dc00119f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:55 +0000
Subject: [PATCH 36/54] fix: cfb: partial last block reads past the output
 buffer

---
 src/crypt/cfb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index c65f761..64fe93c 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -55,7 +55,7 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
     }
 }
 
-- 
2.43.0


From edad39b205af3db09be9078c9317911ee41be368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:04 +0000
Subject: [PATCH 37/54] fix: cfb8_decrypt: shift register taken from stale
 buffer

---
 src/crypt/cfb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 64fe93c..f4e9b09 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -101,6 +101,8 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
+        if (len == 0)
+            break;
         memcpy(buf, buf + ctx->vlen, ctx->vlen);
         memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
     }
-- 
2.43.0


From 8bc9862770ab9cb2a4055acef614950455c73e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:12 +0000
Subject: [PATCH 38/54] fix: gcm: lengths truncated to 32 bits in the tag

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index b88d74c..04fa479 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From e97a16e99a2fc07c6da5ffc71c3f0cb373d8ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:20 +0000
Subject: [PATCH 39/54] fix: sha512: padding for messages whose last block has
 112 bytes or more

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From a55d16a23235186ea7c3a03de31aa3495132bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:28 +0000
Subject: [PATCH 40/54] fix: sha512: length of each update truncated to 32 bits

---
 src/hash/sha512.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 234328a..a1bcb05 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -172,8 +172,8 @@ void cry_sha512_update(cry_sha512_ctx *ctx, const unsigned char *data,
     left = ctx->len[0] & 0x7F;
     fill = 128 - left;
 
-    ctx->len[0] += (uint32_t)len;
-    if (ctx->len[0] < (uint32_t)len)
+    ctx->len[0] += len;
+    if (ctx->len[0] < len)
         ctx->len[1]++;
 
     if (left && len >= fill) {
-- 
2.43.0


From 43894e06b0ab832f6aa777dfa926d5f81c38d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:36 +0000
Subject: [PATCH 41/54] fix: base64: empty input underflows the length

---
 src/crypt/base64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..0fb3e1a 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,7 +7,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
-    do {
+    while (len != 0) {
         outlen += 4;
 
         i = (in[0] & 0xFC) >> 2;
@@ -36,7 +36,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 
         in += 3;
         len -= 3;
-    } while (len != 0);
+    }
     return outlen;
 }
 
@@ -66,7 +66,7 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
 
-    do {
+    while (len != 0) {
         for (i = 0; i < 4; i++) {
             /* check for illegal base64 characters */
             if (in[i] < 0 || unbase64[(int)in[i]] == 255)
@@ -91,6 +91,6 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
         in += 4;
         len -= 4;
-    } while (len != 0);
+    }
     return outlen;
 }
-- 
2.43.0


From 9741b0373eece3cf10b917965e084f3a0ecb4a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 42/54] fix: prng_lfsr113: seed longer than the state overruns
 it

---
 src/prng/prng_lfsr113.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..1ce5682 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,7 +37,7 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
     if (z[0] < 1)
-- 
2.43.0


From 8e13a159b548090c90a6af3f9e5d62214ef46be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 43/54] fix: des: size not multiple of the block never
 terminates

---
 src/crypt/des.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/des.c b/src/crypt/des.c
index 51525b9..d4dce0a 100644
--- a/src/crypt/des.c
+++ b/src/crypt/des.c
@@ -303,7 +303,7 @@ static void des_block_operate(unsigned char *dst, const unsigned char *src,
 void cry_des_encrypt(cry_des_ctx *ctx, unsigned char *dst,
                      const unsigned char *src, size_t size)
 {
-    while (size) {
+    while (size >= CRY_DES_BLOCK_SIZE) {
         des_block_operate(dst, src, ctx->key, 1);
         if (ctx->keylen == 24) {
             des_block_operate(dst, dst, ctx->key + CRY_DES_BLOCK_SIZE, 0);
@@ -318,7 +318,7 @@ void cry_des_encrypt(cry_des_ctx *ctx, unsigned char *dst,
 void cry_des_decrypt(cry_des_ctx *ctx, unsigned char *dst,
                      const unsigned char *src, size_t size)
 {
-    while (size) {
+    while (size >= CRY_DES_BLOCK_SIZE) {
         if (ctx->keylen == 24) {
             des_block_operate(dst, src, ctx->key + 2 * CRY_DES_BLOCK_SIZE, 0);
             des_block_operate(dst, dst, ctx->key + CRY_DES_BLOCK_SIZE, 1);
-- 
2.43.0


From 35f24ab3c2bb94d85247c22c054044a22f51c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:24 +0000
Subject: [PATCH 44/54] fix: hill_init: empty key

---
 src/crypt/hill.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index e4d7939..1df1d2c 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -193,6 +193,8 @@ int cry_hill_init(struct cry_hill_ctx *ctx, const unsigned char *key,
     memset(ctx, 0, sizeof(*ctx));
 
     ctx->n = keylen_trim(&keylen);
+    if (ctx->n == 0)
+        return -1;
 
     if (key != NULL)
         memcpy(ctx->key, key, keylen);
-- 
2.43.0


From 8b99c97eda3d487e7165cb110a9afc5061a4054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 45/54] fix: affine_init: empty key

---
 src/crypt/affine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/affine.c b/src/crypt/affine.c
index 29bf5bf..202b7ec 100644
--- a/src/crypt/affine.c
+++ b/src/crypt/affine.c
@@ -37,6 +37,8 @@ int cry_affine_init(struct cry_affine_ctx *ctx, const unsigned char *keya,
     int res = 0;
 
     memset(ctx, 0, sizeof(*ctx));
+    if (keylen == 0)
+        return -1;
     if (keylen > CRY_AFFINE_KEYMAX)
         keylen = CRY_AFFINE_KEYMAX;
     memcpy(ctx->keya, keya, keylen);
-- 
2.43.0


From 38de6da863f656b3042347e6cee9be70b59b0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:41 +0000
Subject: [PATCH 46/54] fix: sha1: length of each update truncated to 32 bits

---
 src/hash/sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 3242f42..97a1e36 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -183,6 +183,7 @@ void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
     ctx->len[0] += (uint32_t)len;
     if (ctx->len[0] < (uint32_t)len)
         ctx->len[1]++;
+    ctx->len[1] += (uint32_t)((uint64_t)len >> 32);
 
     if (left && len >= fill) {
         memcpy(ctx->data + left, data, fill);
-- 
2.43.0


From 12a93d8dc16f9870d46d1ccc58185445f947ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:52 +0000
Subject: [PATCH 47/54] fix: md5: length of each update truncated to 32 bits

---
 src/hash/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/md5.c b/src/hash/md5.c
index ef58777..0c7fa49 100644
--- a/src/hash/md5.c
+++ b/src/hash/md5.c
@@ -173,7 +173,7 @@ void cry_md5_update(struct cry_md5_ctx *ctx, const unsigned char *data,
     if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])
         ctx->len[1]++; /* overflow */
     ctx->len[0] += ((uint32_t)size << 3);
-    ctx->len[1] += ((uint32_t)size >> 29); /* three carry bits */
+    ctx->len[1] += (uint32_t)((uint64_t)size >> 29); /* carry bits */
 
     while (size--) {
         /* add new character to buffer, increment mdi */
-- 
2.43.0


From 7deaad97cdf44ca55ff8657c0e83ed8b2a0e6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:53 +0000
Subject: [PATCH 48/54] fix: CFB decryption feeds back the cipher text

---
 include/cry/cfb.h |  5 +++--
 src/crypt/cfb.c   | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..b73f5b3 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -75,7 +75,7 @@ void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
                     size_t size);
 
 /**
- * Encrypt/Decrypt function.
+ * Encryption function (see also cry_cfb_encrypt).
  *
  * @param ctx   CFB context.
  * @param dst   Destination pointer.
@@ -103,7 +103,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 
 /**
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index f4e9b09..7be0e71 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -59,6 +59,26 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     }
 }
 
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    size_t n;
+
+    /* The feedback is the cipher text, save it since may be overwritten */
+    for (; len != 0; len -= n) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
+        memcpy(buf, src, n);
+        cry_memxor2(dst, src, ctx->v, n);
+        memcpy(ctx->v, buf, n);
+        src += n;
+        dst += n;
+    }
+}
+
 void cry_cfb8_encrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
                       const unsigned char *src, size_t len)
 {
-- 
2.43.0


From a7547a50d999d51c0d701a7529584a7a1475fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:42 +0000
Subject: [PATCH 49/54] fix: cry_memxor2 rotates the result correctly when it
 overlaps both operands

---
 src/crypt/memxor.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..5645521 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -52,7 +52,7 @@
 void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                  const unsigned char *src2, size_t size)
 {
-    size_t i, j;
+    size_t i, j, k;
     unsigned char *tmp, t;
     size_t n = size;
 
@@ -80,14 +80,18 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
             if (j == n)
                 j = 0;
         }
-        /* Now shift the dst buffer */
+        /* Now rotate the dst buffer */
         j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
+        k = j;
+        i = 0;
+        while (i != j) {
             t = dst[j];
-            dst[j] = dst[i];
-            dst[i] = t;
-            if (j < n-1)
-                j++;
+            dst[j++] = dst[i];
+            dst[i++] = t;
+            if (j == n)
+                j = k;
+            else if (i == k)
+                k = j;
         }
     } else {
         /* Case 4 */
-- 
2.43.0


From 577949e79cd8171385582d544025cfdde735adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 50/54] fix: aes wrap: the step counter is 64 bits wide, not 8

---
 src/utils/aes_wrap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index a642cc9..9efa80e 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -17,6 +17,15 @@
 
 #define INIT_VAL    0xA6
 
+/* Xor the step counter into the 64 bit (big endian) check register */
+static void step_xor(unsigned char *a, size_t t)
+{
+    size_t k;
+
+    for (k = 8; k-- > 0 && t != 0; t >>= 8)
+        a[k] ^= (unsigned char)t;
+}
+
 int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
@@ -44,7 +53,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            step_xor(a, blks * i + j);
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -77,7 +86,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            step_xor(b, blks * i + j);
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From 9d7655d61cde7aa5de83ba617b3361f04d1e2786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:25 +0000
Subject: [PATCH 51/54] fix: aes: encryption after a decryption with the same
 context used wrong round keys

---
 src/crypt/aes.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..262f8ea 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -359,6 +359,14 @@ static void key_invert(cry_aes_ctx *ctx)
 
     for (i = 4; i < 4 * nr; i++) {
         key = ctx->keys[i];
+        if ((ctx->nr & DECRYPT_STATE) != 0) {
+            /* Back to the encryption keys (mix columns) */
+            ctx->keys[i] = ftab[0][rsbox[I0(key)]] ^
+                           ftab[1][rsbox[I1(key)]] ^
+                           ftab[2][rsbox[I2(key)]] ^
+                           ftab[3][rsbox[I3(key)]];
+            continue;
+        }
         newkey = mtab[key & 0xff];
         key >>= 8;
         tmp = mtab[key & 0xff];
-- 
2.43.0


From 4a69aa53634e50b6ec98fbc973ae71d96cc062c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 52/54] fix: LFSR113 accepted seeds that leave a component dead

The component seeds must be larger than 1, 7, 15 and 127 (as the comment says);
1, 7, 15 and 127 themselves were accepted, and such a component is zero for ever
after the first step.
---
 src/prng/prng_lfsr113.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 1ce5682..a8f9cc5 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -40,13 +40,13 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] < 2)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] < 8)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] < 16)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] < 128)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From 750f49190a251c646eb974d1404b22f8ee4c3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 53/54] fix: dsa: take the leftmost bits of the digest, as many
 as the order has

A digest longer than the order was cut to whole digits (24 bytes for a
160 bit order with 64 bit digits), so signatures depended on the digit
width and did not match FIPS 186.
---
 src/crypt/dsa.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 4655169..4b78000 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -50,6 +50,24 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+/*
+ * z = leftmost bits of the input, as many as the bits of the order n.
+ */
+static int digest_load(cry_mpi *z, const unsigned char *in, size_t len,
+                       const cry_mpi *n)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(n);
+    size_t siz = (bits + 7) / 8;
+
+    if (len > siz)
+        len = siz;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
@@ -60,9 +78,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(digest_load(&z, in, len, &ctx->q));
 
     /* k = c mod (q-1) + 1 */
     CHK(secret_gen(&k, &ctx->q));
@@ -99,9 +115,7 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(digest_load(&z, in, len, &ctx->q));
 
     /* w = inv(s) mod q */
     CHK(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0


From d1a44270fcd1b5425534df216de449a2f1e526f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 54/54] fix: ecdsa: take the leftmost bits of the digest, as
 many as the order has

A digest longer than the order was cut to whole digits (32 bytes for
secp224 with 64 bit digits), so signatures depended on the digit width
and did not match FIPS 186.
---
 src/crypt/ecdsa.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 69a8f35..98d340e 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -4,6 +4,24 @@
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+/*
+ * z = leftmost bits of the input, as many as the bits of the order n.
+ */
+static int digest_load(cry_mpi *z, const unsigned char *in, size_t len,
+                       const cry_mpi *n)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(n);
+    size_t siz = (bits + 7) / 8;
+
+    if (len > siz)
+        len = siz;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
@@ -16,9 +34,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK0(cry_ecp_init(&X));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    CHK1(digest_load(&z, in, len, &ctx->grp.n));
 
     /* This should be a random number between 0 and n-1 */
 #if 0
@@ -68,9 +84,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    CHK1(digest_load(&z, in, len, &ctx->grp.n));
 
     /* w = inv(s) mod n */
     CHK1(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0

