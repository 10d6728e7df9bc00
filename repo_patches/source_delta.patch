From 2fba2b1fff4eb5ac7020af0d4510232ad4e576bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:46 +0000
Subject: [PATCH 01/25] fix: renf_elem_fmpq_div returned the product instead of
 the quotient

---
 libeantic/src/renf_elem/fmpq_div.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..9b6449e 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -17,5 +17,5 @@ void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, cons
 {
     renf_elem_set(a, c, nf);
     renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From 0d37a0437c8997927060d4330446a1c3a3f41204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:46 +0000
Subject: [PATCH 02/25] fix: renf_elem_gen of a field of degree one returned
 the inverse of the root

---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From 387c8d3f818e24bfd195c36af1e8604f7231f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:46 +0000
Subject: [PATCH 03/25] fix: floor and ceil of zero in degree at least three
 read a stale coefficient

---
 libeantic/src/renf_elem/rounding_template.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..8585a63 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -52,6 +52,8 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
             FMPZ_DIV(a, LNF_ELEM_NUMREF(b->elem), LNF_ELEM_DENREF(b->elem));
         else if (nf->nf->flag & NF_QUADRATIC)
             FMPZ_DIV(a, QNF_ELEM_NUMREF(b->elem), QNF_ELEM_DENREF(b->elem));
+        else if (NF_ELEM(b->elem)->length == 0)
+            fmpz_zero(a);
         else
             FMPZ_DIV(a, NF_ELEM_NUMREF(b->elem), NF_ELEM_DENREF(b->elem));
         return;
-- 
2.43.0


From 4ac4ee13ac4ca12fdb502df262cfb17f2c58822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:46 +0000
Subject: [PATCH 04/25] fix: evaluation with a nonpositive precision for tiny
 generators

---
 libeantic/src/renf_elem/cmp_fmpq.c       | 4 ----
 libeantic/src/renf_elem/set_evaluation.c | 4 ++++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libeantic/src/renf_elem/cmp_fmpq.c b/libeantic/src/renf_elem/cmp_fmpq.c
index 4c8fee5..5d52480 100644
--- a/libeantic/src/renf_elem/cmp_fmpq.c
+++ b/libeantic/src/renf_elem/cmp_fmpq.c
@@ -10,8 +10,6 @@
     (at your option) any later version.  See <http://www.gnu.org/licenses/>.
 */
 
-#include <assert.h>
-
 #include "../../e-antic/config.h"
 
 #include "../../e-antic/renf_elem.h"
@@ -62,8 +60,6 @@ int renf_elem_cmp_fmpq(renf_elem_t a, const fmpq_t b, renf_t nf)
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
     prec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
 
-    assert(prec != -cond && "prec + cond == 0 which does not make sense. In mid 2020 we found this to be the case sometimes. Unfortunately, we never managed to debug this issue. The only reproducer needed several days of computation to get here. So if this happens to you, please let us know.");
-
     renf_elem_set_evaluation(a, nf, prec + cond);
 
     arb_set_fmpq(diffball, b, prec);
diff --git a/libeantic/src/renf_elem/set_evaluation.c b/libeantic/src/renf_elem/set_evaluation.c
index 64f36a6..d435582 100644
--- a/libeantic/src/renf_elem/set_evaluation.c
+++ b/libeantic/src/renf_elem/set_evaluation.c
@@ -16,6 +16,10 @@
 
 void renf_elem_set_evaluation(renf_elem_t a, const renf_t nf, slong prec)
 {
+    /* a very small generator has a negative condition number and callers pass
+     * prec + cond which must nevertheless be a valid precision */
+    prec = FLINT_MAX(prec, 2);
+
     if (nf->nf->flag & NF_LINEAR)
     {
         arb_fmpz_div_fmpz(a->emb, LNF_ELEM_NUMREF(a->elem), LNF_ELEM_DENREF(a->elem), prec);
-- 
2.43.0


From 07ce9c602f1f324835adebf05b1aac78f8f6907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 05/25] fix: renf_elem_get_arb of a rational crashed in a field
 of degree one with exact embedding

---
 libeantic/src/renf_elem/get_arb.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index f31f807..ac9ad57 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -31,7 +31,12 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
     }
 
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
-    slong pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
+    slong pprec;
+    if (nf->nf->flag & NF_LINEAR)
+        /* the enclosure of the generator is irrelevant (and possibly exact) */
+        pprec = FLINT_MAX(prec, 0) + 8;
+    else
+        pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
     do
     {
         renf_elem_set_evaluation(a, nf, pprec + cond);
-- 
2.43.0


From 683198832c5b6980526de4a0a02be0ccd07f0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 06/25] fix: renf_elem_get_d rounded rationals twice in the
 subnormal range

---
 libeantic/src/renf_elem/get_d.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_d.c b/libeantic/src/renf_elem/get_d.c
index 08d6594..3764efe 100644
--- a/libeantic/src/renf_elem/get_d.c
+++ b/libeantic/src/renf_elem/get_d.c
@@ -59,7 +59,17 @@ double renf_elem_get_d(renf_elem_t a, renf_t nf, arf_rnd_t rnd)
         arf_init(c);
 
         nf_elem_get_coeff_fmpq(b, a->elem, 0, nf->nf);
-        arf_set_fmpq(c, b, DBL_MANT_DIG, rnd);
+        if (arf_set_fmpq(c, b, DBL_MANT_DIG + 2, ARF_RND_DOWN))
+        {
+            /* Record that c was truncated by appending a bit so that the only
+             * rounding happens in arf_get_d (which has fewer than DBL_MANT_DIG
+             * bits for subnormal numbers.) */
+            arf_t eps;
+            arf_init(eps);
+            arf_set_si_2exp_si(eps, arf_sgn(c), arf_abs_bound_lt_2exp_si(c) - DBL_MANT_DIG - 3);
+            arf_add(c, c, eps, ARF_PREC_EXACT, ARF_RND_DOWN);
+            arf_clear(eps);
+        }
 
         double d = arf_get_d(c, rnd);
 
-- 
2.43.0


From 2807d79e02af50bc5e97d2a6f180a305612fae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:53 +0000
Subject: [PATCH 07/25] fix: check_unique_real_root tested a rounded interval
 instead of the ball itself

---
 .../fmpq_poly_extra/check_unique_real_root.c  | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..0a45b11 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -26,6 +26,26 @@ arb_sgn2(arb_t a)
     return 0;
 }
 
+/* sign of the polynomial at the (exact) number x */
+static int
+_fmpz_poly_sgn_at_arf(const fmpz * pol, slong len, const arf_t x, slong prec)
+{
+    arb_t b, c;
+    int s;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+    if (arb_contains_zero(c) && arf_is_finite(x))
+        _fmpz_poly_evaluate_arb(c, pol, len, b, ARF_PREC_EXACT);
+    s = arb_sgn2(c);
+    arb_clear(b);
+    arb_clear(c);
+
+    return s;
+}
+
 int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong prec)
 {
     if (pol->length < 2)
@@ -45,7 +65,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
     }
     else
     {
-        arb_t b, c;
+        arb_t b;
         arf_t l, r;
 
         fmpz * der;
@@ -57,19 +77,12 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         /*   - sign(left) * sign(right) = -1  */
         /*   - no zero of the derivative      */
         arb_init(b);
-        arb_init(c);
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
-        arb_set_arf(b, l);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        lsign = arb_sgn2(c);
-
-        arb_set_arf(b, r);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        rsign = arb_sgn2(c);
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+        lsign = _fmpz_poly_sgn_at_arf(pol->coeffs, pol->length, l, 2*prec);
+        rsign = _fmpz_poly_sgn_at_arf(pol->coeffs, pol->length, r, 2*prec);
 
-        arb_clear(c);
         if (lsign * rsign == -1)
         {
             der = _fmpz_vec_init(pol->length - 1);
-- 
2.43.0


From b41aa62c271ed22f3e7ac5e8fd84ba2958385ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 08/25] fix: memory leaks in fmpq_poly_check_unique_real_root

---
 libeantic/src/fmpq_poly_extra/check_unique_real_root.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0a45b11..217374b 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -99,7 +99,12 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
             }
         }
         else
+        {
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
             return 0;
+        }
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -121,6 +126,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpz_poly_clear(pol2);
         fmpq_clear(ql);
         fmpq_clear(qr);
+        arf_clear(l);
+        arf_clear(r);
 
         return (n == 1);
     }
-- 
2.43.0


From 5dd5dbe1685fc72c641758321729db5928c91cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 09/25] fix: renf_set_embeddings_fmpz_poly lost the root when
 the isolating interval needs more than prec bits

---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..110872b 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,7 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From f259389e17d6456c592b265e7ea250d68a8406b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 10/25] fix: overflow of the working precision when refining an
 embedding ball with midpoint zero

---
 libeantic/src/renf/refine_embedding.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index bf15abb..fe0c47b 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -17,6 +17,14 @@
 #include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/renf.h"
 
+/* number of correct bits in absolute value; a ball with midpoint zero has no meaningful one */
+static slong
+_renf_embedding_bits(const renf_t nf)
+{
+    const slong acc = FLINT_ABS(arb_rel_accuracy_bits(nf->emb));
+    return (acc >= ARF_PREC_EXACT) ? nf->prec : acc;
+}
+
 void renf_refine_embedding(renf_t nf, slong prec)
 {
     arb_t tmp;
@@ -31,7 +39,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
     cond *= nf->nf->pol->length;
     arb_init(tmp);
 
-    comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond;
+    comp_prec = 2 * _renf_embedding_bits(nf) + cond;
     while (arb_rel_accuracy_bits(nf->emb) < prec)
     {
         if(!_fmpz_poly_newton_step_arb(tmp,
@@ -56,7 +64,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
         _fmpz_poly_relative_condition_number_2exp(&cond,
                 nf->nf->pol->coeffs, nf->nf->pol->length,
                 nf->emb, 32);
-        comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond * nf->nf->pol->length;
+        comp_prec = 2 * _renf_embedding_bits(nf) + cond * nf->nf->pol->length;
     }
     arb_clear(tmp);
 
-- 
2.43.0


From 3bfd508fb75a09c34af717c220179d9a7b356aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 11/25] fix: renf_equal identified different roots when their
 embedding balls overlap

---
 libeantic/src/renf/equal.c | 43 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/equal.c b/libeantic/src/renf/equal.c
index 24edd06..f618573 100644
--- a/libeantic/src/renf/equal.c
+++ b/libeantic/src/renf/equal.c
@@ -21,5 +21,46 @@ int nf_equal(const nf_t nf1, const nf_t nf2)
 
 int renf_equal(const renf_t nf1, const renf_t nf2)
 {
-    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb);
+    renf_t a, b;
+    slong prec;
+    int ans;
+
+    if (!nf_equal(nf1->nf, nf2->nf))
+        return 0;
+
+    if (nf1->nf->flag & NF_LINEAR)
+        return 1;
+
+    if (!arb_overlaps(nf1->emb, nf2->emb))
+        return 0;
+
+    /* each embedding ball contains exactly one root */
+    if (arb_contains(nf1->emb, nf2->emb) || arb_contains(nf2->emb, nf1->emb))
+        return 1;
+
+    /* the balls overlap but the roots might differ; refine until this is decided */
+    renf_init_set(a, nf1);
+    renf_init_set(b, nf2);
+    prec = FLINT_MAX(nf1->prec, nf2->prec);
+    while (1)
+    {
+        renf_refine_embedding(a, prec);
+        renf_refine_embedding(b, prec);
+
+        if (!arb_overlaps(a->emb, b->emb))
+        {
+            ans = 0;
+            break;
+        }
+        if (arb_contains(nf1->emb, b->emb) || arb_contains(nf2->emb, a->emb))
+        {
+            ans = 1;
+            break;
+        }
+        prec *= 2;
+    }
+    renf_clear(a);
+    renf_clear(b);
+
+    return ans;
 }
-- 
2.43.0


From d0cfcd2c0fe3c798152c474a3459dbe3dcb4e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:54 +0000
Subject: [PATCH 12/25] fix: bisection of an embedding ball could leave the
 isolating ball and lose the root

---
 .../src/fmpz_poly_extra/bisection_step_arb.c  | 75 +++++++++----------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..c797d34 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -52,59 +52,56 @@ void _fmpz_poly_bisection_step_arf(arf_t l, arf_t r, const fmpz * pol, slong len
     arf_clear(m);
 }
 
+/* sign of the polynomial at the (exact) number x or 0 if undecided at that precision */
+static int _fmpz_poly_sgn_arf(const fmpz * pol, slong len, const arf_t x, slong prec)
+{
+    int s;
+    arb_t b, c;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+    s = arb_contains_zero(c) ? 0 : arf_sgn(arb_midref(c));
+    arb_clear(b);
+    arb_clear(c);
+
+    return s;
+}
+
 int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slong prec)
 {
-    int sl, sr;
-    arb_t b, c, rres;
+    int sl, sm, sr, ans;
     arf_t l, r;
 
     arf_init(l);
     arf_init(r);
-    arb_init(b);
-    arb_init(c);
-    arb_init(rres);
 
-    /* set l, r as the left and right endpoint of the ball */
-    /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
+    /* Compute the signs of pol at the two endpoints and the center of the  */
+    /* ball. Everything here is exact: the result must not be larger than   */
+    /* half of a since otherwise it could contain another root.             */
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+    sl = _fmpz_poly_sgn_arf(pol, len, l, prec);
+    sm = _fmpz_poly_sgn_arf(pol, len, arb_midref(a), prec);
+    sr = _fmpz_poly_sgn_arf(pol, len, r, prec);
 
-    arb_set_arf(b, l);
-    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
-    if (arb_contains_zero(c))
+    ans = (sl * sr == -1) && (sm != 0);
+    if (ans)
     {
-        arf_clear(l);
-        arf_clear(r);
-        arb_clear(b);
-        arb_clear(c);
-        arb_clear(rres);
-        return 0;
+        /* set res to the half of a on which pol changes sign */
+        arb_set(res, a);
+        mag_mul_2exp_si(arb_radref(res), arb_radref(a), -1);
+        arf_set_mag(l, arb_radref(res));
+        if (sm == sl)
+            arf_add(arb_midref(res), arb_midref(res), l, ARF_PREC_EXACT, ARF_RND_NEAR);
+        else
+            arf_sub(arb_midref(res), arb_midref(res), l, ARF_PREC_EXACT, ARF_RND_NEAR);
     }
-    sl = arf_sgn(arb_midref(c));
 
-    arb_set_arf(b, r);
-    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
-    if (arb_contains_zero(c))
-    {
-        arf_clear(l);
-        arf_clear(r);
-        arb_clear(b);
-        arb_clear(c);
-        arb_clear(rres);
-        return 0;
-    }
-    sr = arf_sgn(arb_midref(c));
-
-    _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
-    arb_set_interval_arf(rres, l, r, prec);
-    arb_intersection(res, rres, a, prec);
-
-    arb_clear(b);
-    arb_clear(c);
-    arb_clear(rres);
     arf_clear(l);
     arf_clear(r);
 
-    return 1;
+    return ans;
 }
 
 int fmpz_poly_bisection_step_arb(arb_t res, const fmpz_poly_t pol, arb_t a, slong prec)
-- 
2.43.0


From 9e2ccea3d79fb7af1a22311782d56e043e2e796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:00 +0000
Subject: [PATCH 13/25] fix: positive root upper bound compensated negative
 coefficients with each other

For x^4 - x^3 - x^2 - 2*x - 1 the reported power of two was smaller than the
positive root because coefficients of the wrong sign (or zero) were taken as
compensation.
---
 .../src/fmpz_poly_extra/positive_root_upper_bound_2exp.c      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..25c84ec 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,10 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only coefficients of the same sign as the leading one can */
+            /* compensate p_i                                            */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From c6d0b52421f35decf8ae065f327dee28832572c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:00 +0000
Subject: [PATCH 14/25] fix: zeros in the Sturm sequence were counted as sign
 changes

fmpz_poly_num_real_roots_0_1_sturm returned 2 for 4*x^2 - 1.
---
 libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
index 5645eaf..0197a3c 100644
--- a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
+++ b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
@@ -50,7 +50,7 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
             t++;
             s0a = s;
         }
-        else if (s != s0a)
+        else if (s != 0 && s != s0a)
         {
             t++;
             s0a = s;
@@ -61,7 +61,7 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
         s = fmpz_sgn(c);
         if (s0b == 0)
             s0b = s;
-        else if (s != s0b)
+        else if (s != 0 && s != s0b)
         {
             t--;
             s0b = s;
-- 
2.43.0


From baab342e4f4314380519d9ea6a2fdb566c9720d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:00 +0000
Subject: [PATCH 15/25] fix: fmpz_poly_set_str_pretty kept high coefficients of
 the previous value

---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..c7cce9b 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,6 +33,7 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
+    fmpz_poly_zero(p);
     for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
     {
         fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-- 
2.43.0


From 76aea9177dfbc10a21b463a0ef3cb94be1f255ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:00 +0000
Subject: [PATCH 16/25] fix: parsing of coefficients that are not in lowest
 terms

fmpq_poly_set_str_pretty("4/2*x") gave a polynomial that is not in canonical
form (so it did not compare equal to 2*x) and "1/0" was accepted.
---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..b9ef1e3 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -60,6 +60,9 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans)
             return ans;
+        if (fmpz_is_zero(fmpq_denref(coeff)))
+            return -1;
+        fmpq_canonicalise(coeff);
         x = y;
     }
     else
-- 
2.43.0


From 657d576ccd8cdeb0d6b1eb2440cee8ee3bbc8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 17/25] fix: leak of a buffer when renf_elem_class is
 constructed from invalid text

---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..dfdd0fa 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -427,6 +427,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     if (err)
     {
         fmpq_poly_clear(p);
+        flint_free(t);
         throw std::invalid_argument("renf_elem_class fmpq_poly_set_str_pretty");
     }
     renf_elem_init(a, nf->renf_t());
-- 
2.43.0


From 611c83901eb3def0a960b0bc6668c3bad424bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 18/25] fix: leak of the element when the coercion into another
 field is refused

---
 libeantic/srcxx/renf_elem_class.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index dfdd0fa..dee1e2f 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -446,7 +446,11 @@ renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & va
     else if (value.is_rational())
         renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
     else
+    {
+        // The destructor does not run for a partially constructed object.
+        renf_elem_clear(a, nf->renf_t());
         throw std::logic_error("not implemented: coercion between these number fields");
+    }
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const std::vector<int> & coefficients)
-- 
2.43.0


From b7237a685147a91d160b02d33e1d783429f43c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 19/25] fix: overflow in renf_elem_class::pow for the smallest
 int

---
 libeantic/srcxx/renf_elem_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index dee1e2f..10e7f15 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -975,7 +975,7 @@ renf_elem_class renf_elem_class::pow(int exp) const
     if (exp < 0)
     {
         renf_elem_inv(res.renf_elem_t(), renf_elem_t(), nf->renf_t());
-        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-exp), nf->renf_t());
+        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-static_cast<slong>(exp)), nf->renf_t());
     }
     else
     {
-- 
2.43.0


From 7afaa57ed0ae3f86bd96b39245986c48baed9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 20/25] fix: floordiv of irrational elements in different
 fields read one in the field of the other

---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 10e7f15..138ef21 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -953,6 +953,7 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+        throw std::logic_error("not implemented: floor division of elements from different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From 2de579edff1984642b981b2e291d919f0f770b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 21/25] fix: leak of polynomial and ball when renf_class::make
 refuses an embedding

---
 libeantic/srcxx/renf_class.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..d25dd4f 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -124,6 +124,9 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
 boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minpoly, const std::string& gen, const std::function<std::string(slong prec)> emb, slong prec) {
     while (true)
     {
+        // Might throw so we call this before allocating any memory.
+        const std::string ball = emb(prec);
+
         arb_t e;
         fmpq_poly_t p;
 
@@ -135,7 +138,7 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
         }
 
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, ball.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From c7884df284fa8d264f4d79fdef19dbb960637995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:22 +0000
Subject: [PATCH 22/25] fix: reading a number field element after white space
 gave zero

---
 libeantic/srcxx/renf_class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index d25dd4f..27c6fe9 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -252,6 +252,8 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
 
     if (is.eof()) throw std::invalid_argument("empty stream");
 
+    is >> std::ws;
+
     bool paren = is.peek() == std::char_traits<char>::to_int_type('(');
     if (paren)
     {
-- 
2.43.0


From 82eb931dcca42fbab6bd83ef081f7d295fa65069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:02 +0000
Subject: [PATCH 23/25] fix: renf_class::make refused embeddings that isolate a
 root only with more than prec bits

---
 libeantic/srcxx/renf_class.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 27c6fe9..f045995 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -113,9 +113,13 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const ::renf_t k, const
 
 boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minpoly, const std::string & gen, const std::string & emb, const slong prec)
 {
+    // The ball that is read from emb gets wider when it is rounded to prec
+    // bits, so we need to be willing to use all the digits provided.
+    const slong digits = 64 + 8 * static_cast<slong>(emb.size());
+
     return make(minpoly, gen, [&](slong p) -> std::string
     {
-        if (p != prec)
+        if (p > prec && p > 2 * digits)
             throw std::invalid_argument("the given polynomial does not have a unique such root");
         return emb;
     }, prec);
-- 
2.43.0


From 8d469baa5845ac01f49aaaedea3fb70536c512b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:38 +0000
Subject: [PATCH 24/25] fix: renf_class::construction could print a ball that
 contains several roots

---
 libeantic/srcxx/renf_class.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index f045995..0286eb6 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -12,6 +12,7 @@
 
 #include <iostream>
 #include <atomic>
+#include <cstring>
 #include <mutex>
 #include <stdexcept>
 #include <type_traits>
@@ -196,7 +197,35 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
-  char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
+  ::renf_t k;
+  renf_init_set(k, renf_t());
+
+  arb_t ball;
+  arb_init(ball);
+
+  char * emb;
+
+  while (true)
+  {
+    // Make sure that the printed ball, which is slightly larger than the
+    // actual embedding, still determines a unique root.
+    emb = arb_get_str(k->emb, arf_bits(arb_midref(k->emb)), ARB_STR_MORE);
+
+    const slong prec = 64 + 8 * static_cast<slong>(strlen(emb));
+
+    if (k->nf->flag & NF_LINEAR)
+        break;
+
+    if (!arb_set_str(ball, emb, prec) && fmpq_poly_check_unique_real_root(k->nf->pol, ball, prec))
+        break;
+
+    flint_free(emb);
+    renf_refine_embedding(k, prec);
+  }
+
+  arb_clear(ball);
+  renf_clear(k);
+
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
   const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
-- 
2.43.0


From a3080f0650e27ccdaad6424a2a04659f00e702b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:31 +0000
Subject: [PATCH 25/25] fix: relative condition number rounded a negative
 leading coefficient towards zero

ARF_RND_DOWN rounds towards zero, so that the result was not an upper bound for |a_0| + |a_1 t| + ...:
-639 x at 7/4 with precision 3 reported 2^10 < 1118.25.
---
 libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c b/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
index 3c78cf3..c8d6e40 100644
--- a/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
@@ -29,7 +29,7 @@ int _fmpz_poly_relative_condition_number_2exp(slong * cond, fmpz * p, slong len,
         arf_set_round_fmpz(res, p + len - 1, prec, ARF_RND_UP);
     else
     {
-        arf_set_round_fmpz(res, p + len - 1, prec, ARF_RND_DOWN);
+        arf_set_round_fmpz(res, p + len - 1, prec, ARF_RND_UP);
         arf_neg(res, res);
     }
     for (i = len - 2; i >= 0; i--)
-- 
2.43.0

