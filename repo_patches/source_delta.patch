From e6bb841fb9ed94771f8b37f7667ab991bbd96bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/95] fix: relation concatenation with NULL must not copy the
 whole union

osl_relation_concat_constraints and osl_relation_concat_vector are documented
to work on the first union parts only and to return a relation without a next
field, but returned a clone of the complete union when one operand was NULL.
---
 source/relation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 426343f..ccef87c 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2282,10 +2282,10 @@ osl_relation_p osl_relation_concat_constraints(const osl_relation_t* const r1,
   osl_relation_p new;
 
   if (r1 == NULL)
-    return osl_relation_clone(r2);
+    return osl_relation_nclone(r2, (r2 == NULL) ? 0 : 1);
 
   if (r2 == NULL)
-    return osl_relation_clone(r1);
+    return osl_relation_nclone(r1, 1);
 
   if (r1->nb_columns != r2->nb_columns)
     OSL_error("incompatible sizes for concatenation");
-- 
2.43.0


From f62c99b89dfca6596680a4cdaf7c549365a52811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/95] fix: free the removed part when it heads the union

osl_relation_remove_part freed the removed part except when it was the head of
the union, which leaked it (and left it linked to the remaining parts).
---
 source/relation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index ccef87c..1ffb092 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2957,7 +2957,9 @@ void osl_relation_remove_part(osl_relation_t** relation_list,
   }
 
   if (*relation_list == part) {
-    *relation_list = (*relation_list)->next;
+    *relation_list = part->next;
+    part->next = NULL;
+    osl_relation_free(part);
     return;
   }
 
-- 
2.43.0


From 21c24b2930fdb382a9623005d28693c4aae3dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 03/95] fix: initialise multiple precision integers in
 osl_int_init_set_long(_long)

---
 source/int.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/source/int.c b/source/int.c
index 24c3773..c7c0055 100644
--- a/source/int.c
+++ b/source/int.c
@@ -489,11 +489,7 @@ void osl_int_init_set_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long(const int precision, osl_int_t* const variable,
                            const long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long(precision, variable, i);
 }
 
@@ -505,11 +501,7 @@ void osl_int_init_set_long(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long_long(const int precision, osl_int_t* const variable,
                                 const long long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long_long(precision, variable, i);
 }
 
-- 
2.43.0


From 50c6fac7e427d527e79320c185458aa629516c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 04/95] fix: exact overflow detection in osl_int_add,
 osl_int_add_si and osl_int_sub

---
 source/int.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/source/int.c b/source/int.c
index c7c0055..856f5f6 100644
--- a/source/int.c
+++ b/source/int.c
@@ -754,7 +754,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LONG_MAX - val1.sp < val2.sp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.sp - LONG_MIN < -val2.sp)
+        if (val1.sp < LONG_MIN - val2.sp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -767,7 +767,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - val1.dp < val2.dp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.dp - LLONG_MIN < -val2.dp)
+        if (val1.dp < LLONG_MIN - val2.dp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -801,7 +801,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LONG_MAX - value.sp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.sp - LONG_MIN < -i)
+        if (value.sp < LONG_MIN - i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
@@ -814,7 +814,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - value.dp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.dp - LLONG_MIN < -i)
+        if (value.dp < LLONG_MIN - i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
@@ -845,16 +845,33 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_sub(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
+  switch (precision) {
+    case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if ((val2.sp < 0) ? (val1.sp > LONG_MAX + val2.sp)
+                       : (val1.sp < LONG_MIN + val2.sp))
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->sp = val1.sp - val2.sp;
+      break;
+
+    case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if ((val2.dp < 0) ? (val1.dp > LLONG_MAX + val2.dp)
+                       : (val1.dp < LLONG_MIN + val2.dp))
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->dp = val1.dp - val2.dp;
+      break;
+
 #ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    mpz_sub(*variable->mp, *val1.mp, *val2.mp);
-  } else
-#endif
-  {
-    osl_int_t mval2;
-    osl_int_init(precision, &mval2);
-    osl_int_oppose(precision, &mval2, val2);
-    osl_int_add(precision, variable, val1, mval2);
+    case OSL_PRECISION_MP:
+      mpz_sub(*variable->mp, *val1.mp, *val2.mp);
+      break;
+#endif
+
+    default:
+      OSL_error("unknown precision");
   }
 }
 
-- 
2.43.0


From cd1941913a34e367dea30084bb975b153c385354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 05/95] fix: detect multiplication overflow before it happens
 in osl_int_mul(_si)

---
 source/int.c | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/source/int.c b/source/int.c
index 856f5f6..28410af 100644
--- a/source/int.c
+++ b/source/int.c
@@ -875,6 +875,18 @@ void osl_int_sub(const int precision, osl_int_t* const variable,
   }
 }
 
+#ifndef NDEBUG
+// returns 1 if a * b is outside of [min, max] (min < 0 < max), 0 otherwise
+static int llmul_overflow(const long long int a, const long long int b,
+                          const long long int min, const long long int max) {
+  if (a == 0 || b == 0)
+    return 0;
+  if (a > 0)
+    return (b > 0) ? (a > max / b) : (b < min / a);
+  return (b > 0) ? (a < min / b) : (b < max / a);
+}
+#endif
+
 /**
  * \brief variable = val1 * val2
  * \param[in] precision Precision of the osl int
@@ -886,25 +898,19 @@ void osl_int_mul(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = val1.sp * val2.sp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->sp / val2.sp != val1.sp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflow(val1.sp, val2.sp, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->sp = val1.sp * val2.sp;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = val1.dp * val2.dp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->dp / val2.dp != val1.dp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (llmul_overflow(val1.dp, val2.dp, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->dp = val1.dp * val2.dp;
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -929,25 +935,19 @@ void osl_int_mul_si(const int precision, osl_int_t* const variable,
                     const osl_int_t value, const int i) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = value.sp * (long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->sp / (long int)i != value.sp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflow(value.sp, i, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->sp = value.sp * (long int)i;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = value.dp * (long long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->dp / (long long int)i != value.dp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (llmul_overflow(value.dp, i, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->dp = value.dp * (long long int)i;
       break;
 
 #ifdef OSL_GMP_IS_HERE
-- 
2.43.0


From 0a349565cfd077b9b5f89c2e4a365b00af1a867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 06/95] fix: overflow detection for the smallest integer in
 oppose, abs, gcd and lcm

---
 source/int.c | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/source/int.c b/source/int.c
index 28410af..80e1ef8 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1138,6 +1138,8 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
 
 // gcd (greatest common divisor) for long long int
 long long int llgcd(const long long int a, const long long int b) {
+  if (b == -1)  // a % b overflows for the smallest a
+    return 1;
   return (b ? llgcd(b, a % b) : a);
 }
 
@@ -1152,11 +1154,21 @@ void osl_int_gcd(const int precision, osl_int_t* gcd, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      gcd->sp = labs(llgcd(a.sp, b.sp));
+      gcd->sp = llgcd(a.sp, b.sp);
+#ifndef NDEBUG
+      if (gcd->sp == LONG_MIN)
+        OSL_overflow("osl_int_gcd overflow");
+#endif
+      gcd->sp = labs(gcd->sp);
       return;
 
     case OSL_PRECISION_DP:
-      gcd->dp = llabs(llgcd(a.dp, b.dp));
+      gcd->dp = llgcd(a.dp, b.dp);
+#ifndef NDEBUG
+      if (gcd->dp == LLONG_MIN)
+        OSL_overflow("osl_int_gcd overflow");
+#endif
+      gcd->dp = llabs(gcd->dp);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1183,6 +1195,11 @@ void osl_int_lcm(const int precision, osl_int_t* const lcm, const osl_int_t a,
   osl_int_t gcd;
   osl_int_t pa, pb;
 
+  if (osl_int_zero(precision, a) || osl_int_zero(precision, b)) {
+    osl_int_set_si(precision, lcm, 0);
+    return;
+  }
+
   osl_int_init(precision, &gcd);
   osl_int_init(precision, &pa);
   osl_int_init(precision, &pb);
@@ -1191,12 +1208,8 @@ void osl_int_lcm(const int precision, osl_int_t* const lcm, const osl_int_t a,
   osl_int_abs(precision, &pb, b);
 
   osl_int_gcd(precision, &gcd, pa, pb);
-  if (osl_int_zero(precision, gcd)) {
-    osl_int_set_si(precision, lcm, 0);
-  } else {
-    osl_int_div_exact(precision, &pa, pa, gcd);
-    osl_int_mul(precision, lcm, pa, pb);
-  }
+  osl_int_div_exact(precision, &pa, pa, gcd);
+  osl_int_mul(precision, lcm, pa, pb);
 
   osl_int_clear(precision, &gcd);
   osl_int_clear(precision, &pa);
@@ -1213,10 +1226,18 @@ void osl_int_oppose(const int precision, osl_int_t* const variable,
                     const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->sp = -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->dp = -value.dp;
       break;
 
@@ -1241,10 +1262,18 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
                  const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp == LONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->sp = (value.sp > 0) ? value.sp : -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp == LLONG_MIN)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->dp = (value.dp > 0) ? value.dp : -value.dp;
       break;
 
-- 
2.43.0


From c152e36ac57d818ab3dceb411bab642c1c17c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 07/95] fix: overflows in the division, remainder and
 divisibility of fixed precision integers

---
 source/int.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/source/int.c b/source/int.c
index 80e1ef8..d146b0c 100644
--- a/source/int.c
+++ b/source/int.c
@@ -973,10 +973,18 @@ void osl_int_div_exact(const int precision, osl_int_t* const q,
                        const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->sp = a.sp / b.sp;
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->dp = a.dp / b.dp;
       return;
 
@@ -1002,6 +1010,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp == LONG_MIN && b.sp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->sp = a.sp / b.sp;
       if (q->sp < 0) {
         if (a.sp % b.sp != 0)
@@ -1015,6 +1027,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp == LLONG_MIN && b.dp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->dp = a.dp / b.dp;
       if (q->dp < 0) {
         if (a.dp % b.dp != 0)
@@ -1049,13 +1065,15 @@ void osl_int_floor_div_r(const int precision, osl_int_t* const r,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      osl_int_floor_div_q(precision, r, a, b);
-      r->sp = a.sp - r->sp * b.sp;
+      r->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
+      if (r->sp != 0 && (r->sp < 0) != (b.sp < 0))
+        r->sp += b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      osl_int_floor_div_q(precision, r, a, b);
-      r->dp = a.dp - r->dp * b.dp;
+      r->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
+      if (r->dp != 0 && (r->dp < 0) != (b.dp < 0))
+        r->dp += b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1083,12 +1101,12 @@ void osl_int_floor_div_q_r(const int precision, osl_int_t* const q,
   switch (precision) {
     case OSL_PRECISION_SP:
       osl_int_floor_div_q(precision, q, a, b);
-      r->sp = a.sp - q->sp * b.sp;
+      osl_int_floor_div_r(precision, r, a, b);
       return;
 
     case OSL_PRECISION_DP:
       osl_int_floor_div_q(precision, q, a, b);
-      r->dp = a.dp - q->dp * b.dp;
+      osl_int_floor_div_r(precision, r, a, b);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1114,15 +1132,15 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      mod->sp = a.sp % b.sp;
+      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
       if (mod->sp < 0)
-        mod->sp += labs(b.sp);
+        mod->sp = (b.sp < 0) ? mod->sp - b.sp : mod->sp + b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      mod->dp = a.dp % b.dp;
+      mod->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
       if (mod->dp < 0)
-        mod->dp += llabs(b.dp);
+        mod->dp = (b.dp < 0) ? mod->dp - b.dp : mod->dp + b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1634,10 +1652,10 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
                       const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      return ((val1.sp % val2.sp) == 0);
+      return (val2.sp == -1 || (val1.sp % val2.sp) == 0);
 
     case OSL_PRECISION_DP:
-      return ((val1.dp % val2.dp) == 0);
+      return (val2.dp == -1 || (val1.dp % val2.dp) == 0);
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP:
-- 
2.43.0


From e090321275309ea48dd027c7f4d78a6272189379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 08/95] fix: size of the smallest integer in base 2 and 10

---
 source/int.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/int.c b/source/int.c
index d146b0c..7b55b36 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1309,11 +1309,13 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
 // log2 function for long long int
 size_t lllog2(long long int x) {
   size_t n = 0;
+  unsigned long long int u = x;
 
-  x = llabs(x);
+  if (x < 0)
+    u = -u;
 
-  while (x) {
-    x >>= 1;
+  while (u) {
+    u >>= 1;
     ++n;
   }
 
@@ -1347,11 +1349,13 @@ size_t osl_int_size_in_base_2(const int precision, const osl_int_t value) {
 // log10 function for long long int
 size_t lllog10(long long int x) {
   size_t n = 0;
+  unsigned long long int u = x;
 
-  x = llabs(x);
+  if (x < 0)
+    u = -u;
 
-  while (x) {
-    x /= 10;
+  while (u) {
+    u /= 10;
     ++n;
   }
 
-- 
2.43.0


From 8f9853b3830325000aca2284f6b36c5bc2df1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 09/95] fix: osl_int_sscanf must report overflows and the
 number of characters read

---
 source/int.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/int.c b/source/int.c
index 7b55b36..9107bb5 100644
--- a/source/int.c
+++ b/source/int.c
@@ -58,6 +58,7 @@
  *                                                                            *
  ******************************************************************************/
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -673,19 +674,29 @@ void osl_int_sprint_txt(char* const string, const int precision,
 int osl_int_sscanf(const char* const string, const int precision,
                    osl_int_t* const i) {
   int nb_read = 0;
+  char* end;
 
   switch (precision) {
     case OSL_PRECISION_SP:
-      nb_read = sscanf(string, OSL_FMT_TXT_SP, &(i->sp));
+      errno = 0;
+      i->sp = strtol(string, &end, 10);
+      if (errno == ERANGE)
+        OSL_overflow("osl_int_sscanf overflow");
+      nb_read = end - string;
       break;
 
     case OSL_PRECISION_DP:
-      nb_read = sscanf(string, OSL_FMT_TXT_DP, &(i->dp));
+      errno = 0;
+      i->dp = strtoll(string, &end, 10);
+      if (errno == ERANGE)
+        OSL_overflow("osl_int_sscanf overflow");
+      nb_read = end - string;
       break;
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP: {
-      nb_read = gmp_sscanf(string, "%lZd", i->mp);
+      if (gmp_sscanf(string, "%Zd%n", *i->mp, &nb_read) != 1)
+        nb_read = 0;
       break;
     }
 #endif
-- 
2.43.0


From 32b8d901b1cd7ff1783a09f5e3282c8de893b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 10/95] fix: precision conversion must not fail on values that
 fit the target

---
 source/int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/int.c b/source/int.c
index 9107bb5..08d7881 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1695,8 +1695,8 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
 void osl_int_set_precision(const int precision, const int new_precision,
                            osl_int_t* const i) {
   if (i != NULL && precision != new_precision) {
-    int v = osl_int_get_si(precision, *i);  // TODO Fix to avoid overflow
+    long long int v = osl_int_get_long_long(precision, *i);
     osl_int_clear(precision, i);
-    osl_int_init_set_si(new_precision, i, v);
+    osl_int_init_set_long_long(new_precision, i, v);
   }
 }
-- 
2.43.0


From 87095d170127308d58565fe043398ec57bead66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 11/95] fix: do not split long lines when reading a file

---
 include/osl/util.h |  1 +
 source/util.c      | 55 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/include/osl/util.h b/include/osl/util.h
index 1668635..2dff31a 100644
--- a/include/osl/util.h
+++ b/include/osl/util.h
@@ -71,6 +71,7 @@ extern "C" {
  *                            Utility functions                               *
  ******************************************************************************/
 char* osl_util_skip_blank_and_comments(FILE*, char*);
+char* osl_util_read_data_line(FILE*, char**);
 void osl_util_sskip_blank_and_comments(char**);
 int osl_util_read_int(FILE*, char**);
 char* osl_util_read_string(FILE*, char**);
diff --git a/source/util.c b/source/util.c
index 9e08028..b37b311 100644
--- a/source/util.c
+++ b/source/util.c
@@ -85,13 +85,62 @@
  * \return The address of the first useful digit in str.
  */
 char* osl_util_skip_blank_and_comments(FILE* file, char* str) {
+  char *start, *line;
+  size_t offset, length;
+
+  if ((start = osl_util_read_data_line(file, &line)) == NULL)
+    return NULL;
+
+  // Long lines are only acceptable because of a comment.
+  length = strlen(line);
+  if (length >= OSL_MAX_STRING)
+    length = strcspn(line, "#");
+  if (length >= OSL_MAX_STRING)
+    OSL_error("line too long");
+
+  offset = start - line;
+  strncpy(str, line, length);
+  str[length] = '\0';
+  free(line);
+
+  return str + offset;
+}
+
+/**
+ * osl_util_read_data_line function:
+ * this function reads the open file 'file' line by line and skips
+ * blank/comment lines and spaces, just like osl_util_skip_blank_and_comments,
+ * but there is no limit on the length of the line. The first line with some
+ * useful information is stored in a freshly allocated string which address is
+ * stored in 'line' (NULL if the end of file is reached).
+ * \param[in]  file The (opened) file to read.
+ * \param[out] line Address of the line (to be freed by the caller).
+ * \return The address of the first useful digit in *line or NULL.
+ */
+char* osl_util_read_data_line(FILE* file, char** line) {
+  char buffer[OSL_MAX_STRING];
   char* start;
+  size_t high_water_mark = OSL_MAX_STRING;
 
+  OSL_malloc(*line, char*, high_water_mark * sizeof(char));
   do {
-    start = fgets(str, OSL_MAX_STRING, file);
-    while ((start != NULL) && isspace(*start) && (*start != '\n'))
+    (*line)[0] = '\0';
+    while (fgets(buffer, OSL_MAX_STRING, file) != NULL) {
+      osl_util_safe_strcat(line, buffer, &high_water_mark);
+      if (buffer[strlen(buffer) - 1] == '\n')
+        break;
+    }
+
+    if ((*line)[0] == '\0') {
+      free(*line);
+      *line = NULL;
+      return NULL;
+    }
+
+    start = *line;
+    while (isspace(*start) && (*start != '\n'))
       start++;
-  } while (start != NULL && (*start == '#' || *start == '\n'));
+  } while (*start == '#' || *start == '\n' || *start == '\0');
 
   return start;
 }
-- 
2.43.0


From f80264c0e591bc63bc6feb52439b4eb0135f4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 12/95] fix: report the end of file instead of dereferencing
 NULL when reading items

---
 source/util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/util.c b/source/util.c
index b37b311..554f706 100644
--- a/source/util.c
+++ b/source/util.c
@@ -189,7 +189,7 @@ int osl_util_read_int(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %d", &res) != 1)
+    if (start == NULL || sscanf(start, " %d", &res) != 1)
       OSL_error("an int was expected");
   } else {
     // Parse from a string.
@@ -229,7 +229,7 @@ char* osl_util_read_string(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %s", res) != 1)
+    if (start == NULL || sscanf(start, " %s", res) != 1)
       OSL_error("a string was expected");
   } else {
     // Parse from a string.
@@ -272,6 +272,8 @@ char* osl_util_read_line(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
+    if (start == NULL)
+      OSL_error("a line was expected");
     while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
       res[i++] = *start++;
   } else {
@@ -317,7 +319,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
   }
 
   // If the end of the input has been reached, return NULL.
-  if (((file != NULL) && (feof(file))) || ((str != NULL) && (**str == '\0')))
+  if ((*str == NULL) || (**str == '\0'))
     return NULL;
 
   // Pass the starting '<'.
-- 
2.43.0


From fde0e077be4e69a233f3e41dcc5a34d6c9b67909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 13/95] fix: no buffer overrun nor truncation when reading
 ints, strings, lines and tags

---
 source/util.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/source/util.c b/source/util.c
index 554f706..884c535 100644
--- a/source/util.c
+++ b/source/util.c
@@ -197,8 +197,11 @@ int osl_util_read_int(FILE* file, char** str) {
     osl_util_sskip_blank_and_comments(str);
 
     // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
+    while (**str && !isspace(**str) && **str != '\n' && **str != '#') {
+      if (i >= OSL_MAX_STRING - 1)
+        OSL_error("integer too long");
       s[i++] = *((*str)++);
+    }
     s[i] = '\0';
     if (sscanf(s, "%d", &res) != 1)
       OSL_error("an int was expected");
@@ -220,13 +223,13 @@ int osl_util_read_int(FILE* file, char** str) {
 char* osl_util_read_string(FILE* file, char** str) {
   char s[OSL_MAX_STRING], *start;
   char* res;
-  int i = 0;
+  size_t length = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
   if (file != NULL) {
+    OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
     if (start == NULL || sscanf(start, " %s", res) != 1)
@@ -237,11 +240,14 @@ char* osl_util_read_string(FILE* file, char** str) {
     osl_util_sskip_blank_and_comments(str);
 
     // Build the chain to analyze.
+    start = *str;
     while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%s", res) != 1)
+      (*str)++;
+    if ((length = *str - start) == 0)
       OSL_error("a string was expected");
+    OSL_malloc(res, char*, length + 1);
+    strncpy(res, start, length);
+    res[length] = '\0';
   }
 
   OSL_realloc(res, char*, strlen(res) + 1);
@@ -263,28 +269,28 @@ char* osl_util_read_string(FILE* file, char** str) {
 char* osl_util_read_line(FILE* file, char** str) {
   char s[OSL_MAX_STRING], *start;
   char* res;
-  int i = 0;
+  size_t length;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
 
-  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
     if (start == NULL)
       OSL_error("a line was expected");
-    while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
-      res[i++] = *start++;
+    length = strcspn(start, "\n#");
   } else {
     // Parse from a string.
     osl_util_sskip_blank_and_comments(str);
-    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING)
-      res[i++] = *((*str)++);
+    start = *str;
+    length = strcspn(start, "\n#");
+    *str += length;
   }
 
-  res[i] = '\0';
-  OSL_realloc(res, char*, strlen(res) + 1);
+  OSL_malloc(res, char*, length + 1);
+  strncpy(res, start, length);
+  res[length] = '\0';
   return res;
 }
 
@@ -329,12 +335,14 @@ char* osl_util_read_tag(FILE* file, char** str) {
 
   // Read the tag.
   OSL_malloc(res, char*, (OSL_MAX_STRING + 1) * sizeof(char));
-  res[OSL_MAX_STRING] = '\0';
+  res[0] = '\0';
 
   while (**str && **str != '>') {
     if (((**str >= 'A') && (**str <= 'Z')) ||
         ((**str >= 'a') && (**str <= 'z')) || ((**str == '/') && (i == 0)) ||
         (**str == '_')) {
+      if (i >= OSL_MAX_STRING)
+        OSL_error("tag name too long");
       res[i++] = *((*str)++);
       res[i] = '\0';
     } else {
-- 
2.43.0


From 275466c2f510752ea15b342e36808785573f2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 14/95] fix: osl_util_tag_content must return the whole content

---
 source/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index 884c535..ff7140d 100644
--- a/source/util.c
+++ b/source/util.c
@@ -497,7 +497,7 @@ char* osl_util_tag_content(const char* str, const char* name) {
     OSL_malloc(res, char*, (size + 1) * sizeof(char));
 
     // Copy the chain between the two tags.
-    for (++start, i = 0; start != stop; ++start, ++i)
+    for (i = 0; start != stop; ++start, ++i)
       res[i] = *start;
     res[i] = '\0';
   }
-- 
2.43.0


From 11056d222768ab26efd9c98098ad8e8a61f7afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 15/95] fix: osl_strings_sread must accept any white space and
 any length of strings

---
 source/strings.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 6885b3a..bbc650a 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -183,7 +183,6 @@ void osl_strings_print(FILE* const file, const osl_strings_t* const strings) {
  * \return A pointer to the strings structure that has been read.
  */
 osl_strings_t* osl_strings_sread(char** const input) {
-  char tmp[OSL_MAX_STRING];
   char* s;
   char** string = NULL;
   size_t i, nb_strings;
@@ -203,10 +202,11 @@ osl_strings_t* osl_strings_sread(char** const input) {
     if (count != 0)
       nb_strings++;
 
+    while (isspace(*s) && *s != '\n')
+      s++;
+
     if ((!*s) || (*s == '#') || (*s == '\n'))
       break;
-    else
-      s++;
   }
 
   if (nb_strings > 0) {
@@ -217,13 +217,18 @@ osl_strings_t* osl_strings_sread(char** const input) {
     // Read the desired number of strings.
     s = *input;
     for (i = 0; i < nb_strings; i++) {
+      while (isspace(*s))
+        s++;
       for (count = 0; *s && !isspace(*s) && *s != '#'; count++)
-        tmp[count] = *(s++);
-      tmp[count] = '\0';
-      OSL_strdup(string[i], tmp);
-      if (*s != '#')
         s++;
+      OSL_malloc(string[i], char*, count + 1);
+      strncpy(string[i], s - count, count);
+      string[i][count] = '\0';
     }
+    while (isspace(*s) && *s != '\n')
+      s++;
+    if (*s == '\n')
+      s++;
 
     // Update the input pointer to the end of the strings structure.
     *input = s;
-- 
2.43.0


From 5455324b65eadb00465694f78c4a97cb0d1a1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 16/95] fix: strings of any length in osl_strings_sprint and
 osl_strings_read

---
 source/strings.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index bbc650a..9c7f152 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -134,8 +134,7 @@ char* osl_strings_sprint(const osl_strings_t* strings) {
 
   if (strings != NULL) {
     for (i = 0; i < osl_strings_size(strings); i++) {
-      sprintf(buffer, "%s", strings->string[i]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, strings->string[i], &high_water_mark);
       if (i < osl_strings_size(strings) - 1)
         osl_util_safe_strcat(&string, " ", &high_water_mark);
     }
@@ -252,11 +251,14 @@ osl_strings_t* osl_strings_sread(char** const input) {
  * \return The strings structure that has been read.
  */
 osl_strings_t* osl_strings_read(FILE* const file) {
-  char buffer[OSL_MAX_STRING], *start;
+  char *buffer, *start;
   osl_strings_p strings;
 
-  start = osl_util_skip_blank_and_comments(file, buffer);
+  start = osl_util_read_data_line(file, &buffer);
+  if (start == NULL)
+    return NULL;
   strings = osl_strings_sread(&start);
+  free(buffer);
 
   return strings;
 }
-- 
2.43.0


From 3d1fb07ee948ebd223459230fcf8d9d4fa54303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 17/95] fix: osl_strings_generate must build a proper empty
 list when there is no string

---
 source/strings.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 9c7f152..50dc46c 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -462,12 +462,13 @@ osl_interface_t* osl_strings_interface(void) {
  * \return A new strings structure containing generated strings.
  */
 osl_strings_t* osl_strings_generate(const char* prefix, int nb_strings) {
-  char** strings = NULL;
+  char** strings;
   char buff[strlen(prefix) + 16];  // TODO: better (log10(INT_MAX) ?) :-D.
   int i;
   osl_strings_p generated;
 
-  if (nb_strings) {
+  generated = osl_strings_malloc();
+  if (nb_strings > 0) {
     OSL_malloc(strings, char**, sizeof(char*) * (size_t)(nb_strings + 1));
     strings[nb_strings] = NULL;
     for (i = 0; i < nb_strings; i++) {
@@ -476,11 +477,10 @@ osl_strings_t* osl_strings_generate(const char* prefix, int nb_strings) {
       if (strings[i] == NULL)
         OSL_error("memory overflow");
     }
+    free(generated->string);
+    generated->string = strings;
   }
 
-  generated = osl_strings_malloc();
-  free(generated->string);
-  generated->string = strings;
   return generated;
 }
 
-- 
2.43.0


From 4c644e5a2dbe2fb26ba981c0b32f68671facdb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 18/95] fix: check the memory allocation in osl_strings_add

---
 source/strings.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 50dc46c..46e943c 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -365,8 +365,7 @@ void osl_strings_add(osl_strings_t* const strings, char const* const string) {
   size_t original_size = osl_strings_size(strings);
   OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));
   strings->string[original_size + 1] = NULL;
-  strings->string[original_size] = malloc(sizeof(char) * (strlen(string) + 1));
-  strcpy(strings->string[original_size], string);
+  OSL_strdup(strings->string[original_size], string);
 }
 
 /**
-- 
2.43.0


From acb80af3e505127c72c5af271cd0d6f87f6aa7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 19/95] fix: set the type of all the union parts when reading a
 relation from a string

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 1ffb092..931c739 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1428,7 +1428,7 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
 
   type = osl_relation_read_type(NULL, input);
   relation = osl_relation_psread_polylib(input, precision);
-  relation->type = type;
+  osl_relation_set_type(relation, type);
 
   return relation;
 }
-- 
2.43.0


From 841966e0a7330a56798aebeab4e50e097d5e0d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 20/95] fix: no buffer overrun nor truncation when printing
 relations with many columns or long names

---
 source/relation.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 931c739..22ca58c 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -602,7 +602,9 @@ char* osl_relation_column_string(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  // Each column takes OSL_FMT_LENGTH characters and a separator.
+  OSL_malloc(scolumn, char*,
+             ((size_t)relation->nb_columns + 2) * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -676,7 +678,9 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   char* scolumn;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  // Each column takes OSL_FMT_LENGTH characters and a separator.
+  OSL_malloc(scolumn, char*,
+             ((size_t)relation->nb_columns + 2) * (OSL_FMT_LENGTH + 1));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -835,8 +839,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     if (relation->nb_rows > 0) {
       scolumn = osl_relation_column_string(relation, name_array);
-      snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
     }
 
@@ -996,8 +999,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Print column names in comment
       if (relation->nb_rows > 0) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
-        snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
       }
 
-- 
2.43.0


From 4f20c0f4ddea27fbfe248384b4f9d3307bcc5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 21/95] fix: read relation rows of any length, without stale or
 overrun elements

---
 source/relation.c | 66 ++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 22ca58c..595952e 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1324,6 +1324,30 @@ return_type:
   return type;
 }
 
+/**
+ * osl_relation_sread_row internal function:
+ * this function reads the elements of one row of a relation from a string.
+ * \param[in,out] input    The input string, updated to the position after the
+ *                         last element of the row.
+ * \param[in,out] relation The relation where to store the elements.
+ * \param[in]     row      The row to read.
+ */
+static void osl_relation_sread_row(char** input, osl_relation_t* relation,
+                                   int row) {
+  int j;
+
+  for (j = 0; j < relation->nb_columns; j++) {
+    while (isspace(**input) && **input != '\n')
+      (*input)++;
+    if (**input == '\0' || **input == '#' || **input == '\n')
+      OSL_error("not enough columns");
+
+    osl_int_sread(input, relation->precision, &relation->m[row][j]);
+    if (**input != '\0' && **input != '#' && !isspace(**input))
+      OSL_error("an integer was expected");
+  }
+}
+
 /**
  * osl_relation_pread function ("precision read"):
  * this function reads a relation into a file (foo, posibly stdin) and
@@ -1333,7 +1357,7 @@ return_type:
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
-  int i, j, k, n, read = 0;
+  int i, k, read = 0;
   int nb_rows, nb_columns;
   int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
   int nb_union_parts = 1;
@@ -1341,7 +1365,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
   int read_attributes = 1;
   int first = 1;
   int type;
-  char *c, s[OSL_MAX_STRING], str[OSL_MAX_STRING], *tmp;
+  char *c, s[OSL_MAX_STRING], *line;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   type = osl_relation_read_type(foo, NULL);
@@ -1354,6 +1378,8 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
       // Read relation attributes.
       c = osl_util_skip_blank_and_comments(foo, s);
+      if (c == NULL)
+        OSL_error("no relation properties");
       read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
@@ -1385,21 +1411,12 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
     // Read the matrix of constraints.
     for (i = 0; i < relation->nb_rows; i++) {
-      c = osl_util_skip_blank_and_comments(foo, s);
+      c = osl_util_read_data_line(foo, &line);
       if (c == NULL)
         OSL_error("not enough rows");
 
-      for (j = 0; j < relation->nb_columns; j++) {
-        if (c == NULL || *c == '#' || *c == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        c += n;
-      }
+      osl_relation_sread_row(&c, relation, i);
+      free(line);
     }
 
     // Build the linked list of union parts.
@@ -1447,7 +1464,7 @@ osl_relation_t* osl_relation_psread(char** input, int precision) {
  * \return A pointer to the relation structure that has been read.
  */
 osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
-  int i, j, k, n, read = 0;
+  int i, k, read = 0;
   int nb_rows, nb_columns;
   int nb_output_dims, nb_input_dims, nb_local_dims, nb_parameters;
   int nb_union_parts = 1;
@@ -1471,8 +1488,10 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
         tmp++;
         row_size += 1;
       }
+      if (row_size >= OSL_MAX_STRING)
+        row_size = OSL_MAX_STRING - 1;
       strncpy(str, *input, sizeof(char) * row_size);
-      str[(tmp - *input)] = '\0';
+      str[row_size] = '\0';
 
       read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
@@ -1506,20 +1525,7 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
     // Read the matrix of constraints.
     for (i = 0; i < relation->nb_rows; i++) {
       osl_util_sskip_blank_and_comments(input);
-      if (!(*input))
-        OSL_error("not enough rows");
-
-      for (j = 0; j < relation->nb_columns; j++) {
-        if (*input == NULL || **input == '#' || **input == '\n')
-          OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) == 0)
-          OSL_error("not enough rows");
-
-        // TODO: remove this tmp (sread updates the pointer).
-        tmp = str;
-        osl_int_sread(&tmp, precision, &relation->m[i][j]);
-        *input += n;
-      }
+      osl_relation_sread_row(input, relation, i);
     }
 
     // Build the linked list of union parts.
-- 
2.43.0


From cd770b312ebb11c44f20f0623816c25529f2b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 22/95] fix: error instead of a buffer overrun when printing
 very long integers

---
 source/int.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/int.c b/source/int.c
index 08d7881..5bcc787 100644
--- a/source/int.c
+++ b/source/int.c
@@ -62,6 +62,7 @@
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef OSL_GMP_IS_HERE
 #include <gmp.h>
@@ -621,6 +622,8 @@ void osl_int_sprint(char* const string, const int precision,
     case OSL_PRECISION_MP: {
       char* str;
       str = mpz_get_str(0, 10, *value.mp);  // TODO: 10 -> #define
+      if (strlen(str) >= OSL_MAX_STRING)
+        OSL_error("integer too long to be printed");
       sprintf(string, OSL_FMT_MP, str);
       free(str);
       break;
@@ -653,6 +656,8 @@ void osl_int_sprint_txt(char* const string, const int precision,
     case OSL_PRECISION_MP: {
       char* str;
       str = mpz_get_str(0, 10, *value.mp);  // TODO: 10 -> #define
+      if (strlen(str) >= OSL_MAX_STRING)
+        OSL_error("integer too long to be printed");
       sprintf(string, OSL_FMT_TXT_MP, str);
       free(str);
       break;
-- 
2.43.0


From 7596d15f6a4ae0e84dc3c22bca79e730d07796db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 23/95] fix: a too large array identifier is an invalid one,
 not a fatal error

---
 source/relation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/relation.c b/source/relation.c
index 595952e..ae97986 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2683,6 +2683,12 @@ int osl_relation_get_array_id(const osl_relation_t* relation) {
       OSL_warning("rational array identifier");
       return OSL_UNDEFINED;
     }
+    if (osl_int_size_in_base_2(
+            precision, relation->m[row_id][relation->nb_columns - 1]) > 31 ||
+        osl_int_size_in_base_2(precision, relation->m[row_id][1]) > 31) {
+      OSL_warning("too large array identifier");
+      return OSL_UNDEFINED;
+    }
     array_id = -osl_int_get_si(precision,
                                relation->m[row_id][relation->nb_columns - 1]);
     array_id /= osl_int_get_si(precision, relation->m[row_id][1]);
-- 
2.43.0


From 374508a59242532fa8cdb9e4ae6f9d01906bf41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 24/95] fix: no buffer overrun nor truncation when printing
 expressions with long names

---
 source/relation.c | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index ae97986..6173a33 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -272,13 +272,12 @@ void osl_relation_dump(FILE* const file, const osl_relation_t* const relation) {
 char* osl_relation_expression_element(const osl_int_t val, int precision,
                                       int* const first, int cst,
                                       const char* const name) {
-  char *temp, *body, *sval;
+  char *temp, *sval;
+  size_t size = OSL_MAX_STRING + strlen(name) + 3;
 
-  OSL_malloc(temp, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(body, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(sval, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(temp, char*, size * sizeof(char));
+  OSL_malloc(sval, char*, size * sizeof(char));
 
-  body[0] = '\0';
   sval[0] = '\0';
 
   // statements for the 'normal' processing.
@@ -324,7 +323,6 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
     }
   }
   free(temp);
-  free(body);
 
   return (sval);
 }
@@ -418,8 +416,9 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
   int i, first = 1, constant;
   char* sval;
   char* sline;
+  size_t high_water_mark = OSL_MAX_STRING;
 
-  OSL_malloc(sline, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sline, char*, high_water_mark * sizeof(char));
   sline[0] = '\0';
 
   // Create the expression. The constant is a special case.
@@ -441,7 +440,7 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
       osl_int_oppose(relation->precision, &relation->m[row][i],
                      relation->m[row][i]);
     }
-    strcat(sline, sval);
+    osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
 
@@ -530,7 +529,6 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
   char* expression;
-  char buffer[OSL_MAX_STRING];
 
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
@@ -545,8 +543,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
 
     expression = osl_relation_subexpression(
         relation, row, 1, relation->nb_output_dims, sign < 0, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
@@ -555,27 +553,27 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
-      snprintf(buffer, OSL_MAX_STRING, " == %s", expression);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string, expression, &high_water_mark);
       free(expression);
     } else {
-      snprintf(buffer, OSL_MAX_STRING, " == %s",
-               arrays[osl_relation_get_array_id(relation) - 1]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string,
+                           arrays[osl_relation_get_array_id(relation) - 1],
+                           &high_water_mark);
     }
   } else {
     // Second case : general case.
 
     expression = osl_relation_expression(relation, row, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     if (osl_int_zero(relation->precision, relation->m[row][0]))
-      snprintf(buffer, OSL_MAX_STRING, " == 0");
+      osl_util_safe_strcat(&string, " == 0", &high_water_mark);
     else
-      snprintf(buffer, OSL_MAX_STRING, " >= 0");
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " >= 0", &high_water_mark);
   }
 
   return string;
-- 
2.43.0


From 30ef72f2eed32a991f3081f2290b5d2a6c16f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 25/95] fix: print the expression when an access has no named
 array instead of reading out of bounds

---
 source/relation.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 6173a33..fe26bc1 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -525,7 +525,7 @@ int osl_relation_is_simple_output(const osl_relation_t* relation, int row) {
  */
 char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
                                   char** strings, char** arrays) {
-  int sign;
+  int i, sign, array_id;
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
   char* expression;
@@ -548,8 +548,18 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
-    if (!osl_relation_is_access(relation) ||
-        osl_int_zero(relation->precision, relation->m[row][1])) {
+    array_id = 0;
+    if (osl_relation_is_access(relation) &&
+        !osl_int_zero(relation->precision, relation->m[row][1])) {
+      array_id = osl_relation_get_array_id(relation);
+      // Check there is a name for this identifier.
+      for (i = 0; i < array_id; i++) {
+        if (arrays == NULL || arrays[i] == NULL)
+          array_id = 0;
+      }
+    }
+
+    if (array_id <= 0) {
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
@@ -558,9 +568,7 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       free(expression);
     } else {
       osl_util_safe_strcat(&string, " == ", &high_water_mark);
-      osl_util_safe_strcat(&string,
-                           arrays[osl_relation_get_array_id(relation) - 1],
-                           &high_water_mark);
+      osl_util_safe_strcat(&string, arrays[array_id - 1], &high_water_mark);
     }
   } else {
     // Second case : general case.
-- 
2.43.0


From fc35c2b5091ca59f383d14161ad139ec495c4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 26/95] fix: no invalid memory access when printing relations
 with missing names or inconsistent attributes

---
 source/relation.c | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index fe26bc1..741a3d8 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -327,6 +327,21 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
   return (sval);
 }
 
+/**
+ * osl_relation_dim_name internal function:
+ * this function returns a copy of the name of a dimension, or "?" if there
+ * is no such name.
+ * \param[in] names The list of names.
+ * \param[in] index The rank of the dimension in the list (starting from 0).
+ * \return The name of the dimension.
+ */
+static char* osl_relation_dim_name(const osl_strings_t* names, int index) {
+  if ((size_t)index >= osl_strings_size(names))
+    return osl_util_strdup("?");
+
+  return osl_util_strdup(names->string[index]);
+}
+
 /**
  * osl_relation_strings function:
  * this function creates a NULL-terminated array of strings from an
@@ -347,6 +362,15 @@ char** osl_relation_strings(const osl_relation_t* relation,
     return NULL;
   }
 
+  if (relation->nb_output_dims < 0 || relation->nb_input_dims < 0 ||
+      relation->nb_local_dims < 0 || relation->nb_parameters < 0 ||
+      relation->nb_columns !=
+          relation->nb_output_dims + relation->nb_input_dims +
+              relation->nb_local_dims + relation->nb_parameters + 2) {
+    OSL_debug("the attributes do not match the number of columns");
+    return NULL;
+  }
+
   OSL_malloc(strings, char**,
              ((size_t)relation->nb_columns + 1) * sizeof(char*));
   strings[relation->nb_columns] = NULL;
@@ -358,7 +382,8 @@ char** osl_relation_strings(const osl_relation_t* relation,
   // 2. Output dimensions.
   if (osl_relation_is_access(relation)) {
     // The first output dimension is the array name.
-    OSL_strdup(strings[offset], "Arr");
+    if (relation->nb_output_dims > 0)
+      OSL_strdup(strings[offset], "Arr");
     // The other ones are the array dimensions [1]...[n]
     for (i = offset + 1; i < relation->nb_output_dims + offset; i++) {
       sprintf(temp, "[%d]", i - 1);
@@ -367,28 +392,28 @@ char** osl_relation_strings(const osl_relation_t* relation,
   } else if ((relation->type == OSL_TYPE_DOMAIN) ||
              (relation->type == OSL_TYPE_CONTEXT)) {
     for (i = offset; i < relation->nb_output_dims + offset; i++) {
-      OSL_strdup(strings[i], names->iterators->string[i - offset]);
+      strings[i] = osl_relation_dim_name(names->iterators, i - offset);
     }
   } else {
     for (i = offset; i < relation->nb_output_dims + offset; i++) {
-      OSL_strdup(strings[i], names->scatt_dims->string[i - offset]);
+      strings[i] = osl_relation_dim_name(names->scatt_dims, i - offset);
     }
   }
   offset += relation->nb_output_dims;
 
   // 3. Input dimensions.
   for (i = offset; i < relation->nb_input_dims + offset; i++)
-    OSL_strdup(strings[i], names->iterators->string[i - offset]);
+    strings[i] = osl_relation_dim_name(names->iterators, i - offset);
   offset += relation->nb_input_dims;
 
   // 4. Local dimensions.
   for (i = offset; i < relation->nb_local_dims + offset; i++)
-    OSL_strdup(strings[i], names->local_dims->string[i - offset]);
+    strings[i] = osl_relation_dim_name(names->local_dims, i - offset);
   offset += relation->nb_local_dims;
 
   // 5. Parameters.
   for (i = offset; i < relation->nb_parameters + offset; i++)
-    OSL_strdup(strings[i], names->parameters->string[i - offset]);
+    strings[i] = osl_relation_dim_name(names->parameters, i - offset);
   offset += relation->nb_parameters;
 
   // 6. Scalar.
@@ -843,7 +868,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
              relation->nb_parameters);
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    if (relation->nb_rows > 0) {
+    if (relation->nb_rows > 0 && name_array != NULL) {
       scolumn = osl_relation_column_string(relation, name_array);
       osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
@@ -1003,7 +1028,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       }
 
       // Print column names in comment
-      if (relation->nb_rows > 0) {
+      if (relation->nb_rows > 0 && name_array != NULL) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
         osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
-- 
2.43.0


From 42bf9c5288aaa541490117405336137803160e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 27/95] fix: do not negate the smallest integer when printing
 comments

---
 source/relation.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 741a3d8..2cf26e4 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -59,6 +59,7 @@
  ******************************************************************************/
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -563,7 +564,17 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     return string;
   }
 
-  if ((sign = osl_relation_is_simple_output(relation, row))) {
+  sign = osl_relation_is_simple_output(relation, row);
+  if (sign > 0 && relation->precision != OSL_PRECISION_MP) {
+    // The right hand side cannot be negated with the smallest integer.
+    for (i = relation->nb_output_dims + 1; i < relation->nb_columns; i++) {
+      if (osl_int_size_in_base_2(relation->precision, relation->m[row][i]) >=
+          sizeof(long int) * CHAR_BIT)
+        sign = 0;
+    }
+  }
+
+  if (sign) {
     // First case : output == expression.
 
     expression = osl_relation_subexpression(
-- 
2.43.0


From ab4c41fe4bf1aabc941a105f2f21a955af259859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 28/95] fix: osl_statement_equal must accept an absent
 statement list

---
 source/statement.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/statement.c b/source/statement.c
index 6cf7ada..3de955b 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -671,6 +671,11 @@ int osl_statement_equal(const osl_statement_t* const s1,
   if (s1 == s2)
     return 1;
 
+  if ((s1 == NULL) || (s2 == NULL)) {
+    OSL_info("statements are not the same");
+    return 0;
+  }
+
   if (((s1->next != NULL) && (s2->next == NULL)) ||
       ((s1->next == NULL) && (s2->next != NULL))) {
     OSL_info("statements are not the same");
-- 
2.43.0


From 18c3e6f25a6b597a37f2454c3a02f266b1686369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 29/95] fix: osl_vector_equal must accept an absent vector

---
 source/vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/vector.c b/source/vector.c
index 7bce599..b456811 100644
--- a/source/vector.c
+++ b/source/vector.c
@@ -319,6 +319,9 @@ int osl_vector_equal(const osl_vector_t* const v1,
   if (v1 == v2)
     return 1;
 
+  if ((v1 == NULL) || (v2 == NULL))
+    return 0;
+
   if ((v1->size != v2->size) || (v1->precision != v2->precision))
     return 0;
 
-- 
2.43.0


From 58302305bede5c43c52018e40eee869eba85fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 30/95] fix: osl_scop_equal must accept an absent language

---
 source/scop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index a1d9ac9..50063f2 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -709,7 +709,8 @@ bool osl_scop_equal(const osl_scop_t* s1, const osl_scop_t* s2) {
       return 0;
     }
 
-    if (strcmp(s1->language, s2->language) != 0) {
+    if (((s1->language == NULL) != (s2->language == NULL)) ||
+        ((s1->language != NULL) && strcmp(s1->language, s2->language) != 0)) {
       OSL_info("languages are not the same");
       return 0;
     }
-- 
2.43.0


From 72cca953bd8f1a420af980ca4ae2596e612c6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 31/95] fix: osl_interface_equal must compare all the
 interfaces of the lists

---
 source/interface.c | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/source/interface.c b/source/interface.c
index 9e65bb9..bc8c6fd 100644
--- a/source/interface.c
+++ b/source/interface.c
@@ -303,16 +303,42 @@ osl_interface_t* osl_interface_clone(const osl_interface_t* const interface) {
   return osl_interface_nclone(interface, -1);
 }
 
+/**
+ * osl_interface_equal_one internal function:
+ * this function returns true if the two interface nodes (not the lists) are
+ * the same (content-wise), false otherwise.
+ * \param interface1 The first interface node.
+ * \param interface2 The second interface node.
+ * \return 1 if interface1 and interface2 are the same, 0 otherwise.
+ */
+static bool osl_interface_equal_one(const osl_interface_t* const interface1,
+                                    const osl_interface_t* const interface2) {
+  if (((interface1->URI == NULL) != (interface2->URI == NULL)) ||
+      ((interface1->URI != NULL) && strcmp(interface1->URI, interface2->URI)))
+    return 0;
+
+  return (interface1->idump == interface2->idump) &&
+         (interface1->sprint == interface2->sprint) &&
+         (interface1->sread == interface2->sread) &&
+         (interface1->malloc == interface2->malloc) &&
+         (interface1->free == interface2->free) &&
+         (interface1->clone == interface2->clone) &&
+         (interface1->equal == interface2->equal);
+}
+
 /**
  * osl_interface_equal function:
  * this function returns true if the two interface structures are the same,
- * (content-wise) false otherwise.
+ * (content-wise) false otherwise. Lists of interfaces are considered as equal
+ * independently of the order of the nodes.
  * \param interface1 The first interface structure.
  * \param interface2 The second interface structure.
  * \return 1 if interface1 and interface2 are the same, 0 otherwise.
  */
 bool osl_interface_equal(const osl_interface_t* const interface1,
                          const osl_interface_t* const interface2) {
+  const osl_interface_t *i1, *i2;
+
   if (interface1 == interface2)
     return 1;
 
@@ -320,16 +346,18 @@ bool osl_interface_equal(const osl_interface_t* const interface1,
       ((interface1 != NULL) && (interface2 == NULL)))
     return 0;
 
-  if (strcmp(interface1->URI, interface2->URI) ||
-      (interface1->idump != interface2->idump) ||
-      (interface1->sprint != interface2->sprint) ||
-      (interface1->sread != interface2->sread) ||
-      (interface1->malloc != interface2->malloc) ||
-      (interface1->free != interface2->free) ||
-      (interface1->clone != interface2->clone) ||
-      (interface1->equal != interface2->equal))
+  if (osl_interface_number(interface1) != osl_interface_number(interface2))
     return 0;
 
+  // Check that each interface of the first list is in the second list.
+  for (i1 = interface1; i1 != NULL; i1 = i1->next) {
+    i2 = interface2;
+    while ((i2 != NULL) && !osl_interface_equal_one(i1, i2))
+      i2 = i2->next;
+    if (i2 == NULL)
+      return 0;
+  }
+
   return 1;
 }
 
-- 
2.43.0


From 76fc572decf988a0dc98cff83d8edcc1dfda25e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 32/95] fix: osl_relation_list_set_type must reach all the
 parts of the unions

---
 source/relation_list.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index ec373ba..4255793 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -650,9 +650,7 @@ int osl_relation_list_integrity_check(const osl_relation_list_t* list, int type,
  */
 void osl_relation_list_set_type(osl_relation_list_t* list, int type) {
   while (list != NULL) {
-    if (list->elt != NULL) {
-      list->elt->type = type;
-    }
+    osl_relation_set_type(list->elt, type);
     list = list->next;
   }
 }
-- 
2.43.0


From e8ca700ef7e92bddbb81740f79d295448f1db35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 33/95] fix: osl_scop_remove_unions must keep all the
 statements

---
 source/scop.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 50063f2..5f388c5 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -664,11 +664,11 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
         new_scop->statement = scop_statement_ptr;
       } else {
         scop_statement_ptr->next = new_statement;
-        scop_statement_ptr = scop_statement_ptr->next;
       }
+      // Go to the end of the list: the statement may have been split.
+      while (scop_statement_ptr->next != NULL)
+        scop_statement_ptr = scop_statement_ptr->next;
     }
-    while (scop_statement_ptr && scop_statement_ptr->next != NULL)
-      scop_statement_ptr = scop_statement_ptr->next;
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-- 
2.43.0


From 06118c18eee71b57ab2ebad64e0450e568bb7271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 34/95] fix: check the memory allocation in
 osl_scop_remove_unions

---
 source/scop.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 5f388c5..b99905b 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -672,10 +672,8 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-    if (scop->language != NULL) {
-      new_scop->language = (char*)malloc(strlen(scop->language) + 1);
-      new_scop->language = strcpy(new_scop->language, scop->language);
-    }
+    if (scop->language != NULL)
+      OSL_strdup(new_scop->language, scop->language);
     new_scop->parameters = osl_generic_clone(scop->parameters);
     new_scop->registry = osl_interface_clone(scop->registry);
     new_scop->version = scop->version;
-- 
2.43.0


From 13c22c41089fbe0f8a5b7fe78d9a603a8faae16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 35/95] fix: osl_scop_normalize_scattering must consider all
 the parts of the unions

---
 source/scop.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index b99905b..3cf734f 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -946,15 +946,15 @@ void osl_scop_get_attributes(const osl_scop_t* scop, int* nb_parameters,
 void osl_scop_normalize_scattering(osl_scop_t* scop) {
   int max_scattering_dims = 0;
   osl_statement_p statement;
-  osl_relation_p extended;
+  osl_relation_p part, extended;
 
   if ((scop != NULL) && (scop->statement != NULL)) {
     // Get the max number of scattering dimensions.
     statement = scop->statement;
     while (statement != NULL) {
-      if (statement->scattering != NULL) {
+      for (part = statement->scattering; part != NULL; part = part->next) {
         max_scattering_dims =
-            OSL_max(max_scattering_dims, statement->scattering->nb_output_dims);
+            OSL_max(max_scattering_dims, part->nb_output_dims);
       }
       statement = statement->next;
     }
-- 
2.43.0


From 6ee217785d237e0bb3bf826f92f318256212f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 36/95] fix: osl_relation_extend_output must accept an absent
 relation and any precision of the parts

---
 source/relation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 2cf26e4..7e792a0 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2881,10 +2881,11 @@ osl_relation_t* osl_relation_extend_output(const osl_relation_t* relation,
   int i, j;
   int first = 1;
   int offset;
-  int precision = relation->precision;
+  int precision;
   osl_relation_p extended = NULL, node, previous = NULL;
 
   while (relation != NULL) {
+    precision = relation->precision;
     if (relation->nb_output_dims > dim)
       OSL_error("Number of output dims is greater than required extension");
     offset = dim - relation->nb_output_dims;
-- 
2.43.0


From efcfc46c21b0d872202101e124d41aeb09dffd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 37/95] fix: osl_generic_add must detect all the duplicated
 URIs

---
 source/generic.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/generic.c b/source/generic.c
index 8e878c4..14fae3e 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -361,7 +361,7 @@ osl_generic_t* osl_generic_read(FILE* const file,
  * \param[in] generic The generic list to add to the initial list.
  */
 void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
-  osl_generic_p tmp = *list, check;
+  osl_generic_p tmp = *list, check, other;
 
   if (generic != NULL) {
     // First, check that the generic list is OK.
@@ -371,8 +371,12 @@ void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
         OSL_error("no interface or URI in a generic to add to a list");
 
       // TODO: move this to the integrity check.
-      if (osl_generic_lookup(*list, check->interface->URI) != NULL)
-        OSL_error("only one generic with a given URI is allowed");
+      for (other = *list; other != NULL; other = other->next)
+        if (osl_generic_has_URI(other, check->interface->URI))
+          OSL_error("only one generic with a given URI is allowed");
+      for (other = generic; other != check; other = other->next)
+        if (osl_generic_has_URI(other, check->interface->URI))
+          OSL_error("only one generic with a given URI is allowed");
       check = check->next;
     }
 
-- 
2.43.0


From 0dbf0e1df5b39defdd8b24b9da5084998f00eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 38/95] fix: osl_interface_add must detect duplicated URIs in
 the added list

---
 source/interface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interface.c b/source/interface.c
index bc8c6fd..9877f8a 100644
--- a/source/interface.c
+++ b/source/interface.c
@@ -180,7 +180,9 @@ void osl_interface_add(osl_interface_t** list, osl_interface_t* interface) {
       if (check_interface->URI == NULL)
         OSL_error("no URI in an interface to add to a list");
 
-      if (osl_interface_lookup(*list, check_interface->URI) != NULL)
+      if ((osl_interface_lookup(*list, check_interface->URI) != NULL) ||
+          (osl_interface_lookup(interface, check_interface->URI) !=
+           check_interface))
         OSL_error("only one interface with a given URI is allowed");
       check_interface = check_interface->next;
     }
-- 
2.43.0


From f54d69959e5bf5c84af9107a4dce323f271bb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 39/95] fix: report a missing end tag instead of dereferencing
 NULL

---
 source/generic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 14fae3e..d165666 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -268,6 +268,8 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   }
 
   content = osl_util_read_uptoendtag(NULL, input, tag);
+  if (content == NULL)
+    OSL_error("no end tag for an extension");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -310,6 +312,8 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   }
 
   content = osl_util_read_uptoendtag(file, NULL, tag);
+  if (content == NULL)
+    OSL_error("no end tag for an extension");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -342,6 +346,8 @@ osl_generic_t* osl_generic_read(FILE* const file,
   osl_generic_p generic_list;
 
   generic_string = osl_util_read_uptoendtag(file, NULL, OSL_URI_SCOP);
+  if (generic_string == NULL)
+    OSL_error("no end tag for the scop");
   temp = generic_string;
   generic_list = osl_generic_sread(&temp, registry);
   free(generic_string);
-- 
2.43.0


From 953f65fded02204a53c7f7615efa4633b2fdbe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 40/95] fix: memory leak when a closing tag is found instead of
 an opening one

---
 source/generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index d165666..1fdbef7 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -264,6 +264,7 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   tag = osl_util_read_tag(NULL, input);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
@@ -308,6 +309,7 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   tag = osl_util_read_tag(file, NULL);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
-- 
2.43.0


From 92d52414ac3e407140daf3d8cadd4527dd6ec6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 41/95] fix: no buffer overrun when printing a generic with a
 long URI

---
 source/generic.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/source/generic.c b/source/generic.c
index 1fdbef7..46e2e57 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -152,7 +152,6 @@ void osl_generic_dump(FILE* const file, const osl_generic_t* const generic) {
 char* osl_generic_sprint(const osl_generic_t* generic) {
   size_t high_water_mark = OSL_MAX_STRING;
   char *string = NULL, *content;
-  char buffer[OSL_MAX_STRING];
 
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
@@ -161,19 +160,21 @@ char* osl_generic_sprint(const osl_generic_t* generic) {
     if (generic->interface != NULL) {
       content = generic->interface->sprint(generic->data);
       if (content != NULL) {
-        sprintf(buffer, "<%s>\n", generic->interface->URI);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, "<", &high_water_mark);
+        osl_util_safe_strcat(&string, generic->interface->URI,
+                             &high_water_mark);
+        osl_util_safe_strcat(&string, ">\n", &high_water_mark);
         osl_util_safe_strcat(&string, content, &high_water_mark);
         free(content);
-        sprintf(buffer, "</%s>\n", generic->interface->URI);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, "</", &high_water_mark);
+        osl_util_safe_strcat(&string, generic->interface->URI,
+                             &high_water_mark);
+        osl_util_safe_strcat(&string, ">\n", &high_water_mark);
       }
     }
     generic = generic->next;
-    if (generic != NULL) {
-      sprintf(buffer, "\n");
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    }
+    if (generic != NULL)
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
   }
 
   return string;
-- 
2.43.0


From 57513cce7f3c302ff8bb1db5cb46c039cf210406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 42/95] fix: osl_scop_register_extension must read the textual
 form of the extensions

---
 source/scop.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 3cf734f..a4eca60 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -876,15 +876,16 @@ int osl_scop_get_nb_parameters(const osl_scop_t* scop) {
  * \param interface The extension interface to register within the scop.
  */
 void osl_scop_register_extension(osl_scop_t* scop, osl_interface_t* interface) {
-  osl_generic_p textual, new;
+  osl_textual_p textual;
+  osl_generic_p new;
   char* extension_string;
 
   if ((interface != NULL) && (scop != NULL)) {
     osl_interface_add(&scop->registry, interface);
 
-    textual = osl_generic_lookup(scop->extension, interface->URI);
-    if (textual != NULL) {
-      extension_string = ((osl_textual_p)textual->data)->textual;
+    textual = osl_generic_lookup(scop->extension, OSL_URI_TEXTUAL);
+    if ((textual != NULL) && (textual->textual != NULL)) {
+      extension_string = textual->textual;
       new = osl_generic_sread(&extension_string, interface);
       osl_generic_add(&scop->extension, new);
     }
-- 
2.43.0


From 32df796afc28d8a0107889c1123257cbfdf369b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 43/95] fix: comments and clay scripts of any length, without
 buffer overrun, and consumed when read

---
 source/extensions/clay.c    | 10 +++-------
 source/extensions/comment.c | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index b65cdc2..47f69c1 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -137,15 +137,14 @@ void osl_clay_dump(FILE* const file, const osl_clay_t* const clay) {
 char* osl_clay_sprint(const osl_clay_t* const clay) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (clay != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the clay.
-    sprintf(buffer, "%s", clay->script);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    if (clay->script != NULL)
+      osl_util_safe_strcat(&string, clay->script, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
@@ -177,9 +176,6 @@ osl_clay_t* osl_clay_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("clay script too long");
-
   // Build the clay structure
   clay = osl_clay_malloc();
   script = *input;
@@ -191,7 +187,7 @@ osl_clay_t* osl_clay_sread(char** input) {
   OSL_strdup(clay->script, script);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return clay;
 }
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 1798d15..387c553 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -138,15 +138,14 @@ void osl_comment_dump(FILE* const file, const osl_comment_t* const comment) {
 char* osl_comment_sprint(const osl_comment_t* const comment) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (comment != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the comment.
-    sprintf(buffer, "%s", comment->comment);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    if (comment->comment != NULL)
+      osl_util_safe_strcat(&string, comment->comment, &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
@@ -177,15 +176,12 @@ osl_comment_t* osl_comment_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("comment too long");
-
   // Build the comment structure
   comment = osl_comment_malloc();
   OSL_strdup(comment->comment, *input);
 
   // Update the input pointer (everything has been read).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return comment;
 }
-- 
2.43.0


From 38763aa8b9d5a38495ee9c35aaf087c984caac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 44/95] fix: a comment must not grow at each print and read

---
 source/extensions/comment.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 387c553..3971bcf 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -170,6 +170,7 @@ char* osl_comment_sprint(const osl_comment_t* const comment) {
  */
 osl_comment_t* osl_comment_sread(char** input) {
   osl_comment_p comment;
+  char* text;
 
   if (*input == NULL) {
     OSL_debug("no comment optional tag");
@@ -178,7 +179,13 @@ osl_comment_t* osl_comment_sread(char** input) {
 
   // Build the comment structure
   comment = osl_comment_malloc();
-  OSL_strdup(comment->comment, *input);
+  text = *input;
+
+  // Pass the carriage returns (this allows to remove those inserted by
+  // osl_generic_print), and copy the textual comment.
+  while (*text && (*text == '\n'))
+    text++;
+  OSL_strdup(comment->comment, text);
 
   // Update the input pointer (everything has been read).
   *input += strlen(*input);
-- 
2.43.0


From d79cb5db2b499079066eb4b1e4852903fc573137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 45/95] fix: comments and clay scripts without text must not be
 dereferenced

---
 source/extensions/clay.c    | 6 ++++--
 source/extensions/comment.c | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index 47f69c1..2a08db8 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -102,7 +102,7 @@ void osl_clay_idump(FILE* const file, const osl_clay_t* const clay, int level) {
       fprintf(file, "|\t");
 
     // Display the clay script (without any carriage return).
-    OSL_strdup(tmp, clay->script);
+    OSL_strdup(tmp, (clay->script != NULL ? clay->script : "NULL"));
     for (l = 0; l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
@@ -267,7 +267,9 @@ bool osl_clay_equal(const osl_clay_t* const c1, const osl_clay_t* const c2) {
     return 0;
   }
 
-  if (strcmp(c1->script, c2->script)) {
+  if ((c1->script != c2->script) &&
+      ((c1->script == NULL) || (c2->script == NULL) ||
+       strcmp(c1->script, c2->script))) {
     OSL_info("clay scripts are not the same");
     return 0;
   }
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 3971bcf..8acb25d 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -103,7 +103,7 @@ void osl_comment_idump(FILE* const file, const osl_comment_t* const comment,
       fprintf(file, "|\t");
 
     // Display the comment message (without any carriage return).
-    OSL_strdup(tmp, comment->comment);
+    OSL_strdup(tmp, (comment->comment != NULL ? comment->comment : "NULL"));
     for (l = 0; l < strlen(tmp); l++)
       if (tmp[l] == '\n')
         tmp[l] = ' ';
@@ -269,7 +269,8 @@ bool osl_comment_equal(const osl_comment_t* const c1,
     return 0;
   }
 
-  if (strcmp(c1->comment, c2->comment)) {
+  if ((c1->comment == NULL) || (c2->comment == NULL) ||
+      strcmp(c1->comment, c2->comment)) {
     // Well, the test does not apply well on textual content but the idea
     // is here (see osl_generic_sprint if you want to understand the problem).
     // OSL_info("comments are not the same");
-- 
2.43.0


From b7b3668d2fcb3e1c7af572e8229d74f24d02b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 46/95] fix: osl_scatnames_sprint must accept absent scatnames

---
 source/extensions/scatnames.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/scatnames.c b/source/extensions/scatnames.c
index 68ad02e..21b0edc 100644
--- a/source/extensions/scatnames.c
+++ b/source/extensions/scatnames.c
@@ -132,6 +132,8 @@ void osl_scatnames_dump(FILE* const file,
  * \return A string containing the OpenScop dump of the scatnames structure.
  */
 char* osl_scatnames_sprint(const osl_scatnames_t* const scatnames) {
+  if (scatnames == NULL)
+    return NULL;
   return osl_strings_sprint(scatnames->names);
 }
 
-- 
2.43.0


From 8caf151cc7108a96a73fb246296db88e37f21ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 47/95] fix: no buffer overrun when printing arrays,
 coordinates, loops or pluto_unroll with long names or many elements

---
 source/extensions/arrays.c       |  4 ++-
 source/extensions/coordinates.c  |  8 ++++--
 source/extensions/loop.c         | 16 +++++++-----
 source/extensions/pluto_unroll.c | 42 +++++++++++++++-----------------
 4 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 71856a9..a7e8df9 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -160,8 +160,10 @@ char* osl_arrays_sprint(const osl_arrays_t* const arrays) {
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
     for (i = 0; i < arrays->nb_names; i++) {
-      sprintf(buffer, "%d %s\n", arrays->id[i], arrays->names[i]);
+      sprintf(buffer, "%d ", arrays->id[i]);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, arrays->names[i], &high_water_mark);
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
     }
 
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index e9e9b44..cafb0ae 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -159,8 +159,12 @@ char* osl_coordinates_sprint(const osl_coordinates_t* const coordinates) {
     string[0] = '\0';
 
     // Print the coordinates content.
-    sprintf(buffer, "# File name\n%s\n", coordinates->name);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "# File name\n", &high_water_mark);
+    if (coordinates->name != NULL)
+      osl_util_safe_strcat(&string, coordinates->name, &high_water_mark);
+    else
+      osl_util_safe_strcat(&string, "(null)", &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Starting line and column\n%d %d\n",
             coordinates->line_start, coordinates->column_start);
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index f6ff067..1053fd5 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -204,8 +204,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Iterator name\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->iter);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, loop->iter != NULL ? loop->iter : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Number of stmts\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -223,8 +224,10 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Private variables\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->private_vars);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(
+        &string, loop->private_vars != NULL ? loop->private_vars : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Directive\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -233,8 +236,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     // special case for OSL_LOOP_DIRECTIVE_USER
     if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {
-      sprintf(buffer, " %s", loop->user);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " ", &high_water_mark);
+      osl_util_safe_strcat(&string, loop->user != NULL ? loop->user : "(null)",
+                           &high_water_mark);
     }
     sprintf(buffer, "\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index d5f4190..b96c7c7 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -164,38 +164,34 @@ void osl_pluto_unroll_dump(FILE* const file,
  * \return a string containing the OpenScop dump of the loop structure.
  */
 char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
+  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING] = {0};
+  char buffer[OSL_MAX_STRING];
 
-  strcat(buffer, "# Pluto unroll\n");
-  if (pluto_unroll != NULL) {
-    strcat(buffer, "1\n");
-  } else {
-    strcat(buffer, "0\n");
-  }
-
-  while (pluto_unroll != NULL) {
-    strcat(buffer, "# Iterator name\n");
-    sprintf(buffer + strlen(buffer), "%s\n", pluto_unroll->iter);
+  OSL_malloc(string, char*, high_water_mark * sizeof(char));
+  string[0] = '\0';
 
-    strcat(buffer, "# Jam\n");
-    sprintf(buffer + strlen(buffer), "%i\n", pluto_unroll->jam);
+  osl_util_safe_strcat(&string, "# Pluto unroll\n", &high_water_mark);
+  osl_util_safe_strcat(&string, pluto_unroll != NULL ? "1\n" : "0\n",
+                       &high_water_mark);
 
-    strcat(buffer, "# Factor\n");
-    sprintf(buffer + strlen(buffer), "%u\n", pluto_unroll->factor);
+  while (pluto_unroll != NULL) {
+    osl_util_safe_strcat(&string, "# Iterator name\n", &high_water_mark);
+    osl_util_safe_strcat(
+        &string, pluto_unroll->iter != NULL ? pluto_unroll->iter : "(null)",
+        &high_water_mark);
+    sprintf(buffer, "\n# Jam\n%i\n# Factor\n%u\n", pluto_unroll->jam,
+            pluto_unroll->factor);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
     pluto_unroll = pluto_unroll->next;
 
-    strcat(buffer, "# Next\n");
-    if (pluto_unroll != NULL) {
-      strcat(buffer, "1\n");
-    } else {
-      strcat(buffer, "0\n");
-    }
+    osl_util_safe_strcat(&string, "# Next\n", &high_water_mark);
+    osl_util_safe_strcat(&string, pluto_unroll != NULL ? "1\n" : "0\n",
+                         &high_water_mark);
   }
 
-  OSL_realloc(string, char*, (strlen(buffer) + 1) * sizeof(char));
-  strcpy(string, buffer);
+  OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
 
   return string;
 }
-- 
2.43.0


From f18aae462aa081278d6fcc80269e82d1ef0bf8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 48/95] fix: osl_arrays_equal must be symmetric when an array
 appears several times

---
 source/extensions/arrays.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index a7e8df9..99b1bcb 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -304,6 +304,7 @@ osl_arrays_t* osl_arrays_clone(const osl_arrays_t* const arrays) {
 bool osl_arrays_equal(const osl_arrays_t* const a1,
                       const osl_arrays_t* const a2) {
   int i, j, found;
+  const char *name, *other;
 
   if (a1 == a2)
     return 1;
@@ -320,16 +321,19 @@ bool osl_arrays_equal(const osl_arrays_t* const a1,
   }
 
   // We accept a different order of the names, as long as the identifiers
-  // are the same.
+  // are the same: each id/name must be as many times on both sides.
   for (i = 0; i < a1->nb_names; i++) {
     found = 0;
-    for (j = 0; j < a2->nb_names; j++) {
-      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))) {
-        found = 1;
-        break;
-      }
+    name = a1->names[i];
+    for (j = 0; j < a1->nb_names; j++) {
+      other = a1->names[j];
+      if ((a1->id[i] == a1->id[j]) && (!strcmp(name, other)))
+        found++;
+      other = a2->names[j];
+      if ((a1->id[i] == a2->id[j]) && (!strcmp(name, other)))
+        found--;
     }
-    if (found != 1) {
+    if (found != 0) {
       OSL_info("arrays are not the same");
       return 0;
     }
-- 
2.43.0


From 9b189bd5c340a2b3394bb4005e195b16a81d0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 49/95] fix: osl_extbody_equal must be symmetric when a segment
 appears several times

---
 source/extensions/extbody.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/source/extensions/extbody.c b/source/extensions/extbody.c
index f7d03eb..075114f 100644
--- a/source/extensions/extbody.c
+++ b/source/extensions/extbody.c
@@ -311,7 +311,8 @@ osl_extbody_t* osl_extbody_clone(const osl_extbody_t* const ebody) {
  */
 bool osl_extbody_equal(const osl_extbody_t* const e1,
                        const osl_extbody_t* const e2) {
-  size_t i, j, found;
+  size_t i, j;
+  int found;
 
   if (e1 == e2)
     return 1;
@@ -328,16 +329,16 @@ bool osl_extbody_equal(const osl_extbody_t* const e1,
   }
 
   // We accept a different order of the start/length, as long as the
-  // identifiers are the same.
+  // identifiers are the same: each must be as many times on both sides.
   for (i = 0; i < e1->nb_access; i++) {
     found = 0;
     for (j = 0; j < e2->nb_access; j++) {
-      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j])) {
-        found = 1;
-        break;
-      }
+      if ((e1->start[i] == e1->start[j]) && (e1->length[i] == e1->length[j]))
+        found++;
+      if ((e1->start[i] == e2->start[j]) && (e1->length[i] == e2->length[j]))
+        found--;
     }
-    if (found != 1) {
+    if (found != 0) {
       OSL_info("extbody are not the same");
       return 0;
     }
-- 
2.43.0


From 5c67e854b9f3dbe83e732b68b477748398d6a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 50/95] fix: loop equality must be symmetric and accept absent
 names

---
 source/extensions/loop.c | 47 ++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 1053fd5..88a2dfd 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -453,7 +453,8 @@ osl_loop_t* osl_loop_clone(const osl_loop_t* loop) {
  */
 bool osl_loop_equal_one(const osl_loop_t* const a1,
                         const osl_loop_t* const a2) {
-  size_t i, j, found;
+  size_t i, j;
+  int found;
 
   if (a1 == a2)
     return 1;
@@ -469,21 +470,23 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
     return 0;
   }
 
-  if (strcmp(a1->iter, a2->iter)) {
+  if ((a1->iter != a2->iter) &&
+      ((a1->iter == NULL) || (a2->iter == NULL) ||
+       strcmp(a1->iter, a2->iter))) {
     // OSL_info("loops are not the same (iter name)");
     return 0;
   }
   // We accept a different order of the names, as long as the identifiers
-  // are the same.
+  // are the same: each must be as many times on both sides.
   for (i = 0; i < a1->nb_stmts; i++) {
     found = 0;
     for (j = 0; j < a2->nb_stmts; j++) {
-      if (a1->stmt_ids[i] == a2->stmt_ids[j]) {
-        found = 1;
-        break;
-      }
+      if (a1->stmt_ids[i] == a1->stmt_ids[j])
+        found++;
+      if (a1->stmt_ids[i] == a2->stmt_ids[j])
+        found--;
     }
-    if (found != 1) {
+    if (found != 0) {
       // OSL_info("loop are not the same (stmt ids)");
       return 0;
     }
@@ -491,7 +494,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
 
   // TODO: necessarily same ???
   if (a1->private_vars != a2->private_vars) {  // NULL check
-    if (strcmp(a1->private_vars, a2->private_vars)) {
+    if ((a1->private_vars == NULL) || (a2->private_vars == NULL) ||
+        strcmp(a1->private_vars, a2->private_vars)) {
       // OSL_info("loops are not the same (private vars)");
       return 0;
     }
@@ -504,7 +508,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
   }
 
   if (a1->user != a2->user) {  // NULL check
-    if (strcmp(a1->user, a2->user)) {
+    if ((a1->user == NULL) || (a2->user == NULL) ||
+        strcmp(a1->user, a2->user)) {
       return 0;
     }
   }
@@ -539,19 +544,19 @@ bool osl_loop_equal(const osl_loop_t* a1, const osl_loop_t* a2) {
     return 0;
   }
 
+  // We accept a different order of the loops, as long as each of them is as
+  // many times on both sides.
+  const osl_loop_t* loop;
+  const osl_loop_t* first = a1;
   while (a1) {
     found = 0;
-    const osl_loop_t* temp = a2;
-
-    while (temp) {
-      if (osl_loop_equal_one(a1, temp) == 1) {
-        found = 1;
-        break;
-      }
-      temp = temp->next;
-    }
-
-    if (found != 1) {
+    for (loop = first; loop; loop = loop->next)
+      if (osl_loop_equal_one(a1, loop))
+        found++;
+    for (loop = a2; loop; loop = loop->next)
+      if (osl_loop_equal_one(a1, loop))
+        found--;
+    if (found != 0) {
       OSL_info("list of loops are not the same");
       return 0;
     }
-- 
2.43.0


From cd782822f9f9a6db39a622d3d9913578b942862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 51/95] fix: osl_coordinates_equal must accept an absent file
 name

---
 source/extensions/coordinates.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index cafb0ae..f3f986d 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -308,7 +308,8 @@ bool osl_coordinates_equal(const osl_coordinates_t* const c1,
   if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
     return 0;
 
-  if (strcmp(c1->name, c2->name)) {
+  if ((c1->name != c2->name) && ((c1->name == NULL) || (c2->name == NULL) ||
+                                 strcmp(c1->name, c2->name))) {
     OSL_info("file names are not the same");
     return 0;
   }
-- 
2.43.0


From 24c8f0ba0af566ea65ad347cfc642965c4e6d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 52/95] fix: reject negative numbers of elements when reading
 extensions

---
 source/extensions/arrays.c     | 2 ++
 source/extensions/dependence.c | 2 ++
 source/extensions/loop.c       | 9 +++++++--
 source/extensions/symbols.c    | 2 ++
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 99b1bcb..50e8db3 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -199,6 +199,8 @@ osl_arrays_t* osl_arrays_sread(char** input) {
 
   // Find the number of names provided.
   nb_names = osl_util_read_int(NULL, input);
+  if (nb_names < 0)
+    OSL_error("negative number of arrays");
 
   // Allocate the array of id and names.
   arrays = osl_arrays_malloc();
diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 306a651..d9c8399 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -425,6 +425,8 @@ osl_dependence_t* osl_dependence_psread(char** input, int precision) {
   int i;
   /* Get the number of dependences. */
   int nbdeps = osl_util_read_int(NULL, input);
+  if (nbdeps < 0)
+    OSL_error("negative number of dependences");
 
   /* For each of them, read 1 and shift of the read size. */
   for (i = 0; i < nbdeps; i++) {
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 88a2dfd..0125be9 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -267,7 +267,7 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
  */
 osl_loop_t* osl_loop_sread(char** input) {
   size_t i;
-  int nb_loops;
+  int nb_loops, nb_stmts;
   osl_loop_p head;
   osl_loop_p loop;
 
@@ -278,6 +278,8 @@ osl_loop_t* osl_loop_sread(char** input) {
 
   // Find the number of names provided.
   nb_loops = osl_util_read_int(NULL, input);
+  if (nb_loops < 0)
+    OSL_error("negative number of loops");
   if (nb_loops == 0)
     return NULL;
 
@@ -286,7 +288,10 @@ osl_loop_t* osl_loop_sread(char** input) {
 
   while (nb_loops != 0) {
     loop->iter = osl_util_read_string(NULL, input);
-    loop->nb_stmts = (size_t)osl_util_read_int(NULL, input);
+    nb_stmts = osl_util_read_int(NULL, input);
+    if (nb_stmts < 0)
+      OSL_error("negative number of statements");
+    loop->nb_stmts = (size_t)nb_stmts;
 
     OSL_malloc(loop->stmt_ids, int*, loop->nb_stmts * sizeof(int));
     for (i = 0; i < loop->nb_stmts; i++)
diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 087d11c..d9206cd 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -331,6 +331,8 @@ osl_symbols_t* osl_symbols_sread(char** input) {
 
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
+  if (nb_symbols < 0)
+    OSL_error("negative number of symbols");
 
   if (nb_symbols == 0)
     return NULL;
-- 
2.43.0


From c27c1a36cd9c82934beca1efb19fdb79015b1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 53/95] fix: read symbols of any text length

---
 source/extensions/symbols.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index d9206cd..e206acc 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -326,9 +326,6 @@ osl_symbols_t* osl_symbols_sread(char** input) {
     return NULL;
   }
 
-  if (strlen(*input) > OSL_MAX_STRING)
-    OSL_error("symbols too long");
-
   // Find the number of names provided.
   nb_symbols = osl_util_read_int(NULL, input);
   if (nb_symbols < 0)
-- 
2.43.0


From cf0d477bf12135ae649cde038764128ba5669054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 54/95] fix: osl_symbols_malloc must initialise the user field

---
 source/extensions/symbols.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index e206acc..e96f985 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -406,6 +406,7 @@ osl_symbols_t* osl_symbols_malloc(void) {
   symbols->datatype = NULL;
   symbols->scope = NULL;
   symbols->extent = NULL;
+  symbols->usr = NULL;
   symbols->next = NULL;
 
   return symbols;
-- 
2.43.0


From 9fba6b5148a246ec603bae21e65bffe67e87980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 55/95] fix: osl_symbols_equal must compare all the symbols of
 the lists

---
 source/extensions/symbols.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index e96f985..13a8a88 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -500,26 +500,20 @@ osl_symbols_t* osl_symbols_clone(const osl_symbols_t* const symbols) {
  * \return 1 if c1 and c2 are the same (content-wise), 0 otherwise.
  */
 bool osl_symbols_equal(const osl_symbols_t* c1, const osl_symbols_t* c2) {
-  if (c1 == c2)
-    return 1;
-
-  if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))
-    return 0;
-
-  if (c1->type == c2->type && c1->generated == c2->generated &&
-      c1->nb_dims == c2->nb_dims) {
-    if (osl_generic_equal(c1->identifier, c2->identifier)) {
-      if (osl_generic_equal(c1->datatype, c2->datatype)) {
-        if (osl_generic_equal(c1->scope, c2->scope)) {
-          if (osl_generic_equal(c1->extent, c2->extent)) {
-            return 1;
-          }
-        }
-      }
-    }
+  while ((c1 != c2) && (c1 != NULL) && (c2 != NULL)) {
+    if ((c1->type != c2->type) || (c1->generated != c2->generated) ||
+        (c1->nb_dims != c2->nb_dims) ||
+        !osl_generic_equal(c1->identifier, c2->identifier) ||
+        !osl_generic_equal(c1->datatype, c2->datatype) ||
+        !osl_generic_equal(c1->scope, c2->scope) ||
+        !osl_generic_equal(c1->extent, c2->extent))
+      return 0;
+
+    c1 = c1->next;
+    c2 = c2->next;
   }
 
-  return 0;
+  return c1 == c2;
 }
 
 /**
-- 
2.43.0


From ef80e9bf5fe653daabfc73be8c85a58f2bac57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 56/95] fix: dump dependences without statement pointers

---
 source/extensions/dependence.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index d9c8399..4448333 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -175,19 +175,27 @@ void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Statement label: %d\n", dependence->label_source);
-    tmp = dependence->stmt_source_ptr->next;
-    dependence->stmt_source_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
-    dependence->stmt_source_ptr->next = tmp;
+    if (dependence->stmt_source_ptr != NULL) {
+      tmp = dependence->stmt_source_ptr->next;
+      dependence->stmt_source_ptr->next = NULL;
+      osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
+      dependence->stmt_source_ptr->next = tmp;
+    } else {
+      osl_statement_idump(file, NULL, level + 1);
+    }
 
     /* Print the target statement. */
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Target label: %d\n", dependence->label_target);
-    tmp = dependence->stmt_target_ptr->next;
-    dependence->stmt_target_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
-    dependence->stmt_target_ptr->next = tmp;
+    if (dependence->stmt_target_ptr != NULL) {
+      tmp = dependence->stmt_target_ptr->next;
+      dependence->stmt_target_ptr->next = NULL;
+      osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
+      dependence->stmt_target_ptr->next = tmp;
+    } else {
+      osl_statement_idump(file, NULL, level + 1);
+    }
 
     /* Print the dependence polyhedron. */
     for (j = 0; j <= level; j++)
-- 
2.43.0


From e8dfddcf6b8413bfd795527931c94aa94005985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 57/95] fix: osl_dependence_equal must accept an absent
 dependence list

---
 source/extensions/dependence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 4448333..2d1f1f9 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -588,6 +588,9 @@ bool osl_dependence_equal(const osl_dependence_t* d1,
   if (d1 == d2)
     return 1;
 
+  if (d1 == NULL || d2 == NULL)
+    return 0;
+
   if ((d1->next != NULL && d2->next == NULL) ||
       (d1->next == NULL && d2->next != NULL))
     return 0;
-- 
2.43.0


From 5cc306045ecb9868a5ea82c2b78b042344bb3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 58/95] fix: report too long dimension lines and unknown types
 of dependences

---
 source/extensions/dependence.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 2d1f1f9..13549a3 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -292,7 +292,7 @@ char* osl_dependence_sprint(const osl_dependence_t* const dependence) {
           type = "RAW_SCALPRIV #(scalar priv)";
           break;
         default:
-          exit(1);
+          OSL_error("unknown dependence type");
           break;
       }
 
@@ -384,6 +384,8 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
     tmp++;
     row_size += 1;
   }
+  if (row_size >= OSL_MAX_STRING)
+    OSL_error("dimension information line too long");
   strncpy(str, *input, sizeof(char) * row_size);
   str[(tmp - *input)] = '\0';
   /* - Read the information */
-- 
2.43.0


From 76dab744230a0fea5301d57db54dd409837030bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 59/95] fix: osl_dependence_clone must keep the access pointers

---
 source/extensions/dependence.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 13549a3..922b755 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -531,6 +531,8 @@ static osl_dependence_t* osl_dependence_nclone(const osl_dependence_t* dep,
     node = osl_dependence_malloc();
     node->stmt_source_ptr = dep->stmt_source_ptr;
     node->stmt_target_ptr = dep->stmt_target_ptr;
+    node->ref_source_access_ptr = dep->ref_source_access_ptr;
+    node->ref_target_access_ptr = dep->ref_target_access_ptr;
     node->depth = dep->depth;
     node->type = dep->type;
     node->label_source = dep->label_source;
-- 
2.43.0


From 8a9c238f3b2c43b430c40692ed80f06fe00c5e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 60/95] fix: no write before the strings for array identifiers
 lower than 1

---
 source/extensions/arrays.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 50e8db3..d7f8ead 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -371,6 +371,10 @@ osl_strings_t* osl_arrays_to_strings(const osl_arrays_t* const arrays) {
   // Build a strings structure for this number of ids.
   strings = osl_strings_generate("Dummy", max_id);
   for (i = 0; i < arrays->nb_names; i++) {
+    if (arrays->id[i] < 1) {
+      OSL_warning("array identifier lower than 1, name ignored");
+      continue;
+    }
     free(strings->string[arrays->id[i] - 1]);
     OSL_strdup(strings->string[arrays->id[i] - 1], arrays->names[i]);
   }
-- 
2.43.0


From f538f14929da9ea93ccce1e6bb0b66662d6169cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 61/95] fix: report memory overflows when building regions and
 annotations

---
 source/extensions/annotation.c | 15 ++++-----------
 source/extensions/region.c     | 15 ++++-----------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index bb41a58..918b056 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -85,16 +85,8 @@ int osl_annotation_text_append(osl_annotation_text_t* text, int line_type,
                                char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof(char*));
+  OSL_realloc(text->types, int*, count * sizeof(int));
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -120,7 +112,8 @@ osl_annotation_text_t osl_annotation_text_clone(
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line;
+    OSL_strdup(line, source->lines[i]);
     osl_annotation_text_append(&destination, source->types[i], line);
   }
   return destination;
diff --git a/source/extensions/region.c b/source/extensions/region.c
index b73632d..cb924f1 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -83,16 +83,8 @@ static void osl_region_text_idump(FILE* file, const osl_region_text_t* text,
 int osl_region_text_append(osl_region_text_t* text, int line_type, char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof(char*));
+  OSL_realloc(text->types, int*, count * sizeof(int));
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -118,7 +110,8 @@ osl_region_text_t osl_region_text_clone(const osl_region_text_t* source) {
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line;
+    OSL_strdup(line, source->lines[i]);
     osl_region_text_append(&destination, source->types[i], line);
   }
   return destination;
-- 
2.43.0


From e45aee9f7b721bd4df3e8cb98a3bb8eca24f5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 62/95] fix: no buffer overrun when printing long lines of
 regions and annotations

---
 source/extensions/annotation.c | 5 +++--
 source/extensions/region.c     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 918b056..1567f0b 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -224,8 +224,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
     for (size_t i = 0; i < annotation->field.count; ++i) {     \
       sprintf(buffer, "%d ", annotation->field.types[i]);      \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", annotation->field.lines[i]);     \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, annotation->field.lines[i], \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
diff --git a/source/extensions/region.c b/source/extensions/region.c
index cb924f1..cf8c464 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -266,8 +266,9 @@ char* osl_region_sprint(const osl_region_t* region) {
     for (size_t i = 0; i < region->field.count; ++i) {         \
       sprintf(buffer, "%d ", region->field.types[i]);          \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", region->field.lines[i]);         \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string, region->field.lines[i],    \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
-- 
2.43.0


From a781f97865e83eb1c0473493b8d35257beb9a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 63/95] fix: osl_region_equal must stop at the end of the lists

---
 source/extensions/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index cf8c464..8ba7e9a 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -425,7 +425,7 @@ bool osl_region_equal_one(const osl_region_t* r1, const osl_region_t* r2) {
 bool osl_region_equal(const osl_region_t* r1, const osl_region_t* r2) {
   bool equal = osl_region_equal_one(r1, r2);
 
-  if (equal)
+  if (equal && (r1 != r2))
     return osl_region_equal(r1->next, r2->next);
   else
     return equal;
-- 
2.43.0


From b19c8936e9105da4c8110d89157f7bb63596733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 64/95] fix: reject a negative number of regions

---
 source/extensions/region.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index 8ba7e9a..99fcfae 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -297,6 +297,8 @@ osl_region_t* osl_region_sread(char** input) {
   }
 
   const int region_count = osl_util_read_int(NULL, input);
+  if (region_count < 0)
+    OSL_error("negative number of regions");
   if (!region_count)
     return NULL;
 
-- 
2.43.0


From 0196639fbda0a2a4b4b83f0ec82fd811c0f377f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 65/95] fix: accept absent annotations

---
 source/extensions/annotation.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 1567f0b..a893aca 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -191,8 +191,10 @@ void osl_annotation_idump(FILE* const file, const osl_annotation_t* annotation,
   osl_annotation_idump_indent(file, level);
   fprintf(file, "\n");
 
-  osl_annotation_text_idump(file, &annotation->prefix, level + 2);
-  osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  if (annotation != NULL) {
+    osl_annotation_text_idump(file, &annotation->prefix, level + 2);
+    osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  }
 
   /* Last line. */
   osl_annotation_idump_indent(file, level);
@@ -207,6 +209,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
   char* string = NULL;
   size_t high_water_mark = OSL_MAX_STRING;
 
+  if (annotation == NULL)
+    return NULL;
+
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
 
@@ -285,6 +290,9 @@ osl_annotation_t* osl_annotation_malloc(void) {
 }
 
 void osl_annotation_free(osl_annotation_t* annotation) {
+  if (annotation == NULL)
+    return;
+
   osl_annotation_text_clean(&annotation->prefix);
   osl_annotation_text_clean(&annotation->suffix);
   free(annotation);
@@ -295,6 +303,9 @@ void osl_annotation_free(osl_annotation_t* annotation) {
  *****************************************************************************/
 
 osl_annotation_t* osl_annotation_clone(const osl_annotation_t* const source) {
+  if (source == NULL)
+    return NULL;
+
   osl_annotation_t* const clone = osl_annotation_malloc();
 
   clone->prefix = osl_annotation_text_clone(&source->prefix);
-- 
2.43.0


From c4a4422357cdb3932d118a61577d313f222fc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 66/95] fix: dump a textual payload without text

---
 source/extensions/textual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/textual.c b/source/extensions/textual.c
index 1c6782d..f7e7c3c 100644
--- a/source/extensions/textual.c
+++ b/source/extensions/textual.c
@@ -97,7 +97,7 @@ void osl_textual_idump(FILE* const file, const osl_textual_t* const textual,
     fprintf(file, "+-- osl_textual_t: ");
 
     // Display the textual message (without any carriage return).
-    OSL_strdup(tmp, textual->textual);
+    OSL_strdup(tmp, (textual->textual != NULL ? textual->textual : "NULL"));
     for (j = 0; j < (int)strlen(tmp); j++)
       if (tmp[j] == '\n')
         tmp[j] = ' ';
-- 
2.43.0


From a1b4db12e75c06cff10f73be98024b93ff9becdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 67/95] fix: clone the predicate bodies of irregular
 extensions, no heap overrun

---
 source/extensions/irregular.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 8fde9e1..eea4534 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -459,7 +459,7 @@ osl_irregular_t* osl_irregular_clone(const osl_irregular_t* irregular) {
     }
     for (j = 0; j < copy->nb_iterators[i]; j++)
       OSL_strdup(copy->iterators[i][j], irregular->iterators[i][j]);
-    OSL_strdup(copy->iterators[i][j], irregular->body[i]);
+    OSL_strdup(copy->body[i], irregular->body[i]);
   }
 
   return copy;
-- 
2.43.0


From 54e2d8279a33fcb0ca2818540ddf7bfc1148c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 68/95] fix: osl_irregular_equal must compare the predicates
 and never compensate differences

---
 source/extensions/irregular.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index eea4534..d042887 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -475,7 +475,7 @@ osl_irregular_t* osl_irregular_clone(const osl_irregular_t* irregular) {
  */
 bool osl_irregular_equal(const osl_irregular_t* const c1,
                          const osl_irregular_t* const c2) {
-  int i, j, comp = 0;
+  int i, j;
   if (c1 == c2)
     return 1;
 
@@ -485,27 +485,23 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   if (c1->nb_statements != c2->nb_statements ||
       c1->nb_control != c2->nb_control || c1->nb_exit != c2->nb_exit)
     return 0;
-  i = 0;
-  while (comp == 0 && i < c1->nb_statements) {
-    comp = c1->nb_predicates[i] != c2->nb_predicates[i] ? 1 : 0;
-    i++;
+  for (i = 0; i < c1->nb_statements; i++) {
+    if (c1->nb_predicates[i] != c2->nb_predicates[i])
+      return 0;
+    for (j = 0; j < c1->nb_predicates[i]; j++)
+      if (c1->predicates[i][j] != c2->predicates[i][j])
+        return 0;
   }
-  if (comp != 0)
-    return 0;
 
-  i = 0;
-  while (comp == 0 && i < c1->nb_control + c1->nb_exit) {
-    comp += c1->nb_iterators[i] != c2->nb_iterators[i] ? 1 : 0;
-    comp += strcmp(c1->body[i], c2->body[i]);
-    j = 0;
-    while (comp == 0 && j < c1->nb_iterators[i]) {
-      comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]);
-      j++;
-    }
-    i++;
+  for (i = 0; i < c1->nb_control + c1->nb_exit; i++) {
+    if ((c1->nb_iterators[i] != c2->nb_iterators[i]) ||
+        strcmp(c1->body[i], c2->body[i]))
+      return 0;
+    for (j = 0; j < c1->nb_iterators[i]; j++)
+      if (strcmp(c1->iterators[i][j], c2->iterators[i][j]))
+        return 0;
   }
-  if (comp != 0)
-    return 0;
+
   return 1;
 }
 
-- 
2.43.0


From 01424a7ca3979a087716880f4ec00415c02baba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 69/95] fix: do not reuse the arguments list when the irregular
 buffer has to grow

---
 source/extensions/irregular.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index d042887..c481dc5 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -154,9 +154,10 @@ static void
 printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
               ...) {
   va_list va;
-  va_start(va, fmt);
   do {
+    va_start(va, fmt);
     int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);
+    va_end(va);
     if (printed < 0)
       OSL_error(
           "snprintf encountered an error while writing inside a local buffer");
@@ -168,7 +169,6 @@ printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
     OSL_realloc(*buf, char*, *buf_size * 2);
     *buf_size *= 2;
   } while (1);
-  va_end(va);
 }
 
 /**
-- 
2.43.0


From 09fd7c54b64bf64d8926ae6df021b7ab45eee579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 70/95] fix: osl_null_sread must consume its input

---
 source/extensions/null.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/null.c b/source/extensions/null.c
index 20f012e..3b8f91a 100644
--- a/source/extensions/null.c
+++ b/source/extensions/null.c
@@ -156,7 +156,7 @@ osl_null_t* osl_null_sread(char** input) {
   null = osl_null_malloc();
 
   // Update the input pointer (everything has been read and ignored).
-  input += strlen(*input);
+  *input += strlen(*input);
 
   return null;
 }
-- 
2.43.0


From 456b0416128d1ad520c8cc332e64f01ff6819ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 71/95] fix: osl_strings_add_strings must accept absent strings

---
 source/strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 46e943c..71a1a0e 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -497,8 +497,8 @@ void osl_strings_add_strings(osl_strings_t** const dest,
   struct osl_strings* res = NULL;
   unsigned int i = 0;
 
-  res = osl_strings_clone(str1);
-  while (str2->string[i] != NULL) {
+  res = str1 != NULL ? osl_strings_clone(str1) : osl_strings_malloc();
+  while (str2 != NULL && str2->string != NULL && str2->string[i] != NULL) {
     osl_strings_add(res, str2->string[i]);
     i++;
   }
-- 
2.43.0


From 87afd9298ef8925168e4f1cb2d51733b6ff94155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 72/95] fix: initialise the user pointer of relations and
 statements

---
 source/relation.c  | 1 +
 source/statement.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/relation.c b/source/relation.c
index 7e792a0..333ddd0 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1658,6 +1658,7 @@ osl_relation_t* osl_relation_pmalloc(int precision, int nb_rows,
   relation->nb_parameters = OSL_UNDEFINED;
   relation->nb_local_dims = OSL_UNDEFINED;
   relation->precision = precision;
+  relation->usr = NULL;
 
   if ((nb_rows == 0) || (nb_columns == 0) || (nb_rows == OSL_UNDEFINED) ||
       (nb_columns == OSL_UNDEFINED)) {
diff --git a/source/statement.c b/source/statement.c
index 3de955b..2bcbf70 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -494,6 +494,7 @@ osl_statement_t* osl_statement_malloc(void) {
   statement->scattering = NULL;
   statement->access = NULL;
   statement->extension = NULL;
+  statement->usr = NULL;
   statement->next = NULL;
 
   return statement;
-- 
2.43.0


From 4dbb41841c347b12c41ec132547333b5f10b1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 73/95] fix: reading an empty relation list must give an empty
 list

---
 source/relation_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/relation_list.c b/source/relation_list.c
index 4255793..8a42b7d 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -339,6 +339,10 @@ osl_relation_list_t* osl_relation_list_pread(FILE* const file, int precision) {
   if (nb_mat < 0)
     OSL_error("negative number of relations");
 
+  // An empty list has no element at all.
+  if (nb_mat == 0)
+    return NULL;
+
   // Allocate the header of the list and start reading each element.
   res = list = osl_relation_list_malloc();
   for (i = 0; i < nb_mat; ++i) {
-- 
2.43.0


From b2cbd77abcbf7c3ca438ffe758186417aface7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 74/95] fix: the SCoPLib compatibility check must answer on
 every scop

It dereferenced absent scops, domains and scatterings, stopped the program
instead of returning 0, and read every scattering with the precision of
the first one.
---
 source/scop.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index a4eca60..a119760 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -796,32 +796,38 @@ int osl_scop_integrity_check(const osl_scop_t* scop) {
  * \return 0 if the integrity check fails, 1 otherwise.
  */
 int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
+  if (scop == NULL)
+    return 1;
   if (!osl_scop_integrity_check(scop))
     return 0;
   if (scop->next != NULL)
     return 0;
-  if (scop == NULL || scop->statement == NULL)
-    return 1;
 
   osl_relation_p domain;
   osl_statement_p statement;
   osl_relation_p scattering;
-  int precision = scop->statement->scattering->precision;
+  int precision;
   int i, j;
 
   statement = scop->statement;
   while (statement != NULL) {
     scattering = statement->scattering;
 
+    if ((statement->domain == NULL) || (scattering == NULL)) {
+      OSL_warning("Missing domain or scattering matrix");
+      return 0;
+    }
+    precision = scattering->precision;
+
     if (scattering->nb_local_dims != 0) {
-      OSL_error("Local dims in scattering matrix");
+      OSL_warning("Local dims in scattering matrix");
       return 0;
     }
 
     domain = statement->domain;
     while (domain != NULL) {
       if (domain->nb_local_dims != 0) {
-        OSL_error("Local dims in domain matrix");
+        OSL_warning("Local dims in domain matrix");
         return 0;
       }
       domain = domain->next;
@@ -833,12 +839,12 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
       for (j = 0; j < scattering->nb_output_dims; j++) {
         if (i == j) {  // -1
           if (!osl_int_mone(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
+            OSL_warning("Wrong -Identity");
             return 0;
           }
         } else {  // 0
           if (!osl_int_zero(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
+            OSL_warning("Wrong -Identity");
             return 0;
           }
         }
-- 
2.43.0


From 26127001415204eb9039c4f2623911bc4d7dc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 75/95] fix: SCoPLib unions are a number of parts followed by
 the parts

The number of each part was printed between them, where a reader expects
the size of the matrix.
---
 source/relation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 333ddd0..36e9aae 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -989,7 +989,8 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
 
-    if (print_nth_part) {
+    // The number of parts is already there for unions.
+    if (print_nth_part && nb_parts == 1) {
       snprintf(buffer, OSL_MAX_STRING, "%d\n", part);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
-- 
2.43.0


From 1574503e1d082ce4bae4f16226e7445026ed6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 76/95] fix: SCoPLib may-write accesses are access rows like
 the other ones

---
 source/relation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 36e9aae..19b81e2 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -970,9 +970,9 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
   }
 
-  is_access_array =
-      (relation->type == OSL_TYPE_READ || relation->type == OSL_TYPE_WRITE ? 1
-                                                                           : 0);
+  is_access_array = relation->type == OSL_TYPE_READ ||
+                    relation->type == OSL_TYPE_WRITE ||
+                    relation->type == OSL_TYPE_MAY_WRITE;
 
   // Print each part of the union.
 
-- 
2.43.0


From 4e9552168f718fe87911835829a3420de3f2c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 77/95] fix: print SCoPLib parameter names only when there are
 such names

---
 source/scop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index a119760..fe571c7 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -355,7 +355,7 @@ void osl_scop_print_scoplib(FILE* const file, const osl_scop_t* scop) {
         file, osl_generic_has_URI(scop->parameters, OSL_URI_STRINGS),
         "Parameters are");
 
-    if (scop->parameters) {
+    if (osl_generic_has_URI(scop->parameters, OSL_URI_STRINGS)) {
       fprintf(file, "# Parameter names\n");
       osl_strings_print(file, scop->parameters->data);
     }
-- 
2.43.0


From dbd9fd5bf8e685b25e842dae5c49fef03c180e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 78/95] fix: a SCoPLib statement without accesses has two empty
 access matrices

The text announced access information and printed only a comment.
---
 source/relation_list.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index 8a42b7d..76713b3 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -271,7 +271,8 @@ void osl_relation_list_pprint_access_array_scoplib(
       }
     }
   } else {
-    fprintf(file, "# NULL relation list\n");
+    fprintf(file, "# Read access informations\n0 0\n");
+    fprintf(file, "# Write access informations\n0 0\n");
   }
 }
 
-- 
2.43.0


From 57c9b233e32a131ede04892e6eee0ba3a9098c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 79/95] fix: SCoPLib fake iterators are for statements without
 iterators

A statement with iterators and an unconstrained domain got one as well,
and absent domains and scatterings were dereferenced.
---
 source/statement.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/statement.c b/source/statement.c
index 2bcbf70..246d88a 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -303,8 +303,11 @@ void osl_statement_pprint_scoplib(FILE* const file,
       names->iterators = body->iterators;
     }
 
+    // A fake iterator is only for statements without any iterator.
     add_fakeiter =
-        statement->domain->nb_rows == 0 && statement->scattering->nb_rows == 1;
+        statement->domain != NULL && statement->domain->nb_rows == 0 &&
+        statement->domain->nb_output_dims == 0 &&
+        statement->scattering != NULL && statement->scattering->nb_rows == 1;
 
     fprintf(file, "# =============================================== ");
     fprintf(file, "Statement %d\n", number);
-- 
2.43.0


From 1ba638b1e897d5f7668a39be8593ca4bedae04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 80/95] fix: osl_strings_add_strings is declared for absent
 strings too

The compiler removed the tests for absent operands because of the
declaration.
---
 include/osl/strings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osl/strings.h b/include/osl/strings.h
index 5f3b2a3..320a486 100644
--- a/include/osl/strings.h
+++ b/include/osl/strings.h
@@ -123,7 +123,7 @@ osl_interface_t* osl_strings_interface(void) OSL_WARN_UNUSED_RESULT;
 osl_strings_t* osl_strings_generate(const char*,
                                     int) OSL_WARN_UNUSED_RESULT OSL_NONNULL;
 void osl_strings_add_strings(osl_strings_t**, const osl_strings_t*,
-                             const osl_strings_t*) OSL_NONNULL;
+                             const osl_strings_t*) OSL_NONNULL_ARGS(1);
 
 #if defined(__cplusplus)
 }
-- 
2.43.0


From 0dfd4ddd7e727ef4fe45090b9b67a5439c5576f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 81/95] fix: checking the number of columns does not overflow

---
 source/relation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 19b81e2..5959622 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2456,7 +2456,7 @@ int osl_relation_check_nb_columns(const osl_relation_t* relation,
                                   int expected_nb_output_dims,
                                   int expected_nb_input_dims,
                                   int expected_nb_parameters) {
-  int expected_nb_local_dims, expected_nb_columns;
+  long long expected_nb_local_dims, expected_nb_columns;
 
   if ((expected_nb_output_dims != OSL_UNDEFINED) &&
       (expected_nb_input_dims != OSL_UNDEFINED) &&
@@ -2466,8 +2466,8 @@ int osl_relation_check_nb_columns(const osl_relation_t* relation,
     else
       expected_nb_local_dims = relation->nb_local_dims;
 
-    expected_nb_columns = expected_nb_output_dims + expected_nb_input_dims +
-                          expected_nb_local_dims + expected_nb_parameters + 2;
+    expected_nb_columns = expected_nb_local_dims + expected_nb_output_dims +
+                          expected_nb_input_dims + expected_nb_parameters + 2;
 
     if (expected_nb_columns != relation->nb_columns) {
       OSL_warning("unexpected number of columns");
-- 
2.43.0


From 9823576c004d3266eb90071cf80e9ce06435d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 82/95] fix: missing statement extensions at the end of a file
 are an error

---
 source/statement.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/statement.c b/source/statement.c
index 246d88a..c388605 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -454,6 +454,8 @@ osl_statement_t* osl_statement_pread(FILE* const file,
     nb_ext = osl_util_read_int(file, NULL);
     for (i = 0; i < nb_ext; i++) {
       new = osl_generic_read_one(file, registry);
+      if (new == NULL && i + 1 < nb_ext && feof(file))
+        OSL_error("not enough statement extensions");
       osl_generic_add(&stmt->extension, new);
     }
   }
-- 
2.43.0


From e54a9377098b3be7c7011032ba93fff3832a1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 83/95] fix: osl_relation_psread_polylib does not cut long
 attribute lines

---
 source/relation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 5959622..9d3f22a 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1514,7 +1514,7 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
   int may_read_nb_union_parts = 1;
   int read_attributes = 1;
   int first = 1;
-  char str[OSL_MAX_STRING], *tmp;
+  char *str, *tmp;
   osl_relation_p relation, relation_union = NULL, previous = NULL;
 
   // Read each part of the union (the number of parts may be updated inside)
@@ -1531,14 +1531,14 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
         tmp++;
         row_size += 1;
       }
-      if (row_size >= OSL_MAX_STRING)
-        row_size = OSL_MAX_STRING - 1;
+      OSL_malloc(str, char*, row_size + 1);
       strncpy(str, *input, sizeof(char) * row_size);
       str[row_size] = '\0';
 
       read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
+      free(str);
       *input = tmp;
 
       if (((read != 1) && (read != 6)) ||
-- 
2.43.0


From 91725f0b0dbfbb90b01d3c9e539983db003df5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:52 +0000
Subject: [PATCH 84/95] fix: no SCoPLib fake iterator for union domains

---
 source/statement.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/statement.c b/source/statement.c
index c388605..18606a7 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -307,6 +307,7 @@ void osl_statement_pprint_scoplib(FILE* const file,
     add_fakeiter =
         statement->domain != NULL && statement->domain->nb_rows == 0 &&
         statement->domain->nb_output_dims == 0 &&
+        statement->domain->next == NULL &&
         statement->scattering != NULL && statement->scattering->nb_rows == 1;
 
     fprintf(file, "# =============================================== ");
-- 
2.43.0


From 4e74571974a0b96702c4dbf7fb839fb7c5fc35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 85/95] fix: the SCoPLib compatibility check refuses what
 cannot be exported

---
 source/scop.c | 67 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/source/scop.c b/source/scop.c
index fe571c7..4d452df 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -788,6 +788,45 @@ int osl_scop_integrity_check(const osl_scop_t* scop) {
   return 1;
 }
 
+/**
+ * osl_scop_access_is_scoplib internal function:
+ * this function checks that an access relation can be written as an array
+ * identifier followed by one function per dimension, which is the only form
+ * that exists in the SCoPLib format.
+ * \param[in] access The access relation to check.
+ * \return 0 if the access has another form, 1 otherwise.
+ */
+static int osl_scop_access_is_scoplib(const osl_relation_t* access) {
+  int i, j;
+
+  if (access->type != OSL_TYPE_READ && access->type != OSL_TYPE_WRITE &&
+      access->type != OSL_TYPE_MAY_WRITE)
+    return 0;
+
+  if (access->next != NULL || access->nb_local_dims != 0 ||
+      access->nb_rows < 1 || access->nb_rows != access->nb_output_dims)
+    return 0;
+
+  for (i = 0; i < access->nb_rows; i++) {
+    if (!osl_int_zero(access->precision, access->m[i][0]))
+      return 0;
+
+    // The output dimensions are -Identity and the array has no dimension.
+    for (j = 0; j < access->nb_columns - 1; j++) {
+      if (j > access->nb_output_dims && i > 0)
+        break;
+      if (j == i + 1) {
+        if (!osl_int_mone(access->precision, access->m[i][j]))
+          return 0;
+      } else if (!osl_int_zero(access->precision, access->m[i][j])) {
+        return 0;
+      }
+    }
+  }
+
+  return 1;
+}
+
 /**
  * osl_scop_check_compatible_scoplib function:
  * This function checks that a scop is "well formed". It returns 0 if the
@@ -806,9 +845,16 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
   osl_relation_p domain;
   osl_statement_p statement;
   osl_relation_p scattering;
+  osl_relation_list_p access;
   int precision;
   int i, j;
 
+  if ((scop->context == NULL) || (scop->context->next != NULL) ||
+      (scop->context->nb_local_dims != 0)) {
+    OSL_warning("Context is not a single matrix without local dims");
+    return 0;
+  }
+
   statement = scop->statement;
   while (statement != NULL) {
     scattering = statement->scattering;
@@ -824,6 +870,12 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
       return 0;
     }
 
+    if ((scattering->next != NULL) ||
+        (scattering->nb_rows != scattering->nb_output_dims)) {
+      OSL_warning("Scattering is not a single function");
+      return 0;
+    }
+
     domain = statement->domain;
     while (domain != NULL) {
       if (domain->nb_local_dims != 0) {
@@ -836,6 +888,11 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
     // Check if there is only the -Identity in the output_dims
     // and the lines MUST be in the right order
     for (i = 0; i < scattering->nb_rows; i++) {
+      if (!osl_int_zero(precision, scattering->m[i][0])) {
+        OSL_warning("Inequality in scattering matrix");
+        return 0;
+      }
+
       for (j = 0; j < scattering->nb_output_dims; j++) {
         if (i == j) {  // -1
           if (!osl_int_mone(precision, scattering->m[i][j + 1])) {
@@ -851,6 +908,16 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
       }
     }
 
+    access = statement->access;
+    while (access != NULL) {
+      if ((access->elt != NULL) && !osl_scop_access_is_scoplib(access->elt)) {
+        OSL_warning("Access is not an array and its subscripts");
+        return 0;
+      }
+
+      access = access->next;
+    }
+
     statement = statement->next;
   }
 
-- 
2.43.0


From d41346bc0feeddb751cb798aa5937cea877bd249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 86/95] fix: announced rows without columns are an error in
 strings too

---
 source/relation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/relation.c b/source/relation.c
index 9d3f22a..a6b06a1 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1558,6 +1558,10 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       may_read_nb_union_parts = 0;
     }
 
+    // Rows without columns have no text to read.
+    if (nb_rows > 0 && nb_columns == 0)
+      OSL_error("not enough columns");
+
     // Allocate the union part and fill its properties.
     relation = osl_relation_pmalloc(precision, nb_rows, nb_columns);
     relation->nb_output_dims = nb_output_dims;
-- 
2.43.0


From 6d40c193e90faba7b21d506ae3a7b3b38afdf127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:12 +0000
Subject: [PATCH 87/95] fix: a zero byte at the start of a line does not make
 the reader look before its buffer

---
 source/util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index ff7140d..60b0ccf 100644
--- a/source/util.c
+++ b/source/util.c
@@ -127,7 +127,8 @@ char* osl_util_read_data_line(FILE* file, char** line) {
     (*line)[0] = '\0';
     while (fgets(buffer, OSL_MAX_STRING, file) != NULL) {
       osl_util_safe_strcat(line, buffer, &high_water_mark);
-      if (buffer[strlen(buffer) - 1] == '\n')
+      // A zero byte in the input ends what has been stored in the buffer.
+      if (strchr(buffer, '\n') != NULL)
         break;
     }
 
-- 
2.43.0


From e21f775b35696f5815f4a53361a97c8f31be4d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 88/95] fix: a comment behind a string is not a part of the
 string in files either

---
 source/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index 60b0ccf..b747c2e 100644
--- a/source/util.c
+++ b/source/util.c
@@ -233,7 +233,7 @@ char* osl_util_read_string(FILE* file, char** str) {
     OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (start == NULL || sscanf(start, " %s", res) != 1)
+    if (start == NULL || sscanf(start, " %[^# \t\n\v\f\r]", res) != 1)
       OSL_error("a string was expected");
   } else {
     // Parse from a string.
-- 
2.43.0


From 9ade8ef365c88924f89352906b05ab7c6e3c05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:16 +0000
Subject: [PATCH 89/95] fix: an integer which does not fit an int is an error,
 not another number

---
 source/util.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/source/util.c b/source/util.c
index b747c2e..2c236cd 100644
--- a/source/util.c
+++ b/source/util.c
@@ -59,6 +59,8 @@
  ******************************************************************************/
 
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -169,6 +171,27 @@ void osl_util_sskip_blank_and_comments(char** str) {
   } while (*str && **str && **str == '\n');
 }
 
+/**
+ * osl_util_sread_int internal function:
+ * reads an int at the beginning of a string (spaces are skipped).
+ * \param[in]  str The string where to read an int.
+ * \param[out] res The int that has been read.
+ * \return 1 if the string starts with an integer which fits an int, 0 if not.
+ */
+static int osl_util_sread_int(const char* str, int* res) {
+  char* end;
+  long long int value;
+
+  errno = 0;
+  value = strtoll(str, &end, 10);
+  if ((end == str) || (errno == ERANGE) || (value < INT_MIN) ||
+      (value > INT_MAX))
+    return 0;
+
+  *res = (int)value;
+  return 1;
+}
+
 /**
  * osl_util_read_int function:
  * reads an int on the input 'file' or the input string 'str' depending on
@@ -190,7 +213,7 @@ int osl_util_read_int(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (start == NULL || sscanf(start, " %d", &res) != 1)
+    if (start == NULL || !osl_util_sread_int(start, &res))
       OSL_error("an int was expected");
   } else {
     // Parse from a string.
@@ -204,7 +227,7 @@ int osl_util_read_int(FILE* file, char** str) {
       s[i++] = *((*str)++);
     }
     s[i] = '\0';
-    if (sscanf(s, "%d", &res) != 1)
+    if (!osl_util_sread_int(s, &res))
       OSL_error("an int was expected");
   }
 
-- 
2.43.0


From 0bac01d78c73d24730922bb6a0c0b12a77105c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:56 +0000
Subject: [PATCH 90/95] fix: reading an irregular extension stops at the end of
 its text instead of following a missing word

---
 source/extensions/irregular.c | 55 ++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index c481dc5..8f33313 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -58,6 +58,7 @@
  *                                                                            *
  ******************************************************************************/
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -255,32 +256,25 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
  * this function reads a irregular structure from a string complying to the
  * OpenScop textual format and returns a pointer to this irregular structure.
  * The string should contain only one textual format of a irregular structure.
- * \param  extensions The input string where to find a irregular structure.
+ * \param[in,out] input The input string where to find a irregular structure.
+ *                      Updated to the position after what has been read.
  * \return A pointer to the irregular structure that has been read.
  */
-osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
-  char *content, *tok;
-  int i, j;
+osl_irregular_t* osl_irregular_sread(char** input) {
+  int i, j, nb_predicates;
   osl_irregular_p irregular;
 
-  // FIXME: this is a quick and dirty thing to accept char ** instead
-  //        of char * in the parameter: really do it and update the
-  //        pointer to after what has been read.
-  content = *extensions_fixme;
-
-  if (content == NULL) {
+  if (*input == NULL) {
     OSL_debug("no irregular optional tag");
     return NULL;
   }
 
-  if (strlen(content) > OSL_MAX_STRING)
-    OSL_error("irregular too long");
-
   irregular = osl_irregular_malloc();
 
   // nb statements
-  tok = strtok(content, " \n");
-  irregular->nb_statements = atoi(tok);
+  irregular->nb_statements = osl_util_read_int(NULL, input);
+  if (irregular->nb_statements < 0)
+    OSL_error("negative number of statements");
   OSL_malloc(irregular->predicates, int**,
              sizeof(int*) * irregular->nb_statements);
   OSL_malloc(irregular->nb_predicates, int*,
@@ -289,23 +283,23 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
   // get predicats
   for (i = 0; i < irregular->nb_statements; i++) {
     // nb conditions
-    tok = strtok(NULL, " \n");
-    irregular->nb_predicates[i] = atoi(tok);
+    irregular->nb_predicates[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_predicates[i] < 0)
+      OSL_error("negative number of predicates");
     OSL_malloc(irregular->predicates[i], int*,
                sizeof(int) * irregular->nb_predicates[i]);
-    for (j = 0; j < irregular->nb_predicates[i]; j++) {
-      tok = strtok(NULL, " \n");
-      irregular->predicates[i][j] = atoi(tok);
-    }
+    for (j = 0; j < irregular->nb_predicates[i]; j++)
+      irregular->predicates[i][j] = osl_util_read_int(NULL, input);
   }
   // Get nb predicat
   // control and exits :
-  tok = strtok(NULL, " \n");
-  irregular->nb_control = atoi(tok);
-  tok = strtok(NULL, " \n");
-  irregular->nb_exit = atoi(tok);
+  irregular->nb_control = osl_util_read_int(NULL, input);
+  irregular->nb_exit = osl_util_read_int(NULL, input);
+  if (irregular->nb_control < 0 || irregular->nb_exit < 0 ||
+      irregular->nb_exit > INT_MAX - irregular->nb_control)
+    OSL_error("invalid number of control or exit predicates");
 
-  int nb_predicates = irregular->nb_control + irregular->nb_exit;
+  nb_predicates = irregular->nb_control + irregular->nb_exit;
 
   OSL_malloc(irregular->iterators, char***, sizeof(char**) * nb_predicates);
   OSL_malloc(irregular->nb_iterators, int*, sizeof(int) * nb_predicates);
@@ -313,16 +307,17 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
 
   for (i = 0; i < nb_predicates; i++) {
     // Get number of iterators
-    tok = strtok(NULL, " \n");
-    irregular->nb_iterators[i] = atoi(tok);
+    irregular->nb_iterators[i] = osl_util_read_int(NULL, input);
+    if (irregular->nb_iterators[i] < 0)
+      OSL_error("negative number of iterators");
     OSL_malloc(irregular->iterators[i], char**,
                sizeof(char*) * irregular->nb_iterators[i]);
 
     // Get iterators
     for (j = 0; j < irregular->nb_iterators[i]; j++)
-      OSL_strdup(irregular->iterators[i][j], strtok(NULL, " \n"));
+      irregular->iterators[i][j] = osl_util_read_string(NULL, input);
     // Get predicat string
-    OSL_strdup(irregular->body[i], strtok(NULL, "\n"));
+    irregular->body[i] = osl_util_read_line(NULL, input);
   }
 
   return irregular;
-- 
2.43.0


From 3b751f22e604ea0e0a27a9f041c554205b9a506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:58 +0000
Subject: [PATCH 91/95] fix: the text of an irregular extension has no tags of
 its own, the list prints them

---
 source/extensions/irregular.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 8f33313..8d0ed3c 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -190,14 +190,12 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
-    // Print the begin tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_START, &high_water_mark);
     size_t buf_offset = 0;
     size_t buf_size = OSL_MAX_STRING;
     OSL_malloc(buffer, char*, OSL_MAX_STRING * sizeof(char));
 
     // Print the content.
-    printf_in_buf(&buffer, &buf_size, &buf_offset, "\n%d\n",
+    printf_in_buf(&buffer, &buf_size, &buf_offset, "%d\n",
                   irregular->nb_statements);
     for (i = 0; i < irregular->nb_statements; i++) {
       printf_in_buf(&buffer, &buf_size, &buf_offset, "%d ",
@@ -235,10 +233,6 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
 
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    // Print the end tag.
-    osl_util_safe_strcat(&string, OSL_TAG_IRREGULAR_STOP "\n",
-                         &high_water_mark);
-
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
     free(buffer);
-- 
2.43.0


From fa625605d639505b808245af8ac96630b72bf64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:16 +0000
Subject: [PATCH 92/95] fix: dumping a first interface without URI does not
 print a null string

---
 source/interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interface.c b/source/interface.c
index 9877f8a..8834374 100644
--- a/source/interface.c
+++ b/source/interface.c
@@ -106,7 +106,8 @@ void osl_interface_idump(FILE* const file, const osl_interface_t* interface,
     fprintf(file, "|\t");
 
   if (interface != NULL)
-    fprintf(file, "+-- osl_interface_t: URI = %s\n", interface->URI);
+    fprintf(file, "+-- osl_interface_t: URI = %s\n",
+            interface->URI != NULL ? interface->URI : "(NULL)");
   else
     fprintf(file, "+-- NULL interface\n");
 
-- 
2.43.0


From 4aea37a40a2fb256df1e229bbaa9dac37262b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:34 +0000
Subject: [PATCH 93/95] fix: dumping a loop, an unrolling or a SCoP without
 some of its texts does not print a null string

---
 source/extensions/loop.c         | 9 ++++++---
 source/extensions/pluto_unroll.c | 3 ++-
 source/scop.c                    | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 0125be9..554dc71 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -118,7 +118,8 @@ void osl_loop_idump(FILE* const file, const osl_loop_t* loop, int level) {
     // Display the number of names.
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
-    fprintf(file, "+--iterator: %s\n", loop->iter);
+    fprintf(file, "+--iterator: %s\n",
+            loop->iter != NULL ? loop->iter : "(NULL)");
 
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
@@ -136,7 +137,8 @@ void osl_loop_idump(FILE* const file, const osl_loop_t* loop, int level) {
 
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
-    fprintf(file, "+--private_vars: %s\n", loop->private_vars);
+    fprintf(file, "+--private_vars: %s\n",
+            loop->private_vars != NULL ? loop->private_vars : "(NULL)");
 
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
@@ -144,7 +146,8 @@ void osl_loop_idump(FILE* const file, const osl_loop_t* loop, int level) {
 
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
-    fprintf(file, "+--user: %s\n", loop->user);
+    fprintf(file, "+--user: %s\n",
+            loop->user != NULL ? loop->user : "(NULL)");
 
     loop = loop->next;
     number++;
diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index b96c7c7..eff5260 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -113,7 +113,8 @@ void osl_pluto_unroll_idump(FILE* const file,
     // Display the names of iterators.
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
-    fprintf(file, "+--iterator: %s\n", pluto_unroll->iter);
+    fprintf(file, "+--iterator: %s\n",
+            pluto_unroll->iter != NULL ? pluto_unroll->iter : "(NULL)");
 
     // Display the names of iterators.
     for (j = 0; j <= level; j++)
diff --git a/source/scop.c b/source/scop.c
index 4d452df..f48db84 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -127,7 +127,8 @@ void osl_scop_idump(FILE* const file, const osl_scop_t* scop, int level) {
     // Print the language.
     for (j = 0; j < level; j++)
       fprintf(file, "|\t");
-    fprintf(file, "|\tLanguage: %s\n", scop->language);
+    fprintf(file, "|\tLanguage: %s\n",
+            scop->language != NULL ? scop->language : "(NULL)");
 
     // A blank line.
     for (j = 0; j <= level + 1; j++)
-- 
2.43.0


From c25c258b956b90e17dd0829373c955d681782d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:27 +0000
Subject: [PATCH 94/95] fix: substituting an empty identifier never ended

---
 source/util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/util.c b/source/util.c
index 2c236cd..5fc34d0 100644
--- a/source/util.c
+++ b/source/util.c
@@ -635,6 +635,10 @@ static int osl_util_identifier_is_here(const char* expression,
   size_t identifier_len = strlen(identifier);
   size_t expression_len = strlen(expression);
 
+  // An empty identifier is nowhere.
+  if (identifier_len == 0)
+    return 0;
+
   // If there is no space enough to find the identifier: no.
   if (identifier_len + index > expression_len)
     return 0;
-- 
2.43.0


From 51d20e8214ee0e5c7dc3a404433c5acdf0a30dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:34 +0000
Subject: [PATCH 95/95] fix: an identifier after a unary plus was put without
 parentheses

---
 source/util.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/util.c b/source/util.c
index 5fc34d0..6221b3b 100644
--- a/source/util.c
+++ b/source/util.c
@@ -704,6 +704,17 @@ static int osl_util_lazy_isolated_identifier(const char* expression,
       (expression[look] != '=') && (expression[look] != ','))
     return 0;
 
+  // If this is a unary plus (there is no operand before it): no.
+  if ((look < index) && (expression[look] == '+')) {
+    while ((look > 0) && isspace(expression[look - 1]))
+      look--;
+
+    if ((look == 0) ||
+        ((expression[look - 1] != ')') && (expression[look - 1] != ']') &&
+         (expression[look - 1] != '_') && !isalnum(expression[look - 1])))
+      return 0;
+  }
+
   // If the first non-space character after is not in [\]),;\+]: no.
   look = index + identifier_len;
   while (look < expression_len) {
-- 
2.43.0

