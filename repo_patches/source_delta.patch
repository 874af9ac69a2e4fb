From 2c88d124d203d65b141da9011a82e64438f88b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 01/58] fix: _Decimal128 add/sub: directed rounding of an exact
 half ulp of 20+ digits

When the smaller operand is exactly half an ulp of the larger one and has
20 or more digits, the UPWARD and DOWNWARD cases looked only at the sign
of the smaller operand, so that -1E33 + -0.5 rounded DOWNWARD lost an ulp.
Use the same conditions as the branch for up to 19 digits.
---
 libbid/bid128_add.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libbid/bid128_add.c b/libbid/bid128_add.c
index 986ef53..ba678be 100644
--- a/libbid/bid128_add.c
+++ b/libbid/bid128_add.c
@@ -1392,7 +1392,8 @@ bid128_add (UINT128 x, UINT128 y
 	      }
 	      if (rnd_mode != ROUNDING_TO_NEAREST) {
 		if ((rnd_mode == ROUNDING_TIES_AWAY && x_sign == y_sign)
-		    || (rnd_mode == ROUNDING_UP && !y_sign)) {
+		    || (rnd_mode == ROUNDING_UP && !x_sign && !y_sign)
+		    || (rnd_mode == ROUNDING_DOWN && x_sign && y_sign)) {
 		  // add 1 ulp and then check for overflow
 		  C1_lo = C1_lo + 1;
 		  if (C1_lo == 0) {	// rounding overflow in the low 64 bits
@@ -1412,7 +1413,8 @@ bid128_add (UINT128 x, UINT128 y
 		      *pfpsf |= OVERFLOW_EXCEPTION;
 		    }
 		  }
-		} else if ((rnd_mode == ROUNDING_DOWN && y_sign)
+		} else if ((rnd_mode == ROUNDING_DOWN && !x_sign && y_sign)
+			   || (rnd_mode == ROUNDING_UP && x_sign && !y_sign)
 			   || (rnd_mode == ROUNDING_TO_ZERO
 			       && x_sign != y_sign)) {
 		  // subtract 1 ulp from C1
-- 
2.43.0


From 896c32027fd398487dacdaa5abb603f1e319ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 02/58] fix: BID->DPD conversion of non-canonical
 _Decimal64/_Decimal128 encodings

A coefficient above 10^p-1 reads as zero (IEEE 754-2008 3.5.2), as the
_Decimal32 conversion and the BID arithmetic already treat it.
---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 63d3cec..1349123 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -189,6 +189,8 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
   if ((comb & 0xc00) == 0xc00) { /* G0..G1 = 11 -> exp is G2..G11 */
     exp = (comb) & 0x3ff;
     bcoeff = (x & 0x0007ffffffffffffull) | 0x0020000000000000ull;
+    if (bcoeff >= 10000000000000000ull) /* Non-canonical: reads as zero.  */
+      bcoeff = 0;
   } else {
     exp = (comb >> 2) & 0x3ff;
     bcoeff = (x & 0x001fffffffffffffull);
@@ -301,6 +303,14 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
     exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
     bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
     bcoeff.w[0] = x.w[0];
+    /* Non-canonical: reads as zero.  */
+    if ((comb & 0x18000) == 0x18000) { /* G0..G1 = 11 -> exp is G2..G15 */
+      exp = ((x.w[1] & 0x1fff800000000000ull) >> 47);
+      bcoeff.w[1] = bcoeff.w[0] = 0;
+    } else if (bcoeff.w[1] > 0x0001ed09bead87c0ull
+	       || (bcoeff.w[1] == 0x0001ed09bead87c0ull
+		   && bcoeff.w[0] > 0x378d8e63ffffffffull))
+      bcoeff.w[1] = bcoeff.w[0] = 0;
     d1018 = reciprocals10_128[18];
     __mul_128x128_high (BH, bcoeff, d1018);
     amount = recip_scale[18];
-- 
2.43.0


From 1eb3f1495acf9d999f6d2c7c36f59e7a3dc60956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 03/58] fix: fdim rounds its result in the current decimal
 rounding mode

---
 ieee754r/fdimd32.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ieee754r/fdimd32.c b/ieee754r/fdimd32.c
index 6109c71..131d71a 100644
--- a/ieee754r/fdimd32.c
+++ b/ieee754r/fdimd32.c
@@ -59,6 +59,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   if (decNumberIsNegative(&dn_result) || decNumberIsZero(&dn_result))
     return 0;
 
+  context.round = __dn_getround ();
   decNumberSubtract (&dn_result, &dn_x, &dn_y, &context);
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
-- 
2.43.0


From 4087857b564780cb572bf17f8c348972a0a430c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 04/58] fix: logb of values just below a power of ten

log10 rounded up to the next integer for e.g. 999999DF; take the exponent
from the representation instead.
---
 ieee754r/logbd32.c | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/ieee754r/logbd32.c b/ieee754r/logbd32.c
index 948e980..196ca86 100644
--- a/ieee754r/logbd32.c
+++ b/ieee754r/logbd32.c
@@ -33,8 +33,6 @@
 #include <math.h>
 #include <errno.h>
 
-#include <decNumberMath.h>
-
 #define FUNCTION_NAME logb
 
 #include <dfpmacro.h>
@@ -46,11 +44,6 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_tmp;
-  decNumber dn_log10;
-  decNumber dn_one;
-  decNumber dn_cmp;
-  enum rounding round;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   if (decNumberIsNaN (&dn_x))
@@ -66,27 +59,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   if (decNumberIsInfinite (&dn_x) && decNumberIsNegative (&dn_x))
     return -x;
 
+  /* For DFP, we use radix 10 instead of whatever FLT_RADIX happens to be.
+     The exponent is exact, going through log10 is not.  */
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberAbs (&dn_tmp, &dn_x, &context);
-  /*  For DFP, we use radix 10 instead of whatever FLT_RADIX
-      happens to be */
-  decNumberLog10 (&dn_log10, &dn_tmp, &context);
-
-  /* Capture the case where truncation will return the wrong result,
-     by rounding up if -1.0 < x < 1.0  */
-  round = DEC_ROUND_DOWN;
-  decNumberFromInt32 (&dn_one, 1);
-  decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-  if (-decNumberIsNegative(&dn_cmp))
-    {
-      decNumberFromInt32 (&dn_one, -1);
-      decNumberCompare (&dn_cmp, &dn_x, &dn_one, &context);
-      if (!decNumberIsNegative(&dn_cmp) && !decNumberIsZero(&dn_cmp))
-	round = DEC_ROUND_UP;
-    }
-  context.round = round;
-
-  decNumberToIntegralValue (&dn_result, &dn_log10, &context);
+  decNumberFromInt32 (&dn_result, dn_x.digits + dn_x.exponent - 1);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From 8a37fa1272dcd5e27aa7a3ec89d2c566387453d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 05/58] fix: frexp of zero stores a zero exponent

---
 ieee754r/frexpd32.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ieee754r/frexpd32.c b/ieee754r/frexpd32.c
index ece6582..63629eb 100644
--- a/ieee754r/frexpd32.c
+++ b/ieee754r/frexpd32.c
@@ -54,6 +54,12 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, int *y)
   if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x))
     return x+x;
 
+  if (x == 0)
+    {
+      *y = 0;
+      return x;
+    }
+
   // Given 3.1e0 is encoded as 31e-1 and we want .31e1
   // We have 2 'digits'.
 
-- 
2.43.0


From 5eb535a2e9aecf73deb19963376b1cd268b3da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 06/58] fix: scalbn/scalbln with an exponent beyond 2*(p+emax)

The result was NaN (scalbn) or, past 10^9, the unscaled argument (scalbln)
instead of an overflow or underflow.
---
 ieee754r/scalblnd32.c | 17 ++++++++++-------
 ieee754r/scalbnd32.c  |  8 ++++++++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..aa20365 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -66,13 +66,16 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
+  /* Beyond this decNumberScaleB is an invalid operation, not an overflow
+     or underflow.  */
+  if (y > 2 * (context.digits + context.emax))
+    y = 2 * (context.digits + context.emax);
+  else if (y < -2 * (context.digits + context.emax))
+    y = -2 * (context.digits + context.emax);
+  context.round = __dn_getround ();
+
+  decNumberFromInt32(&dn_y, (int)y);
+  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..3c0bce3 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -67,6 +67,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
+  /* Beyond this decNumberScaleB is an invalid operation, not an overflow
+     or underflow.  */
+  if (y > 2 * (context.digits + context.emax))
+    y = 2 * (context.digits + context.emax);
+  else if (y < -2 * (context.digits + context.emax))
+    y = -2 * (context.digits + context.emax);
+  context.round = __dn_getround ();
+
   decNumberFromInt32(&dn_y, y);
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
-- 
2.43.0


From 1fae5cfb8921519581dac96f2b0acc6235a0979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 07/58] fix: quantum of a zero is 1 x 10^exponent like that of
 any finite number

---
 ieee754r/quantumd128.c | 2 +-
 ieee754r/quantumd32.c  | 2 +-
 ieee754r/quantumd64.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ieee754r/quantumd128.c b/ieee754r/quantumd128.c
index b7c9eb9..314535b 100644
--- a/ieee754r/quantumd128.c
+++ b/ieee754r/quantumd128.c
@@ -38,7 +38,7 @@ __quantumd128 (_Decimal128 x)
   _Decimal128 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd32.c b/ieee754r/quantumd32.c
index 36e6c5f..10d6416 100644
--- a/ieee754r/quantumd32.c
+++ b/ieee754r/quantumd32.c
@@ -38,7 +38,7 @@ __quantumd32 (_Decimal32 x)
   _Decimal32 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
diff --git a/ieee754r/quantumd64.c b/ieee754r/quantumd64.c
index 42311a5..f2e1953 100644
--- a/ieee754r/quantumd64.c
+++ b/ieee754r/quantumd64.c
@@ -38,7 +38,7 @@ __quantumd64 (_Decimal64 x)
   _Decimal64 result;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
+  if (decNumberIsNaN (&dn_x))
     return x;
   if (decNumberIsInfinite (&dn_x))
     return DEC_INFINITY;
-- 
2.43.0


From 4170473c75e8d8c1616a90408836264f0a47207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 08/58] fix: ldexp of zeros, infinities and NaNs, near the
 format's exponent limits

The exponent field was patched in place: infinities and NaNs came out as
other values, results past the largest coefficient exponent wrapped,
subnormal results lost their sign or became 0.0.
---
 ieee754r/ldexpd32.c | 54 ++++++++++-----------------------------------
 1 file changed, 12 insertions(+), 42 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..146f2b5 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -37,69 +37,39 @@
 #define FUNCTION_NAME ldexp
 
 #include <dfpmacro.h>
-#include <numdigits.h>
-#include <limits.h>
-
-#include "dfp_inline.h"
 
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
+  DEC_TYPE result;
   long newexp;
-  int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
-  int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
-
-#if NUMDIGITS_SUPPORT==1
-  newexp = FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
-    {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
-    }
-  else if (newexp < minexp)
-    {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
-    }
-  else
-    result = FUNC_D(setexp) (x, newexp);
-
-#else
   decContext context;
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (___decNumberIsNaN (&dn_x) || ___decNumberIsZero (&dn_x) ||
-	___decNumberIsInfinite (&dn_x))
+  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x) ||
+	decNumberIsInfinite (&dn_x))
     return x+x;
   if (y == 0)
     return x;
 
   /* ldexp(x,y) is just x*10**y, which is equivalent to increasing the exponent
    * by y.  */
-  newexp = dn_x.exponent + y;
-  if(newexp > INT_MAX)
-    newexp = INT_MAX;
-  if(newexp < -INT_MAX)
-    newexp = -INT_MAX;
+  decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
+  newexp = (long) dn_x.exponent + y;
+  if (newexp > 2 * context.emax)
+    newexp = 2 * context.emax;
+  if (newexp < 2 * context.emin)
+    newexp = 2 * context.emin;
   dn_x.exponent = newexp;
 
-  decContextDefault (&context, DEFAULT_CONTEXT);
   FUNC_CONVERT_FROM_DN (&dn_x, &result, &context);
 
   if (context.status & DEC_Overflow)
     DFP_EXCEPT (FE_OVERFLOW);
-#endif
+  if (context.status & DEC_Underflow)
+    DFP_EXCEPT (FE_UNDERFLOW);
 
   return result;
 }
-- 
2.43.0


From 963b0d6433ed2a106f8496ca306dd3354d3abf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 09/58] fix: lround/lrint family range check at the edges of
 long

LONG_MAX was rounded to the argument's format for the comparison, and the
unrounded argument was compared: 9223372036854776E3DD passed as in range
(no EDOM), and LONG_MAX+0.5 rounding down was rejected.
---
 ieee754r/llroundd32.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ieee754r/llroundd32.c b/ieee754r/llroundd32.c
index f1c7ca0..7f46fcf 100644
--- a/ieee754r/llroundd32.c
+++ b/ieee754r/llroundd32.c
@@ -56,17 +56,14 @@ static __ROUND_RETURN_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE result;
+  _Decimal128 wide;
   decContext context;
   decNumber dn_result;
   decNumber dn_x;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
-  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
-    {
-      DFP_EXCEPT (FE_INVALID);
-      return (__ROUND_RETURN_TYPE) x;
-    }
+  if (decNumberIsNaN (&dn_x) || decNumberIsInfinite (&dn_x))
+    goto out_of_range;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = __ROUND_MODE;
@@ -74,6 +71,11 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
+  /* The limits are exact in _Decimal128 only.  */
+  wide = result;
+  if (wide > __MAX_VALUE || wide < __MIN_VALUE)
+    goto out_of_range;
+
 #ifdef POSTFIX_CHECK
   POSTFIX_CHECK;
 #endif
@@ -82,16 +84,17 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   return (__ROUND_RETURN_TYPE)result;
 
 /*  return (__ROUND_RETURN_TYPE)decNumberToInteger (&dn_result); */
+
+out_of_range:
+  DFP_EXCEPT (FE_INVALID);
+  DFP_ERRNO (EDOM);
+  return (__ROUND_RETURN_TYPE) x;
 }
 
 __ROUND_RETURN_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
-  __ROUND_RETURN_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (FUNC_D(__isnan) (x) || FUNC_D(__isinf) (x)
-	|| x > __MAX_VALUE || x < __MIN_VALUE)
-    DFP_ERRNO (EDOM);
-  return z;
+  return IEEE_FUNCTION_NAME (x);
 }
 
 weak_alias (INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From 921758dc7841eaf74a91fd8f4889270e01b088d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 10/58] fix: conversion of INT_MIN to _Decimal32 and _Decimal64

Negating it as an int is undefined; the result came out as a NaN.
---
 libbid/bid_from_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libbid/bid_from_int.c b/libbid/bid_from_int.c
index cfee0ed..d42e4b7 100644
--- a/libbid/bid_from_int.c
+++ b/libbid/bid_from_int.c
@@ -42,8 +42,8 @@ bid64_from_int32 (int x _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
   // in the lowest 32bits of the result
   if ((x & SIGNMASK32) == SIGNMASK32) {
     // negative int32
-    x = ~x + 1;	// 2's complement of x
-    res = (unsigned int) x | 0xb1c0000000000000ull;
+    // (unsigned: negating INT_MIN overflows an int)
+    res = (0u - (unsigned int) x) | 0xb1c0000000000000ull;
     // (exp << 53)) = biased exp. is 0
   } else {	// positive int32
     res = x | 0x31c0000000000000ull;	// (exp << 53)) = biased exp. is 0
-- 
2.43.0


From 8a895ab1e83a3e72fb917d0d0856673582a1a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 11/58] fix: conversion of 2^31 to unsigned int and 2^63 to
 unsigned long gave 0

---
 libbid/_dd_to_usi.c | 4 +++-
 libbid/_td_to_udi.c | 4 +++-
 libbid/_td_to_usi.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libbid/_dd_to_usi.c b/libbid/_dd_to_usi.c
index 626f9eb..72f93f0 100644
--- a/libbid/_dd_to_usi.c
+++ b/libbid/_dd_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunsddsi (_Decimal64 x) {
   ux.d = x;
   res = __bid64_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // 0x80000000 also marks an invalid conversion; for NaNs too
+  if (res == 0x80000000
+      && !(x >= 2147483648.DD && x < 2147483649.DD)) res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_udi.c b/libbid/_td_to_udi.c
index 7e7b72a..4b06e75 100644
--- a/libbid/_td_to_udi.c
+++ b/libbid/_td_to_udi.c
@@ -34,7 +34,9 @@ __bid_fixunstddi (_Decimal128 x) {
 
   res = __bid128_to_uint64_xint (ux.i);
 
-  if (res == 0x8000000000000000ull) res = 0; // for NaNs too
+  // 0x8000000000000000 also marks an invalid conversion; for NaNs too
+  if (res == 0x8000000000000000ull
+      && !(x >= 9223372036854775808.DL && x < 9223372036854775809.DL)) res = 0;
   return (res);
 }
 
diff --git a/libbid/_td_to_usi.c b/libbid/_td_to_usi.c
index 00406be..a53feb1 100644
--- a/libbid/_td_to_usi.c
+++ b/libbid/_td_to_usi.c
@@ -33,7 +33,9 @@ __bid_fixunstdsi (_Decimal128 x) {
   ux.d = x;
   res = __bid128_to_uint32_xint (ux.i);
 
-  if (res == 0x80000000) res = 0; // for NaNs too
+  // 0x80000000 also marks an invalid conversion; for NaNs too
+  if (res == 0x80000000
+      && !(x >= 2147483648.DL && x < 2147483649.DL)) res = 0;
   return (res);
 }
 
-- 
2.43.0


From bc7df68d66d9e2d9ec721af89c76978875fa5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 12/58] fix: 64-bit integer to _Decimal32 conversion rounded
 twice

---
 libbid/_di_to_sd.c  | 7 ++++---
 libbid/_udi_to_sd.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..351fb05 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatdisd (DItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // exact, so the result is rounded once
+  res128 = __bid128_from_int64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..df1ddcd 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  // exact, so the result is rounded once
+  res128 = __bid128_from_uint64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
-- 
2.43.0


From 984c20014842095109b07907f79b762ee7de6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 13/58] fix: 128-bit integer to decimal conversion in directed
 rounding modes

The magnitude was rounded before the sign was applied, and the three-chunk
conversion to _Decimal32/64 always rounded to nearest even.
---
 base-math/floattitd.c           | 24 ++++++++++++++----------
 sysdeps/soft-dfp/candtruncd32.c |  2 ++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index ea98a85..45d12ba 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -74,6 +74,12 @@
 # define INPUT_TYPE UINT128
 #endif
 
+#ifndef UNSIGNED
+# define NEGATE_IF_SIGNED(_d) do { if (negative) (_d) = -(_d); } while (0)
+#else
+# define NEGATE_IF_SIGNED(_d) do { } while (0)
+#endif
+
 /* Generic macros to overload for other conversions.  */
 #ifndef FUNC
 # define FUNC     floattitd
@@ -125,8 +131,9 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
     }
   else
     {
-      /* Else convert the absolute (unsigned) value to Decimal and
-       * correct the sign later if needed.  */
+      /* Else convert the absolute (unsigned) value to Decimal.  The
+       * chunks are exact and get the sign before they are combined, so
+       * that the rounding direction is right for negative values.  */
       y = u / ten_17;
       z = u % ten_17;
       t_low = (unsigned long long) z;
@@ -135,6 +142,8 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  t_mid = (unsigned long long) y;
 	  d_mid = t_mid;
 	  d_low = t_low;
+	  NEGATE_IF_SIGNED (d_mid);
+	  NEGATE_IF_SIGNED (d_low);
 	  result = (d_mid * 100000000000000000.DL) + d_low;
 	}
       else
@@ -146,6 +155,9 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  d_low = t_low;
 	  d_mid = t_mid;
 	  d_high = t_high;
+	  NEGATE_IF_SIGNED (d_low);
+	  NEGATE_IF_SIGNED (d_mid);
+	  NEGATE_IF_SIGNED (d_high);
 
           /* Call out to internal helpers to properly handle
 	   * conversion and trunctation into a smaller format.
@@ -159,14 +171,6 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  result = (result * 100000000000000000.DL) + d_low;
 #endif
 	}
-
-#ifndef UNSIGNED
-      /* Converted the absolute 127-bit value of "a" to Decimal128.
-       * Now correct the decimal sign if the original value
-       * was negative.  */
-      if (negative)
-	result = -result;
-#endif
     }
 
   return (result);
diff --git a/sysdeps/soft-dfp/candtruncd32.c b/sysdeps/soft-dfp/candtruncd32.c
index f1fbca0..4ccb35b 100644
--- a/sysdeps/soft-dfp/candtruncd32.c
+++ b/sysdeps/soft-dfp/candtruncd32.c
@@ -41,6 +41,7 @@
 #include "dfpmacro.h"
 
 #include "convert_helpers.h"
+#include <mapround.h>
 
 #include <stdio.h>
 
@@ -80,6 +81,7 @@ FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
   decNumberAdd(&dn_result, &dn_result_s, &dn_low, &context);
 
   /* Convert to the destination format.  */
+  context.round = __dn_getround ();
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   /* Don't care about exceptions here... I don't think.  */
-- 
2.43.0


From 11cf015cde32ef56eb76bcfede07dcd947029803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 14/58] fix: declare __dn_getround where fdim, ldexp and scalbn
 use it

---
 ieee754r/fdimd32.c    | 1 +
 ieee754r/ldexpd32.c   | 1 +
 ieee754r/scalblnd32.c | 1 +
 ieee754r/scalbnd32.c  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/ieee754r/fdimd32.c b/ieee754r/fdimd32.c
index 131d71a..74b644b 100644
--- a/ieee754r/fdimd32.c
+++ b/ieee754r/fdimd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME fdim
 
diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 146f2b5..afb9a5b 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME ldexp
 
diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index aa20365..217a6ef 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME scalbln
 
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 3c0bce3..e2704b4 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME scalbn
 
-- 
2.43.0


From 103261937bdd680e72ae0a913b4fd5fa91d8255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 15/58] fix: _Decimal64 product of opposite signs that rounds
 up to overflow in directed modes

---
 libbid/bid64_mul.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libbid/bid64_mul.c b/libbid/bid64_mul.c
index 2c0c850..759a1b8 100644
--- a/libbid/bid64_mul.c
+++ b/libbid/bid64_mul.c
@@ -360,7 +360,7 @@ bid64_mul (UINT64 x,
       // convert to BID and return
       res =
 	fast_get_BID64_check_OF (sign_x ^ sign_y, final_exponent, C64,
-				 rmode, pfpsf);
+				 rnd_mode, pfpsf);
       BID_RETURN (res);
     }
     // go to convert_format and exit
@@ -368,7 +368,7 @@ bid64_mul (UINT64 x,
     res =
       get_BID64 (sign_x ^ sign_y,
 		 exponent_x + exponent_y - DECIMAL_EXPONENT_BIAS, C64,
-		 rmode, pfpsf);
+		 rnd_mode, pfpsf);
     BID_RETURN (res);
   }
 }
-- 
2.43.0


From ac1ac5a686f7d64d203eadb63eb4d9949e2acfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 16/58] fix: wcstod32/64/128 crashed reading the locale's wide
 decimal point

---
 stdlib/strtod32.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 155bd68..b42f3a4 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -342,7 +342,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The radix character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *decimalmb;
+  /* nl_langinfo returns the wide character itself for the _WC items.  */
+  union { const char *string; unsigned int word; } wc;
   wchar_t decimal;
 #else
   const char *decimal;
@@ -350,7 +351,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The thousands character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *thousandsmb = NULL;
   wchar_t thousands = L'\0';
 #else
   const char *thousands = NULL;
@@ -373,9 +373,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	{
 	  /* Figure out the thousands separator character.  */
 #ifdef USE_WIDE_CHAR
-	  thousandsmb = nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC);
-	  mbrtowc(&thousands,thousandsmb, CHAR_MAX, NULL);
-
+	  wc.string = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
+	  thousands = (wchar_t) wc.word;
 	  if (thousands == L'\0')
 	    grouping = NULL;
 #else
@@ -393,8 +392,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
   /* Find the locale's decimal point character.  */
 #ifdef USE_WIDE_CHAR
-  decimalmb = nl_langinfo(_NL_NUMERIC_DECIMAL_POINT_WC);
-  mbrtowc(&decimal,decimalmb, CHAR_MAX, NULL);
+  wc.string = nl_langinfo (_NL_NUMERIC_DECIMAL_POINT_WC);
+  decimal = (wchar_t) wc.word;
   assert (decimal != L'\0');
 # define decimal_len 1
 #else
-- 
2.43.0


From e99b5e637b223d2ad9ffc78635b5c523e3204fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 17/58] fix: strtod/wcstod end pointer of nan(n-char-sequence)
 excluded the closing brace

---
 stdlib/strtod32.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index b42f3a4..52b962a 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -479,8 +479,11 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 		/* The closing brace is missing.  Only match the NAN
 		   part.  */
 		cp = startp;
-#if 0
 	      else
+		/* The closing brace is part of the number.  */
+		++cp;
+#if 0
+	      /* This needs CP still at the closing brace.  */
 		{
 		  /* This is a system-dependent way to specify the
 		     bitmask used for the NaN.  We expect it to be
-- 
2.43.0


From 9f7d4f64f86926f557ae8389e601a7dbe1f36063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 18/58] fix: strtod/wcstod digit conversion: single rounding,
 exponent limits, sign and errno of underflow

---
 stdlib/strtod32.c | 228 +++++++++++++++++-----------------------------
 1 file changed, 85 insertions(+), 143 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 52b962a..f2715b9 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -124,6 +124,11 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 //#define MIN_EXP		PASTE(FLT,_MIN_EXP)
 #define MAX_10_EXP	PASTE(PASTE(__,FLT),_MAX_EXP__)
 #define MIN_10_EXP	PASTE(PASTE(__,FLT),_MIN_EXP__)
+/* Limits of the exponent of the coefficient taken as an integer.  */
+#define MIN_QEXP	(MIN_10_EXP - MANT_DIG)
+#define MAX_QEXP	(MAX_10_EXP - MANT_DIG)
+/* No exponent above this is in range, however many digits there are.  */
+#define EXP_SATURATE	100000000
 #define FUNCTION_NAME	PASTE(PASTE(STRTO_PREFIX,d),FLOAT_SIZE)
 #define __FUNCTION_NAME	PASTE(__,FUNCTION_NAME)
 #define FUNCTION_INTERNAL	PASTE(__FUNCTION_NAME,_internal)
@@ -331,6 +336,9 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   const STRING_TYPE *expp;
   /* Total number of digit and number of digits in integer part.  */
   int dig_no, int_no, lead_zero;
+  /* Number of digits that fit, running index, first discarded digit and
+     whether a later one is nonzero.  */
+  int keep, pos, tail = 0, sticky = 0;
   /* Contains the last character read.  */
   CHAR_TYPE c;
   __locale_t C_locale;
@@ -691,47 +699,13 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
       if (c >= L_('0') && c <= L_('9'))
 	{
-	  int exp_limit;
-
-	  /* Get the exponent limit. */
-	  exp_limit = (exp_negative ?
-		       -MIN_10_EXP + MANT_DIG + int_no :
-		       MAX_10_EXP - int_no + lead_zero);
-
 	  do
 	    {
-	      exponent *= 10;
-
-	      if (exponent > exp_limit)
-		/* The exponent is too large/small to represent a valid
-		   number.  */
-		{
-		  FLOAT result;
-
-		  /* We have to take care for special situation: a joker
-		     might have written "0.0e100000" which is in fact
-		     zero.  */
-		  if (lead_zero == -1)
-		    result = negative ? -FLOAT_ZERO : FLOAT_ZERO;
-		  else
-		    {
-		      /* Overflow or underflow.  */
-		      __set_errno (ERANGE);
-		      result = (exp_negative ? FLOAT_ZERO :
-				negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL);
-		    }
-
-		  /* Accept all following digits as part of the exponent.  */
-		  do
-		    ++cp;
-		  while (*cp >= L_('0') && *cp <= L_('9'));
-
-		  freelocale(C_locale);
-		  RETURN (result, cp);
-		  /* NOTREACHED */
-		}
-
-	      exponent += c - L_('0');
+	      /* Whether the exponent is too large or too small depends on the
+		 digits; a joker might have written "0.0e100000", or hundreds
+		 of zeros.  Any exponent above EXP_SATURATE is too large.  */
+	      if (exponent < EXP_SATURATE)
+		exponent = exponent * 10 + (c - L_('0'));
 	      c = *++cp;
 	    }
 	  while (c >= L_('0') && c <= L_('9'));
@@ -779,8 +753,13 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   if (endptr)
     *endptr = (STRING_TYPE *) cp;
 
-  if (dig_no == 0)
+  if (dig_no == 0 || lead_zero == -1)
     {
+      /* A zero.  Keep its exponent as far as the format can express it.  */
+      exponent -= dig_no;
+      exponent = MAX (exponent, MIN_QEXP);
+      exponent = MIN (exponent, MAX_QEXP);
+
       if (exponent == 0)
 	{
 	  freelocale(C_locale);
@@ -823,7 +802,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	  ++startp;
 	}
 #endif
-      lead_zero = (lead_zero < 0? 0 : lead_zero);
       startp += lead_zero + decimal_len;
       exponent -= lead_zero;
       dig_no -= lead_zero;
@@ -831,113 +809,76 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
 
   /* Now we have the number of digits in total and the integer digits as well
-     as the exponent and its sign.  We can decide whether the read digits are
-     really integer digits or belong to the fractional part; i.e. we normalize
-     123e-2 to 1.23.  */
-  {
-    register int incr = (exponent < 0 ? MAX (-int_no, exponent)
-			 : MIN (dig_no - int_no, exponent));
-    int_no += incr;
-    exponent -= incr;
-  }
-
-  if (int_no + exponent > MAX_10_EXP)
+     as the exponent and its sign.  From here on the number is the integer of
+     DIG_NO digits at STARTP times ten to the EXPONENT.  */
+  exponent -= dig_no - int_no;
+
+  if (dig_no + exponent > MAX_10_EXP)
     {
       __set_errno (ERANGE);
       freelocale(C_locale);
       return negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL;
     }
 
-  /* Obvious underflow before normalization.  */
-  if (exponent < MIN_10_EXP - MANT_DIG + 1 )
+  /* The digits the format has room for.  */
+  keep = MIN (dig_no, MANT_DIG);
+  if (exponent + dig_no - keep < MIN_QEXP)
     {
+      /* Below the normal range, and it takes more digits than there are.  */
       __set_errno (ERANGE);
       freelocale(C_locale);
-      return FLOAT_ZERO;
+      return negative ? -FLOAT_ZERO : FLOAT_ZERO;
     }
-  /* Read in the integer portion of the input string */
-  if (int_no > 0)
-    {
-      /* Read the integer part as a d32.  */
-      int digcnt = int_no;
 
-      while (int_no > MAX_10_EXP + 1)
-	{
-	  digcnt--;
-	  exponent++;
-	}
-      do
+  for (pos = 0; pos < dig_no; ++pos)
+    {
+      /* There might be thousands separators or radix characters in
+	 the string.  But these all can be ignored because we know the
+	 format of the number is correct and we have an exact number
+	 of characters to read.  */
+      if (*startp < L_('0') || *startp > L_('9'))
 	{
-	  /* There might be thousands separators or radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
 #ifdef USE_WIDE_CHAR
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    ++startp;
+	  ++startp;
 #else
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    {
-	      int inner = 0;
-	      if (thousands != NULL && *startp == *thousands
-		  && ({
-			for (inner = 1; thousands[inner] != '\0'; ++inner)
-			  if (thousands[inner] != startp[inner])
-			    break;
-			thousands[inner] == '\0';
-		      })
-		  )
-		startp += inner;
-	      else
-		startp += decimal_len;
-	    }
+	  int inner = 0;
+	  if (thousands != NULL && *startp == *thousands
+	      && ({
+		    for (inner = 1; thousands[inner] != '\0'; ++inner)
+		      if (thousands[inner] != startp[inner])
+			break;
+		    thousands[inner] == '\0';
+		  })
+	      )
+	    startp += inner;
+	  else
+	    startp += decimal_len;
 #endif
-	  d32 = d32 * 10 + (*startp - L_('0'));
-	  ++startp;
 	}
-      while (--digcnt > 0);
-
+      if (pos < keep)
+	/* At most MANT_DIG digits, so this is exact.  */
+	d32 = d32 * 10 + (*startp - L_('0'));
+      else if (pos == keep)
+	tail = *startp - L_('0');
+      else if (*startp != L_('0'))
+	sticky = 1;
+      ++startp;
     }
-  /* If we haven't filled our datatype, read in the fractional digits */
-  if (int_no <= MANT_DIG && dig_no > int_no)
-    {
-      /* Read the decimal part as a FLOAT.  */
-      int digcnt = dig_no - int_no;
-      
-  /* There might be radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-
-      /*do
-	{
-	  frac = frac/10 + *(startp+digcnt-1) - L_('0');
-	}
-      while (--digcnt > 0);
-      frac /= 10;
 
-      d32 += frac;*/
-      int_no = 0;
-      do
-        {
-#ifdef USE_WIDE_CHAR
-      if (*startp < L_('0') || *startp > L_('9'))
-	++startp;
-#else
-      if (*startp < '0' || *startp > '9')
-	startp += decimal_len;
-#endif
+  exponent += dig_no - keep;
+  if (negative)
+    d32 = -d32;
 
-        /* We need the extra digit to get proper rounding.  */
-	if (int_no < MANT_DIG + 1)
-	  {
-	    d32 = d32*10 + (*startp - L_('0'));
-	    ++startp;
-	    --exponent;
-	    int_no++;
-	  }
-	}
-    while (--digcnt > 0);
+  /* Let one digit stand for all the discarded ones.  It compares to zero and
+     to one half as they do.  */
+  if (sticky && (tail == 0 || tail == 5))
+    ++tail;
+  if (tail != 0)
+    {
+      FLOAT rest = tail;
+      rest /= 10;
+      /* The only rounding.  */
+      d32 += negative ? -rest : rest;
     }
 
 #if NUMDIGITS_SUPPORT==0
@@ -946,27 +887,28 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   while(++exponent < 0)
     d32 /= 10;
 #else
-  /* Computed underflow after normalization.  */
-  if ( exponent <  (__DEC_MIN_EXP__ - __DEC_MANT_DIG__))
-    {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
-    }
-
   /* Left justification allows us to set a positive exponent that's near
    * __DEC*_MAX_EXP__, i.e. _almost_ overflowing.  Complete left justification
    * may be overkill for most numbers in this situation, so perhaps a specific
    * digit shift will be a better solution in the future.  */
-  if (exponent > (__DEC_MAX_EXP__ - __DEC_MANT_DIG__))
-      d32 = FUNC_D(left_justify) (d32);
-
-  d32 = FUNC_D(setexp) (d32, FUNC_D (getexp) (d32) + exponent);
-
+  if (exponent + FUNC_D (getexp) (d32) > MAX_QEXP)
+    while (FUNC_D (numdigits) (d32) < MANT_DIG)
+      {
+	d32 *= 10;
+	--exponent;
+      }
+  exponent += FUNC_D (getexp) (d32);
+  if (exponent > MAX_QEXP)
+    {
+      __set_errno (ERANGE);
+      freelocale(C_locale);
+      return negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL;
+    }
+  d32 = FUNC_D(setexp) (d32, exponent);
 #endif
 
   freelocale(C_locale);
-  return negative? -d32:d32;
+  return d32;
 }
 hidden_def(FUNCTION_L_INTERNAL)
 
-- 
2.43.0


From 271f93c48ffd2f7226edc92a7b630acc25f151f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 19/58] fix: digits of non-canonical _Decimal128 values:
 coefficient is zero

---
 sysdeps/bid/bid-private.c | 13 +++++--------
 sysdeps/bid/bid-private.h |  4 +++-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/sysdeps/bid/bid-private.c b/sysdeps/bid/bid-private.c
index a95781a..87881e0 100644
--- a/sysdeps/bid/bid-private.c
+++ b/sysdeps/bid/bid-private.c
@@ -187,17 +187,14 @@ __get_digits_d128 (_Decimal128 x, char *str, int *exp_p, int *sign_p,
     }
   else
     {
+      /* The coefficient would be at least 2^113, which is not canonical.  */
       exp = (d.ti[3] >> 15) & 0x3FFF;
-      result[1]  = 4 << 15;
-      result[1] |= d.ti[3] & 0x7FFF;	// 15 bits.
-      result[1]  = result[1] << 32;
-      result[1] |= d.ti[2] & 0xFFFFFFFFUL;
-      result[0]  = d.ti[1] & 0xFFFFFFFFUL;
-      result[0]  = result[0] << 32;
-      result[0] |= d.ti[0] & 0xFFFFFFFFUL;
+      result[1] = 0;
+      result[0] = 0;
     }
 
-  if (result[1] >= DECIMAL128_TH)
+  if (result[1] > DECIMAL128_TH_HI
+      || (result[1] == DECIMAL128_TH_HI && result[0] >= DECIMAL128_TH_LO))
     {
       result[0] = 0;
       result[1] = 0;
diff --git a/sysdeps/bid/bid-private.h b/sysdeps/bid/bid-private.h
index 83b002f..7832ff5 100644
--- a/sysdeps/bid/bid-private.h
+++ b/sysdeps/bid/bid-private.h
@@ -162,6 +162,8 @@ union ieee754r_Decimal128
   };
 
 #define DECIMAL128_Bias 6176		/* bias for the exponent  */
-#define DECIMAL128_TH 1000000000000000	/* threshold (10³⁴ = 10¹⁵ x 10¹⁹) */
+/* threshold 10³⁴, as two words of 64 bits  */
+#define DECIMAL128_TH_HI 0x1ed09bead87c0ULL
+#define DECIMAL128_TH_LO 0x378d8e6400000000ULL
 
 #endif /* _BID_PRIVATE */
-- 
2.43.0


From f49fd8a3794d5cb8cc321e9bea2a8c635d2923e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 20/58] fix: strfromd32/64/128 with a short buffer: terminate,
 and return the full length

---
 stdlib/strfromd32.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index f66a1c5..affa29d 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -25,6 +25,7 @@
 #include <printf.h>
 #include <errno.h>
 #include <ctype.h>
+#include <string.h>
 
 #include "printf_dfp.h"
 
@@ -38,7 +39,9 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
 {
   /* format = %{[.][0-9]*[aAeEfFgG], else behavior undefined.
      Reuse our printf hook to do this.  */
-  FILE * f = fmemopen (s, n, "w");
+  char *out = NULL;
+  size_t size = 0;
+  FILE * f = open_memstream (&out, &size);
   const void * const args = &fp;
   const void * const * argsp = &args;
   const void * const * argp = (const void * const *)&argsp;
@@ -49,7 +52,7 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
      about this.  */
   if (!f)
     {
-    /* errno set by fmemopen.  */
+    /* errno set by open_memstream.  */
     return 0;
     }
 
@@ -84,5 +87,16 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
   }
 
   fclose (f);
+
+  /* Truncate and terminate the output as snprintf does.  */
+  if (n > 0)
+    {
+      if (size >= n)
+	size = n - 1;
+      memcpy (s, out, size);
+      s[size] = '\0';
+    }
+  free (out);
+
   return num;
 }
-- 
2.43.0


From a2ba91bec6ec07949809666a77c5290fe79b9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 21/58] fix: printf of infinities and NaNs counts the
 characters written

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c5bf460..f962e51 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -527,7 +527,7 @@ __printf_dfp (FILE *fp,
       if (info->left && width > 0)
 	PADN (' ', width);
 
-      return 0;
+      return done;
     }
 
   /* The term "precision" refers to the number of significant digits right of
-- 
2.43.0


From f8a94078f2d7df966ffa3f3ca1ea94f6661aa839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 22/58] fix: printf field width with grouping and with a short
 %a exponent

---
 printf-hooks/printf_dfp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index f962e51..9c85005 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -774,7 +774,7 @@ __printf_dfp (FILE *fp,
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n)/3;
+      if (grouping) width -= (decpt-n-1)/3;
     }
   else width--;  /* none to the left of the decimal point */
 
@@ -785,7 +785,7 @@ __printf_dfp (FILE *fp,
   if (spec != 'f')
     {
       width -= 3;
-      if (0!=(exp/10) || spec!='a') --width;
+      if (0!=(exp/10) || tolower(info->spec)!='a') --width;
       if (0!=(exp/100)) --width;
       if (0!=(exp/1000)) --width;
     }
-- 
2.43.0


From b7c33410809d11026373a7c21d85c0d661a2c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 23/58] fix: printf rounding to the precision in all rounding
 modes, %g exponent choice, and zeros

---
 printf-hooks/printf_dfp.c | 250 +++++++++++++++++++-------------------
 1 file changed, 128 insertions(+), 122 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 9c85005..f9375d6 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -541,6 +541,10 @@ __printf_dfp (FILE *fp,
 	     * digits in the precision.  */
 	    input_prec = nd;
 
+	    /* At least one digit is printed.  */
+	    if (prec == 0)
+	      prec = 1;
+
 	    /* This same check is done in two different places but it'll only
 	     * effect a single pass through once.  If prec is not set it'll hit
 	     * this instance.  If prec is set it'll hit the next instance.  This
@@ -566,57 +570,14 @@ __printf_dfp (FILE *fp,
 	  }
 	case 'g':
 	  {
-	    int P = prec;
-
-	    /* When the C specification refers to X as the exponent it means the
-	     * exponent when the input value encoding is normalized to the form
-	     * d.dddd.  This means we have to do that before we can do the goof
-	     * check.
-	     *
-	     * e.g., 123.456E-5
-	     * right-justified -> 00123456E-9
-	     * normalized -> 1.23456E-4
-	     *
-	     * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
-	     *
-	     * X == -4  */
-	    int X = exp + (nd -1);
-
-	    /* The C Specification also indicates how to compute P. */
+	    /* The precision counts all of the significant digits.  The choice
+	     * of 'e' or 'f' depends on the exponent of the rounded value.  */
 	    if (prec < 0)
-	      P = 6;
+	      prec = default_prec;
 	    else if (prec == 0)
-	      P = 1;
-
-	    /* Straight from the specification which assumes X is exponent normalized to
-	     * d.ddd... form.  */
-	    if (X >= -4 && P > X)
-	      {
-		prec = (P - (X + 1));
-		spec = 'f';
-	      }
-	    else
-	      {
-		prec = P - 1;
-		spec = 'e';
-	      }
-	    input_prec = nd - 1;
+	      prec = 1;
 	  break;
 	  }
-	case 'e':
-	  input_prec = nd - 1;
-	  break;
-	case 'f':
-	  if(exp < 0 && (-exp) > default_prec)
-	    /*  00123456E-7 has an input_prec of 7. */
-	    input_prec = (-exp);
-	  else
-	    /*  01234567E-6 has an input_prec of 6. */
-	    /*  00000190E6 has an input_prec of 6. */
-	    /*  00000123E1 has an input_prec of 6.  */
-	    /*  00000123E0 has an input_prec of 6.  */
-	    input_prec = default_prec;
-	  break;
     }
 
   /* The specs 'g' and 'a' may have already modified prec so this won't happen for
@@ -627,78 +588,88 @@ __printf_dfp (FILE *fp,
   /* Do rounding if precision is less than the decimal type.  On hardware DFP
    * this could probably easily be done with quantize but on soft-dfp the
    * existing method would be faster.  */
-  if (prec < input_prec)
-    {
-      int index, roundmode = 0;
-      char rounddigit = '4';
-
-      if (spec == 'f')
-	/* This may force index to negative, in which case we ignore it at a
-	 * later time.  */
-	index = n + nd + exp + prec;
-      /* Goofy special case where we round significant digits which aren't
-       * right of the decimal place.  */
-      else if (tolower(info->spec) == 'a' && prec > 0)
-       {
-	index = n + prec;
-       }
-      else
-	index = n + prec + 1;
+  {
+    int index, roundmode = FE_DEC_TONEAREST;
+
+    /* The position in digits[] of the first digit which is discarded.  */
+    if (spec == 'f')
+      /* This may force index to zero or less, when all of the digits are
+       * discarded.  */
+      index = n + nd + exp + prec;
+    /* The precision of 'a' and 'g' counts all of the significant digits.  */
+    else if (spec == 'a' || spec == 'g')
+      index = n + prec;
+    else
+      index = n + prec + 1;
+
+    if (index < mw)
+      {
+	int i, up = 0;
+	char last = index > 0 ? digits[index-1] : '0';
+	char first = index >= 0 ? digits[index] : '0';
+	int rest = 0;	/* Are there non-zero digits after the first one?  */
 
-      /* FIXME: we should check rounding mode for %a */
-      if (__printf_dfp_getround_callback)
-        {
-          roundmode = (*__printf_dfp_getround_callback)();
+	for (i = index < 0 ? 0 : index + 1; i < mw; i++)
+	  if (digits[i] != '0')
+	    rest = 1;
 
-	  switch (roundmode)
-	    {
-	      case FE_DEC_TONEAREST: rounddigit = '4'; break;
-	      case FE_DEC_TOWARDZERO: rounddigit = '9'; break;
-	      case FE_DEC_UPWARD: rounddigit = (is_neg ? '9' : '0'-1); break;
-	      case FE_DEC_DOWNWARD: rounddigit = (is_neg ? '0'-1 : '9'); break;
-	      case FE_DEC_TONEARESTFROMZERO: rounddigit = '4'; break;
-	      case 5: rounddigit = '4'; break; /* nearest, ties toward zero */
-	      case 6: rounddigit = '0'-1; break; /* away from zero */
-	      case 7: rounddigit = '4'; break; /* round for shorter precision */
-	      default: rounddigit = '4'; break;
-	    }
-	}
+	/* FIXME: we should check rounding mode for %a */
+	if (__printf_dfp_getround_callback)
+	  roundmode = (*__printf_dfp_getround_callback)();
 
-      /* If this is true then the requested precision is smaller than the
-      * default and rounding is required.  If 'exp' was sufficiently negative
-      * 'index' may be negative, in which case we don't need to round.  */
-      if (index > 0 && index < mw && digits[index] > rounddigit) 
-	do {
-	  int trailzero = index+1;
-	  if (digits[index] == rounddigit+1)
-	    {
-	      while (trailzero < mw)
-		{
-		  if (digits[trailzero] != '0')
-		    {
-		      trailzero = 0;
-		      break;
-		    }
-		  ++trailzero;
-		}
-	      if (roundmode == FE_DEC_TONEAREST && trailzero &&
-	        (digits[index-1] & 1) == 0) break;
-	      if (roundmode == FE_DEC_UPWARD && !trailzero) break;
-	      if (roundmode == FE_DEC_DOWNWARD && !trailzero) break;
-	      if (roundmode == 5 && trailzero) break;
-	      if (roundmode == 6 && trailzero) break;
+	switch (roundmode)
+	  {
+	    case FE_DEC_TOWARDZERO:
+	      break;
+	    case FE_DEC_UPWARD:
+	      up = !is_neg && (first != '0' || rest);
+	      break;
+	    case FE_DEC_DOWNWARD:
+	      up = is_neg && (first != '0' || rest);
+	      break;
+	    case FE_DEC_TONEARESTFROMZERO:
+	      up = first >= '5';
+	      break;
+	    case 5: /* nearest, ties toward zero */
+	      up = first > '5' || (first == '5' && rest);
+	      break;
+	    case 6: /* away from zero */
+	      up = first != '0' || rest;
+	      break;
+	    case 7: /* round for shorter precision */
+	      up = first >= '5';
+	      break;
+	    default:
+	      up = first > '5'
+		   || (first == '5' && (rest || (last & 1) != 0));
+	      break;
 	  }
 
-	while (digits[--index] == '9')
-	  digits[index] = '0';
-	digits[index]++;
-	if (index < n)
+	if (index <= 0)
+	  {
+	    /* Only a unit in the last place printed can be left.  */
+	    memset (digits, '0', mw);
+	    if (up)
+	      {
+		digits[mw-1] = '1';
+		exp = -prec;
+		n = mw - 1;
+		nd = 1;
+	      }
+	  }
+	else if (up)
 	  {
-	    n--;
-	    nd++;
+	    while (digits[--index] == '9')
+	      digits[index] = '0';
+	    digits[index]++;
+	    if (index < n)
+	      {
+		n = index;
+		nd = mw - n;
+	      }
 	  }
-      } while (0);
-    } /* Done rounding.  */
+      }
+  } /* Done rounding.  */
 
   /* If spec == 'a' at this point it means that prec was set by the user
    * and rounding had to be considered.  The spec now requires that the
@@ -739,6 +710,42 @@ __printf_dfp (FILE *fp,
 	* the decimal point now.  */
     }
 
+  if (spec == 'g')
+    {
+      int P = prec;
+
+      /* When the C specification refers to X as the exponent it means the
+       * exponent when the value, rounded to P digits, is normalized to the
+       * form d.dddd.
+       *
+       * e.g., 123.456E-5
+       * right-justified -> 00123456E-9
+       * normalized -> 1.23456E-4
+       *
+       * Normalize X to d.ddd... form by taking (exp) + (nd - 1)
+       *
+       * X == -4  */
+      int X;
+
+      /* The exponent of zero is zero.  */
+      if (is_zero)
+	exp = 0;
+      X = exp + (nd - 1);
+
+      /* Straight from the specification which assumes X is exponent normalized to
+       * d.ddd... form.  */
+      if (X >= -4 && P > X)
+	{
+	  prec = (P - (X + 1));
+	  spec = 'f';
+	}
+      else
+	{
+	  prec = P - 1;
+	  spec = 'e';
+	}
+    }
+
   /* Calculate decimal point, adjust prec and exp if necessary.
    * By this point everything should be represented as either %e or %f.  */
   if (spec == 'f')
@@ -754,6 +761,12 @@ __printf_dfp (FILE *fp,
     {
       decpt = n + 1;
       exp = mw + exp - decpt;
+
+      /* The C spec says that for %e, if the value is zero the exponent is zero.
+       * This isn't true for the DFP spec for %a so make sure to check info->spec
+       * and not spec since it could have promoted 'a' to 'e'.  */
+      if (is_zero && tolower(info->spec) != 'a')
+	exp = 0;
     }
 
   /* Remove trailing zeroes for %g */
@@ -810,7 +823,7 @@ __printf_dfp (FILE *fp,
     {
       n = decpt;
       outchar ('0');
-      if (n < 0)
+      if (n < 0 && prec > 0)
 	{
 	  outchar (wide ? decimalwc.wc : *decimal);
 	  while (n < 0 && n < decpt + prec)
@@ -849,15 +862,8 @@ __printf_dfp (FILE *fp,
   /* print decimal point, if needed */
   if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
 
-  /* The C spec says that for %e, if the value is zero the exponent is zero.
-   * This isn't true for the DFP spec for %a so make sure to check info->spec
-   * and not spec since it could have promoted 'a' to 'e'.  */
-  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
-    exp = 0;
-
-  /* Don't display the exponent part for 'f' because it is never used and don't
-   * do it for 'g' if the value is zero.  */
-  if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
+  /* Don't display the exponent part for 'f' because it is never used.  */
+  if (spec != 'f')
     {
       outchar (isupper(info->spec) ? 'E' : 'e');
       if (exp < 0)
-- 
2.43.0


From 9956f7353bcaaf43ef9e0268900d2f0d464e4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 24/58] fix: printf of grouping and of multi-byte or wide
 separators in the locale

---
 printf-hooks/printf_dfp.c | 82 ++++++++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 15 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index f9375d6..f45260a 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -115,6 +115,26 @@ padn (FILE *fp, int pad, int count)
 # endif
 #endif
 
+/* Does a thousands separator belong before the digit which has LEFT - 1 more
+   digits between it and the decimal point?  */
+static int
+group_here (const char *grouping, int left)
+{
+  int sum = 0;
+
+  while (1)
+    {
+      sum += *grouping;
+      if (left <= sum)
+	return left == sum;
+      /* No further grouping, or repeat the last group.  */
+      if (grouping[1] == CHAR_MAX || grouping[1] < 0)
+	return 0;
+      if (grouping[1] != 0)
+	grouping++;
+    }
+}
+
 #define PAD(f, c, n) (wide ? wpadn (f, c, n) : padn (f, c, n))
 
 /* Macros for doing the actual output.  */
@@ -123,13 +143,39 @@ padn (FILE *fp, int pad, int count)
   do									      \
     {									      \
       register const int outc = (ch);					      \
-      if (PUT(outc, fp) == EOF)						      \
+      if (wide ? putwc (outc, fp) == WEOF : putc (outc, fp) == EOF)	      \
 	{								      \
 	  return -1;							      \
 	}								      \
       ++done;								      \
     } while (0)
 
+#define outstr(str)							      \
+  do									      \
+    {									      \
+      const char *outs;							      \
+      for (outs = (str); *outs != '\0'; outs++)				      \
+	outchar (*outs);						      \
+    } while (0)
+
+#define out_point()							      \
+  do									      \
+    {									      \
+      if (wide)								      \
+	outchar (decimalwc.wc);						      \
+      else								      \
+	outstr (decimal);						      \
+    } while (0)
+
+#define out_thousands_sep()						      \
+  do									      \
+    {									      \
+      if (wide)								      \
+	outchar (thousands_sepwc);					      \
+      else								      \
+	outstr (thousands_sep);						      \
+    } while (0)
+
 #define PADN(ch, len)							      \
   do									      \
     {									      \
@@ -360,7 +406,7 @@ __printf_dfp (FILE *fp,
   /* Locale-dependent thousands separator and grouping specification.  */
   const char *thousands_sep = NULL;
   wchar_t thousands_sepwc = 0;
-  const char * thousands_sepmb;
+  union { const char *mb; int wc; } thousands_sepu;
 
   const char *grouping;
 
@@ -399,13 +445,13 @@ __printf_dfp (FILE *fp,
 	    {
 	      if (info->extra == 0)
 		{
-		  thousands_sepmb = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
+		  thousands_sepu.mb = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
+		  thousands_sepwc = thousands_sepu.wc;
 		}
 	      else
 		{
-		  thousands_sepmb = nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
+		  thousands_sepu.mb = nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
+		  thousands_sepwc = thousands_sepu.wc;
 		}
 	    }
 	  else
@@ -444,6 +490,7 @@ __printf_dfp (FILE *fp,
    input_prec = 0,   /* Precision of the _Decimal* value.  */
    mw,           /* Mantissa Width  */
    n,            /* Current digit offset into digits[] */
+   first,        /* Offset of the first digit printed.  */
    nd,           /* num_digits before the get_digits call. */
    width,        /* Width of the field */
    is_zero = 0;  /* Used in some of the output tests.  */
@@ -787,7 +834,10 @@ __printf_dfp (FILE *fp,
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n-1)/3;
+      if (grouping)
+	for (first = n + 1; first < decpt; first++)
+	  if (group_here (grouping, decpt - first))
+	    width--;
     }
   else width--;  /* none to the left of the decimal point */
 
@@ -825,7 +875,7 @@ __printf_dfp (FILE *fp,
       outchar ('0');
       if (n < 0 && prec > 0)
 	{
-	  outchar (wide ? decimalwc.wc : *decimal);
+	  out_point ();
 	  while (n < 0 && n < decpt + prec)
 	    {
 	      outchar ('0');
@@ -834,16 +884,18 @@ __printf_dfp (FILE *fp,
 	}
     }
 
+  first = n;
+
   /* Print the digits.  If decpt exceeds mw then we know that
    * they're simply trailing zeros and we don't need to display them.  */
   while (n < mw && n < decpt + prec)
     {
       if (n == decpt)
       {
-	outchar (wide ? decimalwc.wc : *decimal);
+	out_point ();
       }
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+      else if (grouping && n > first && n < decpt && group_here (grouping, decpt-n))
+	out_thousands_sep ();
       outchar (digits[n]);
       n++;
     }
@@ -852,15 +904,15 @@ __printf_dfp (FILE *fp,
   while (n < decpt + prec)
     {
       if (n == decpt)
-	outchar (wide ? decimalwc.wc : *decimal);
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+	out_point ();
+      else if (grouping && n > first && n < decpt && group_here (grouping, decpt-n))
+	out_thousands_sep ();
       outchar ('0');
       n++;
     }
 
   /* print decimal point, if needed */
-  if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
+  if (n == decpt && info->alt) out_point ();
 
   /* Don't display the exponent part for 'f' because it is never used.  */
   if (spec != 'f')
-- 
2.43.0


From eeed7ab07b8fa634c8cf96689b7b5a87db70dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 25/58] fix: cancellation in the inverse, hyperbolic, expm1,
 log1p and tangent functions

decNumberMath's hyperbolic and arctangent functions, and asinh, acosh,
atanh, expm1 and log1p, worked in the precision and exponent range of the
format: small arguments gave zero or NaN, large ones overflowed, and
everything in between lost digits. Work in decNumberMath's own precision,
as sine and cosine do, and sum the power series for tiny arguments.
---
 decNumberMath/Versions        |   5 +
 decNumberMath/decNumberMath.c | 258 +++++++++++++++++++++++++++-------
 decNumberMath/decNumberMath.h |  10 ++
 ieee754r/acoshd32.c           |  10 +-
 ieee754r/asinhd32.c           |  13 +-
 ieee754r/atanhd32.c           |  11 +-
 ieee754r/expm1d32.c           |   9 +-
 ieee754r/log1pd32.c           |   2 +-
 8 files changed, 230 insertions(+), 88 deletions(-)

diff --git a/decNumberMath/Versions b/decNumberMath/Versions
index 99e0cf5..d90b44a 100644
--- a/decNumberMath/Versions
+++ b/decNumberMath/Versions
@@ -4,6 +4,11 @@ libdfp {
     decNumberSinh;
     decNumberCosh;
     decNumberTanh;
+    decNumberAsinh;
+    decNumberAcosh;
+    decNumberAtanh;
+    decNumberExpm1;
+    decNumberLog1p;
     decNumberSin;
     decNumberCos;
     decNumberTan;
diff --git a/decNumberMath/decNumberMath.c b/decNumberMath/decNumberMath.c
index 4ff0ab8..59e5600 100644
--- a/decNumberMath/decNumberMath.c
+++ b/decNumberMath/decNumberMath.c
@@ -26,7 +26,7 @@
 /* HACK: libdecnumber will try dragging in its config.h, prevent it.  */
 #define _DCONFIG_H
 
-#define  DECNUMDIGITS 60
+#define  DECNUMDIGITS 76
 #include "decNumber.h"             // base number library
 #include "decNumberMath.h"
 #include "decNumberLocal.h"
@@ -64,8 +64,8 @@
     const int _emin_stashed = ctxp->emin; \
     const int _digits_stashed = ctxp->digits; \
     decNumberFromString (zerop, "0", ctxp); \
-    ctxp->emax = 6144; \
-    ctxp->emin = -6143; \
+    ctxp->emax = 999999; \
+    ctxp->emin = -999999; \
     ctxp->digits = DECNUMDIGITS;
 
 #define DEC_RESTORE_ROUND(ctxp, resultoutp, resultinp, zerop) \
@@ -488,47 +488,187 @@ decNumber* decNumberPow (decNumber *result, decNumber *x, decNumber *y,
 // Hyperbolic Functions
 // ----------------------------------------------------------------------
 
-decNumber* decNumberSinh (decNumber *result, decNumber *x, decContext *set)
+// Whether |x| < 10^-15, where the functions below that behave as x near
+// zero are summed from their power series: the closed forms would cancel.
+#define IS_TINY(xp) \
+    (decNumberIsZero (xp) || (xp)->exponent + (xp)->digits <= -15)
+
+// result = x * (1 + x^step*c[0] + x^(2*step)*c[1] + ...), c given as num/den
+static void decNumberSeries (decNumber *result, decNumber *x, int step,
+			     int n, const int (*c)[2], decContext *set)
+{
+  decNumber xs, power, term, k, sum;
+  int i;
+
+  decNumberCopy (&xs, x);
+  if (step == 2)
+    decNumberMultiply (&xs, x, x, set);
+  decNumberCopy (&power, x);
+  decNumberCopy (&sum, x);
+  for (i=0; i<n; i++) {
+    decNumberMultiply (&power, &power, &xs, set);
+    decNumberFromInt32 (&k, c[i][0]);
+    decNumberMultiply (&term, &power, &k, set);
+    decNumberFromInt32 (&k, c[i][1]);
+    decNumberDivide (&term, &term, &k, set);
+    decNumberAdd (&sum, &sum, &term, set);
+  }
+  decNumberCopy (result, &sum);
+} /* decNumberSeries  */
+
+decNumber* decNumberSinh (decNumber *_result, decNumber *x, decContext *set)
 {
   // sinh x = (e^x - e^-x)/2
-  decNumber ex, emx, mx, two;
+  static const int series[][2] = {{1, 6}, {1, 120}};
+  decNumber ex, emx, mx, two, zero, result;
 
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
-  return result;
+  DEC_STASH_CONTEXT (set, &zero);
+  if (IS_TINY (x))
+    decNumberSeries (&result, x, 2, 2, series, set);
+  else {
+    decNumberExp (&ex, x, set);
+    decNumberMinus (&mx, x, set);
+    decNumberExp (&emx, &mx, set);
+    decNumberSubtract (&result, &ex, &emx, set);
+    decNumberFromString (&two, "2", set);
+    decNumberDivide (&result, &result, &two, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 }
 
-decNumber* decNumberCosh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberCosh (decNumber *_result, decNumber *x, decContext *set)
 {
   // cosh x = (e^x + e^-x)/2
-  decNumber ex, emx, mx, two;
+  decNumber ex, emx, mx, two, zero, result;
 
+  DEC_STASH_CONTEXT (set, &zero);
   decNumberExp (&ex, x, set);
   decNumberMinus (&mx, x, set);
   decNumberExp (&emx, &mx, set);
-  decNumberAdd (result, &ex, &emx, set);
+  decNumberAdd (&result, &ex, &emx, set);
   decNumberFromString (&two, "2", set);
-  decNumberDivide (result, result, &two, set);
-  return result;
+  decNumberDivide (&result, &result, &two, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberCosh  */
 
-decNumber* decNumberTanh (decNumber *result, decNumber *x, decContext *set)
+decNumber* decNumberTanh (decNumber *_result, decNumber *x, decContext *set)
 {
   // tanh x = sinh x / cosh x = (e^x - e^-x) / (e^x + e^-x)
-  decNumber ex, emx, mx, denominator;
-  decNumberExp (&ex, x, set);
-  decNumberMinus (&mx, x, set);
-  decNumberExp (&emx, &mx, set);
-  decNumberSubtract (result, &ex, &emx, set);
-  decNumberAdd (&denominator, &ex, &emx, set);
-  decNumberDivide (result, result, &denominator, set);
-  return result;
+  static const int series[][2] = {{-1, 3}, {2, 15}};
+  decNumber ex, emx, mx, denominator, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  if (IS_TINY (x))
+    decNumberSeries (&result, x, 2, 2, series, set);
+  else if (x->exponent + x->digits > 3)
+    // |x| >= 1000: 1 - |tanh x| < 10^-800
+    decNumberFromInt32 (&result, decNumberIsNegative (x) ? -1 : 1);
+  else {
+    decNumberExp (&ex, x, set);
+    decNumberMinus (&mx, x, set);
+    decNumberExp (&emx, &mx, set);
+    decNumberSubtract (&result, &ex, &emx, set);
+    decNumberAdd (&denominator, &ex, &emx, set);
+    decNumberDivide (&result, &result, &denominator, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberTanh  */
 
+decNumber* decNumberExpm1 (decNumber *_result, decNumber *x, decContext *set)
+{
+  static const int series[][2] = {{1, 2}, {1, 6}, {1, 24}, {1, 120}};
+  decNumber one, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  if (IS_TINY (x))
+    decNumberSeries (&result, x, 1, 4, series, set);
+  else {
+    decNumberFromString (&one, "1", set);
+    decNumberExp (&result, x, set);
+    decNumberSubtract (&result, &result, &one, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberExpm1  */
+
+decNumber* decNumberLog1p (decNumber *_result, decNumber *x, decContext *set)
+{
+  static const int series[][2] = {{-1, 2}, {1, 3}, {-1, 4}, {1, 5}};
+  decNumber one, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  if (IS_TINY (x))
+    decNumberSeries (&result, x, 1, 4, series, set);
+  else {
+    decNumberFromString (&one, "1", set);
+    decNumberAdd (&result, x, &one, set);
+    decNumberLn (&result, &result, set);
+  }
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberLog1p  */
+
+decNumber* decNumberAsinh (decNumber *_result, decNumber *y, decContext *set)
+{
+  // asinh x = log1p (x + x^2/(1 + sqrt (1 + x^2))), for x >= 0
+  decNumber x, x2, one, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromString (&one, "1", set);
+  decNumberAbs (&x, y, set);
+  decNumberMultiply (&x2, &x, &x, set);
+  decNumberAdd (&result, &x2, &one, set);
+  decNumberSquareRoot (&result, &result, set);
+  decNumberAdd (&result, &result, &one, set);
+  decNumberDivide (&result, &x2, &result, set);
+  decNumberAdd (&result, &result, &x, set);
+  decNumberLog1p (&result, &result, set);
+  if (decNumberIsNegative (y))
+    decNumberMinus (&result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAsinh  */
+
+decNumber* decNumberAcosh (decNumber *_result, decNumber *x, decContext *set)
+{
+  // acosh x = log1p (t + sqrt (t*(t+2))), t = x-1
+  decNumber t, one, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromString (&one, "1", set);
+  decNumberSubtract (&t, x, &one, set);
+  decNumberAdd (&result, x, &one, set);
+  decNumberMultiply (&result, &result, &t, set);
+  decNumberSquareRoot (&result, &result, set);
+  decNumberAdd (&result, &result, &t, set);
+  decNumberLog1p (&result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAcosh  */
+
+decNumber* decNumberAtanh (decNumber *_result, decNumber *y, decContext *set)
+{
+  // atanh x = log1p (2*x/(1-x)) / 2, for 0 <= x < 1
+  decNumber x, one, two, zero, result;
+
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberFromString (&one, "1", set);
+  decNumberFromString (&two, "2", set);
+  decNumberAbs (&x, y, set);
+  decNumberSubtract (&result, &one, &x, set);
+  decNumberDivide (&result, &x, &result, set);
+  decNumberMultiply (&result, &result, &two, set);
+  decNumberLog1p (&result, &result, set);
+  decNumberDivide (&result, &result, &two, set);
+  if (decNumberIsNegative (y))
+    decNumberMinus (&result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
+} /* decNumberAtanh  */
+
 // ----------------------------------------------------------------------
 // Trigonometric Functions
 // ----------------------------------------------------------------------
@@ -683,21 +823,23 @@ decNumber* decNumberCos (decNumber *_result, decNumber *y, decContext *set)
   return _result;
 } /* decNumberCos  */
 
-decNumber* decNumberTan (decNumber *result, decNumber *y, decContext *set)
+decNumber* decNumberTan (decNumber *_result, decNumber *y, decContext *set)
 {
   // tan x = sin x / cos x
-  decNumber denominator;
+  decNumber denominator, zero, result;
 
-  decNumberSin (result, y, set);
+  DEC_STASH_CONTEXT (set, &zero);
+  decNumberSin (&result, y, set);
   decNumberCos (&denominator, y, set);
   if (decNumberIsZero (&denominator))
-    decNumberFromString (result, "NaN", set);
+    decNumberFromString (&result, "NaN", set);
   else
-    decNumberDivide (result, result, &denominator, set);
-  return result;
+    decNumberDivide (&result, &result, &denominator, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberTan  */
 
-decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set) 
+decNumber* decNumberAtan (decNumber *_result, decNumber *y, decContext *set)
 {
   //                 x^3   x^5   x^7
   // arctan(x) = x - --- + --- - --- + ...
@@ -715,24 +857,33 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   // The second application gives us a new x with x < 0.4142136.
   // For that x, we use the power series and multiply the result by four.
   
-  decNumber f, g, mx2, one, two, term;
+  static const int series[][2] = {{-1, 3}, {1, 5}};
+  decNumber f, g, mx2, one, two, term, x, zero, result;
   int i;
 
-  decNumberFromString (&one, "1", set);
-  decNumberFromString (&two, "2", set);
+  if (decNumberIsZero (y)) {
+    decNumberCopy (_result, y);
+    return _result;
+  }
 
-  if (decNumberIsZero (x)) {
-    decNumberCopy (result, x);
-    return result;
+  DEC_STASH_CONTEXT (set, &zero);
+  if (IS_TINY (y)) {
+    decNumberSeries (&result, y, 2, 2, series, set);
+    DEC_RESTORE_ROUND (set, _result, &result, &zero);
+    return _result;
   }
 
+  decNumberFromString (&one, "1", set);
+  decNumberFromString (&two, "2", set);
+  decNumberCopy (&x, y);
+
   for (i=0; i<2; i++) {
-    decNumber y;
-    decNumberMultiply (&y, x, x, set);     // y = x^2
-    decNumberAdd (&y, &y, &one, set);      // y = y+1
-    decNumberSquareRoot (&y, &y, set);     // y = sqrt(y)
-    decNumberSubtract (&y, &y, &one, set); // y = y-1
-    decNumberDivide (x, &y, x, set);       // x = y/x
+    decNumber r;
+    decNumberMultiply (&r, &x, &x, set);   // r = x^2
+    decNumberAdd (&r, &r, &one, set);      // r = r+1
+    decNumberSquareRoot (&r, &r, set);     // r = sqrt(r)
+    decNumberSubtract (&r, &r, &one, set); // r = r-1
+    decNumberDivide (&x, &r, &x, set);     // x = r/x
   }
   // f(0) = x
   // f(i) = f(i-1) * (-x^2)
@@ -741,11 +892,11 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
   // g(i) = g(i-1) + 2
   //
   // term(i) = f(i) / g(i)
-  decNumberCopy (&f, x);     // f(0) = x
+  decNumberCopy (&f, &x);    // f(0) = x
   decNumberCopy (&g, &one);  // g(0) = 1
-  decNumberCopy (&term, x);  // term = x
-  decNumberCopy (result, x); // sum  = x 
-  decNumberMultiply (&mx2, x, x, set); // mx2 = x^2
+  decNumberCopy (&term, &x); // term = x
+  decNumberCopy (&result, &x); // sum  = x 
+  decNumberMultiply (&mx2, &x, &x, set); // mx2 = x^2
   decNumberMinus (&mx2, &mx2, set);    // mx2 = -x^2  
   // Since x is less than sqrt(2)-1 = 0.4142...,
   // each term is smaller than the previous term by a factor of about 6,
@@ -760,10 +911,11 @@ decNumber* decNumberAtan (decNumber *result, decNumber *x, decContext *set)
     // term = f/g
     decNumberDivide (&term, &f, &g, set);
     // sum = sum + term
-    decNumberAdd (result, result, &term, set);
+    decNumberAdd (&result, &result, &term, set);
   }
   // Multiply result by four.
-  decNumberAdd (result, result, result, set);
-  decNumberAdd (result, result, result, set);
-  return result;
+  decNumberAdd (&result, &result, &result, set);
+  decNumberAdd (&result, &result, &result, set);
+  DEC_RESTORE_ROUND (set, _result, &result, &zero);
+  return _result;
 } /* decNumberAtan  */
diff --git a/decNumberMath/decNumberMath.h b/decNumberMath/decNumberMath.h
index e04815f..260b259 100644
--- a/decNumberMath/decNumberMath.h
+++ b/decNumberMath/decNumberMath.h
@@ -36,6 +36,16 @@ extern decNumber* decNumberCosh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberCosh)
 extern decNumber* decNumberTanh (decNumber *, decNumber *, decContext *);
 hidden_proto (decNumberTanh)
+extern decNumber* decNumberAsinh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAsinh)
+extern decNumber* decNumberAcosh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAcosh)
+extern decNumber* decNumberAtanh (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberAtanh)
+extern decNumber* decNumberExpm1 (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberExpm1)
+extern decNumber* decNumberLog1p (decNumber *, decNumber *, decContext *);
+hidden_proto (decNumberLog1p)
 
 /* Trigonometric Functions */
 extern decNumber* decNumberSin (decNumber *, decNumber *, decContext *);
diff --git a/ieee754r/acoshd32.c b/ieee754r/acoshd32.c
index 82acb92..6fa87b4 100644
--- a/ieee754r/acoshd32.c
+++ b/ieee754r/acoshd32.c
@@ -45,10 +45,9 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  decNumber dn_x;
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x))
@@ -80,12 +79,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberSubtract (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAcosh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/asinhd32.c b/ieee754r/asinhd32.c
index c07f2d4..5fe946a 100644
--- a/ieee754r/asinhd32.c
+++ b/ieee754r/asinhd32.c
@@ -43,11 +43,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   decContext context;
   decNumber dn_result;
-  DEC_TYPE result, one;
-  decNumber dn_x, dn_one;
+  DEC_TYPE result;
+  decNumber dn_x;
 
-  one = DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x)
@@ -57,12 +55,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
     }
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-  /* using trig identity: acosh(x) = log(x+sqrt(x*x-1)) */
-  decNumberMultiply (&dn_result, &dn_x, &dn_x, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_one, &context);
-  decNumberSquareRoot (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_result, &dn_result, &dn_x, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
+  decNumberAsinh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/atanhd32.c b/ieee754r/atanhd32.c
index ffc2bcc..380c279 100644
--- a/ieee754r/atanhd32.c
+++ b/ieee754r/atanhd32.c
@@ -45,11 +45,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContext context;
   decNumber dn_result;
   DEC_TYPE result, one, temp;
-  decNumber dn_x, dn_temp, dn_one;
+  decNumber dn_x, dn_temp;
 /*  int comp;*/
 
   one=DFP_CONSTANT(1.0);
-  FUNC_CONVERT_TO_DN (&one, &dn_one);
   FUNC_CONVERT_TO_DN (&x, &dn_x);
 
   /*  Handle NaN and early exit for x==0 */
@@ -81,13 +80,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 //	return DFP_NAN;
 //    }
 
-  /* Using trig identity: atanh(x) = 1/2 * log((1+x)/(1-x)) */
-  decNumberAdd (&dn_result, &dn_one, &dn_x, &context);
-  decNumberSubtract (&dn_temp, &dn_one, &dn_x, &context);
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
-  decNumberLn (&dn_result, &dn_result, &context);
-  decNumberAdd (&dn_temp, &dn_one, &dn_one, &context); /* 2 */
-  decNumberDivide (&dn_result, &dn_result, &dn_temp, &context);
+  decNumberAtanh (&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
diff --git a/ieee754r/expm1d32.c b/ieee754r/expm1d32.c
index 3ce810f..2707c30 100644
--- a/ieee754r/expm1d32.c
+++ b/ieee754r/expm1d32.c
@@ -47,21 +47,16 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decNumber dn_result;
   DEC_TYPE result;
   decNumber dn_x;
-  decNumber dn_one;
-  decNumber dn_exponent;
-  DEC_TYPE one = DFP_CONSTANT(1.0);
 
   FUNC_CONVERT_TO_DN(&x, &dn_x);
-  FUNC_CONVERT_TO_DN(&one, &dn_one);
-  if (decNumberIsNaN (&dn_x))
+  if (decNumberIsNaN (&dn_x) || decNumberIsZero (&dn_x))
     return x+x;
 
   if (decNumberIsInfinite (&dn_x))
     return decNumberIsNegative (&dn_x) ? DFP_CONSTANT(-1.0) : x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
-  decNumberExp(&dn_exponent, &dn_x, &context);
-  decNumberSubtract(&dn_result, &dn_exponent, &dn_one, &context);
+  decNumberExpm1(&dn_result, &dn_x, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/log1pd32.c b/ieee754r/log1pd32.c
index f86084d..fb65bd9 100644
--- a/ieee754r/log1pd32.c
+++ b/ieee754r/log1pd32.c
@@ -71,7 +71,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
       return DFP_NAN;
     }
 
-  decNumberLn(&dn_result, &dn_sum, &context);
+  decNumberLog1p(&dn_result, &dn_x, &context);
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
 
-- 
2.43.0


From 01c49fee53c867d0bef5f07618d716d061f20ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 26/58] fix: fma rounds once, in the current decimal rounding
 mode

The product was rounded to the format's precision, and could overflow or
underflow, before the addition, and the sum was always rounded to nearest.
---
 ieee754r/fmad32.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 268f042..3c6d9a4 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #include <decNumberMath.h>
 
@@ -48,7 +49,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_product;
   decNumber dn_z;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
@@ -71,16 +71,16 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
     return z+z;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_product, &dn_x, &dn_y, &context);
+  context.round = __dn_getround ();
+  decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
-  if (decNumberIsInfinite (&dn_product) && decNumberIsInfinite (&dn_z) &&
-	(decNumberIsNegative (&dn_product) != decNumberIsNegative (&dn_z)))
+  if (decNumberIsNaN (&dn_result))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  decNumberAdd (&dn_result, &dn_product, &dn_z, &context);
+
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
-- 
2.43.0


From eb7e7ee84cb08c7e7a9eecc78a931375ea53c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 27/58] fix: sqrt rounds in the current decimal rounding mode

It always rounded to nearest, unlike the other correctly rounded
operations of IEEE 754.
---
 ieee754r/sqrtd32.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ieee754r/sqrtd32.c b/ieee754r/sqrtd32.c
index 4602095..8e000f2 100644
--- a/ieee754r/sqrtd32.c
+++ b/ieee754r/sqrtd32.c
@@ -34,6 +34,7 @@
 #include <errno.h>
 
 #include <decNumberMath.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME sqrt
 
@@ -63,6 +64,29 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContextDefault(&context, DEFAULT_CONTEXT);
   decNumberSquareRoot(&dn_result, &dn_x, &context);
 
+  /* decNumberSquareRoot rounds to nearest, which is never a tie, and the
+     result is never subnormal: for a directed mode compare its square.  */
+  int round = __dn_getround ();
+  if (round != DEC_ROUND_HALF_EVEN && round != DEC_ROUND_HALF_UP
+      && round != DEC_ROUND_HALF_DOWN)
+    {
+      int up = round == DEC_ROUND_CEILING || round == DEC_ROUND_UP;
+      decContext wide = context;
+      decNumber dn_diff;
+
+      wide.emax = DEC_MAX_MATH;
+      wide.emin = -DEC_MAX_MATH;
+      decNumberCopyNegate (&dn_diff, &dn_x);
+      decNumberFMA (&dn_diff, &dn_result, &dn_result, &dn_diff, &wide);
+      if (!decNumberIsZero (&dn_diff))
+	{
+	  if (up && decNumberIsNegative (&dn_diff))
+	    decNumberNextPlus (&dn_result, &dn_result, &context);
+	  else if (!up && !decNumberIsNegative (&dn_diff))
+	    decNumberNextMinus (&dn_result, &dn_result, &context);
+	}
+    }
+
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
   return result;
-- 
2.43.0


From fa023d86dac1221837592550934eef4960009d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 28/58] fix: hypot when a square overflows or underflows, and
 of -infinity

hypot returned infinity or zero for operands whose squares are out of
range although the result is not, and -infinity for an operand -infinity.
---
 ieee754r/hypotd32.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 3c06b93..637364d 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -55,16 +55,21 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
   if (decNumberIsInfinite (&dn_x))
-    return x;
+    return FUNC_D(__fabs) (x);
   if (decNumberIsInfinite (&dn_y))
-    return y;
+    return FUNC_D(__fabs) (y);
   if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
     return x+y;
 
+  /* The squares must not overflow or underflow.  */
   decContextDefault (&context, DEFAULT_CONTEXT);
+  context.emax = DEC_MAX_MATH;
+  context.emin = -DEC_MAX_MATH;
   decNumberMultiply (&dn_xx, &dn_x, &dn_x, &context);
   decNumberMultiply (&dn_yy, &dn_y, &dn_y, &context);
   decNumberAdd (&dn_sum, &dn_xx, &dn_yy, &context);
+
+  decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberSquareRoot (&dn_result, &dn_sum, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
-- 
2.43.0


From 3093d1bd652efd0cbede4f6bd078d0d43d199f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 29/58] fix: modf of an infinity stores the infinity as the
 integral part

---
 ieee754r/modfd32.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieee754r/modfd32.c b/ieee754r/modfd32.c
index 79ddb5d..18990fd 100644
--- a/ieee754r/modfd32.c
+++ b/ieee754r/modfd32.c
@@ -51,8 +51,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
       *y = x;
       return x+x;
     }
-   if (decNumberIsInfinite (&dn_x))
-    return DFP_CONSTANT(0.0)/x;
+  if (decNumberIsInfinite (&dn_x))
+    {
+      *y = x;
+      return DFP_CONSTANT(0.0)/x;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;	/* round towards zero */
-- 
2.43.0


From 67dd8cca73ec2734e1d1aa6dc52a052a1953c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 30/58] fix: remainder is exact for every quotient, and EDOM
 only on domain errors

The quotient was rounded to the format's precision before and after
rounding it to an integer, and errno was set to EDOM for every finite x.
---
 ieee754r/remainderd32.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 7af09f2..c5d28f6 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -46,8 +46,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_mult;
-  decNumber dn_rounded;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
   FUNC_CONVERT_TO_DN (&y, &dn_y);
@@ -62,11 +60,11 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
-  context.round = DEC_ROUND_HALF_EVEN;
-  decNumberToIntegralValue (&dn_rounded, &dn_mult, &context);
-  decNumberMultiply (&dn_mult, &dn_rounded, &dn_y, &context);
-  decNumberSubtract (&dn_result, &dn_x, &dn_mult, &context);
+
+  /* The remainder is exact.  The precision is for the integer quotient.  */
+  context.digits = 2 * (context.emax - context.emin);
+  decNumberRemainderNear (&dn_result, &dn_x, &dn_y, &context);
+  decContextDefault (&context, DEFAULT_CONTEXT);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
@@ -77,7 +75,8 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isinf) (x) || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
+  if ((FUNC_D(__isinf) (x) && !FUNC_D(__isnan) (y))
+      || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 050840c0a5afff624ea24d269a3a1fdb5c470459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 31/58] fix: exp of subnormal results, of NaN, and ERANGE on
 overflow

expd64 and expd128 returned zero where the result is subnormal, expd64 used
a NaN as a table index, and expd128 overflowed without setting errno.
---
 ieee754r/expd128.c | 12 +++++++++---
 ieee754r/expd64.c  |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index a826c9e..a79b8fc 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -31,6 +31,7 @@
 #include <math.h>
 #include <ieee754r_private.h>
 #include <dfp/fenv.h>
+#include <errno.h>
 
 #include "dfp_inline.h"
 
@@ -68,9 +69,10 @@ __expd128 (_Decimal128 val)
   _Decimal128 n, t, ex, x, xl, cp;
   int tval1, tval2;
 
-  /* Computed by interval using mpfr in 512b precision */
+  /* Computed by interval using mpfr in 512b precision.  Below min the result
+     is less than half the least subnormal.  */
   const _Decimal128 max = 14149.38539644841072829055748903541DL;
-  const _Decimal128 min = -14144.78022626242263692252150612604DL;
+  const _Decimal128 min = -14221.45868151178608980453245625209DL;
 
   if (!(val >= min && val <= max))
     {
@@ -78,7 +80,11 @@ __expd128 (_Decimal128 val)
       if (__builtin_isnan (val))
 	return val + val;
       else if (val > max)
-	return DEC_INFINITY;
+	{
+	  if (__isfinited128 (val))
+	    errno = ERANGE;
+	  return DEC_INFINITY;
+	}
       else
 	return 0.0DL;
     }
diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 0dbb347..4a9c773 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -59,6 +59,8 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   int neg = 0;
 
+  if (__isnand64(val))
+    return val + val;
   if (__isinfd64(val))
     {
       if (val < DFP_CONSTANT(0.0))
@@ -80,7 +82,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
 
   /* via 1024 bits of mpfr and rtn: log(9.999999999999999e+384). */
   if (val >= 886.49526080270759DD)
-    return neg ? DFP_CONSTANT(0.0) : DFP_INF;
+    return neg ? (DEC_TYPE) __expd128 (-(_Decimal128) val) : DFP_INF;
 
   if (fraction != 0.0DD)
     {
-- 
2.43.0


From 086128a38f3137a2ae41a89cc57c39d15686790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 32/58] fix: logd64 near 0.49 and just below one

The table entry for ln(0.49) had two wrong digits, and for arguments just
below one the sum cancelled.
---
 ieee754r/ddlogtbls.h | 2 +-
 ieee754r/logd64.c    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ieee754r/ddlogtbls.h b/ieee754r/ddlogtbls.h
index 98f768b..054c640 100644
--- a/ieee754r/ddlogtbls.h
+++ b/ieee754r/ddlogtbls.h
@@ -76,7 +76,7 @@ const _Decimal128 __LN2digits [] = {
 	-0.7765287894989963678119979561003557DL, /* ln(0.46DL) */
 	-0.7550225842780327812150322395965547DL, /* ln(0.47DL) */
 	-0.7339691750802004389718091866134964DL, /* ln(0.48DL) */
-	-0.7133498878974647578252974224823690DL, /* ln(0.49DL) */
+	-0.7133498878774647578252774224823690DL, /* ln(0.49DL) */
 	-0.6931471805599453094172321214581766DL, /* ln(0.50DL) */
 	-0.6733445532637655963912030545730762DL, /* ln(0.51DL) */
 	-0.6539264674066640131480312248870567DL, /* ln(0.52DL) */
diff --git a/ieee754r/logd64.c b/ieee754r/logd64.c
index 4187f98..b37367e 100644
--- a/ieee754r/logd64.c
+++ b/ieee754r/logd64.c
@@ -81,6 +81,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE val)
   if (__isinfd64(val))
     return val;
 
+  /* Just below one the sum below cancels.  */
+  if (val > 0.95DD && val < 1.00DD)
+    return __logd128 (val);
+
   result = __frexpd64 (val, &exp);
 
   tmp = result * 100.0DD;
-- 
2.43.0


From 847b834ce436751df179d8a102be87d8be160359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 33/58] fix: logd128 sets ERANGE for a pole and EDOM for a
 domain error

The two were swapped.
---
 ieee754r/logd128.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index 4deef4c..c4394ee 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,12 +68,12 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
-	  DFP_ERRNO (EDOM);
+	  DFP_ERRNO (ERANGE);
 	  return -DEC_INFINITY;
 	}
       else
 	{
-	  DFP_ERRNO (ERANGE);
+	  DFP_ERRNO (EDOM);
 	  return DFP_NAN;
 	}
     }
-- 
2.43.0


From f24a706710a32df4d64e0de24bbe911485e1c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 34/58] fix: cbrt to the precision of _Decimal64 and
 _Decimal128

The initial approximation is for a mantissa in [0.5, 1), not the decimal
[0.1, 1), so that three Newton steps gave only some ten digits.
---
 ieee754r/cbrtd32.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ieee754r/cbrtd32.c b/ieee754r/cbrtd32.c
index bb64505..f4743d1 100644
--- a/ieee754r/cbrtd32.c
+++ b/ieee754r/cbrtd32.c
@@ -144,10 +144,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   /* multiply by power of 2 */
   x = FUNC_D(__ldexp) (x, e);
 
-  /* Newton iteration */
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
-  x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
+  /* Newton iteration.  The approximation above is off by up to a fifth for
+     a mantissa near 0.1.  */
+  for (rem = 0; rem < 6; rem++)
+    x -= (x - (z / (x * x))) * 0.3333333333333333333333333333333333333333DL;
 
   if (sign < 0)
     x = -x;
-- 
2.43.0


From 43a59fccc30851508e021c42d5e797d62ec62f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 35/58] fix: pow of subnormal, zero and negative operands, and
 powd32 overflow

A condition meant for finite non-zero operands tested y twice, so that a
subnormal base or exponent gave NaN and any base with a subnormal exponent
was taken for finite. pow (-0, negative odd) lost its sign, a negative base
with a huge exponent gave NaN, and powd32 overflowed without ERANGE.
---
 ieee754r/powd32.c | 9 ++++++++-
 ieee754r/powd64.c | 7 +++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index d335960..92c8f0d 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -24,12 +24,19 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
 
 _Decimal32
 __powd32 (_Decimal32 x, _Decimal32 y)
 {
-  return (_Decimal32) __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal64 z = __powd64 ((_Decimal64) x, (_Decimal64) y);
+  _Decimal32 r = (_Decimal32) z;
+
+  /* Overflow of the narrower format */
+  if (!isfinite (r) && isfinite (z))
+    errno = ERANGE;
+  return r;
 }
 weak_alias(__powd32, powd32)
diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index dd11f6b..abbb8df 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -80,7 +80,8 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   int y_class = __fpclassifyd64 (y);
   if (!(x_class == FP_NORMAL && y_class == FP_NORMAL))
     {
-      if (y_class == FP_SUBNORMAL && y_class == FP_SUBNORMAL)
+      if ((x_class == FP_NORMAL || x_class == FP_SUBNORMAL)
+	  && (y_class == FP_NORMAL || y_class == FP_SUBNORMAL))
 	{
 	  /* Handle normally */
 	}
@@ -97,7 +98,7 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
 	  if (y_class == FP_INFINITE)
 	    return y < 0.DD ? DEC_INFINITY : 0.DD;
 	  if (isodd(y))
-	    return y < 0.DD ? DEC_INFINITY : __copysignd64(0.DD, x);
+	    return __copysignd64(y < 0.DD ? DEC_INFINITY : 0.DD, x);
 	  return y < 0.DD ? DEC_INFINITY : 0.DD;
 	}
       else if (y_class == FP_INFINITE)
@@ -153,6 +154,8 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
       /* TODO: the following will likely be inaccurate, but hopefully not blatantly wrong.
                Fixing this requires a better implementation.  */
       y_int = 0.DD;
+      /* An integer this large is even.  */
+      x = __fabsd64 (x);
     }
 
   y_frac = y - y_int;
-- 
2.43.0


From c407350ced4951029174a12fde22454b1d161be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 36/58] fix: atan2 when the quotient overflows

The result was NaN instead of pi/2.
---
 ieee754r/atan2d32.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieee754r/atan2d32.c b/ieee754r/atan2d32.c
index 49108ba..2c3a55f 100644
--- a/ieee754r/atan2d32.c
+++ b/ieee754r/atan2d32.c
@@ -65,6 +65,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE y, DEC_TYPE x)
     {
       decContextDefault (&context, DEFAULT_CONTEXT);
       decNumberDivide (&dn_temp, &dn_y, &dn_x, &context);
+      if (decNumberIsInfinite (&dn_temp))	/* The quotient overflowed.  */
+	return decNumberIsNegative (&dn_y) ? -M_PI_2dl : M_PI_2dl;
       decNumberAtan (&dn_result, &dn_temp, &context);
       FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
       /* decNumberAtan doesn't quite return the values in the ranges we
-- 
2.43.0


From a7c43a81dee4b9d057ba94e5ac28b4747cd011c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 37/58] fix: erf and erfc of large arguments, and the digits of
 erfc

Arguments above 0x7fff0000 were taken for infinities or NaN, erfcd128
underflowed too early, and the square in its exponential was not exact.
---
 ieee754r/erfd32.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ieee754r/erfd32.c b/ieee754r/erfd32.c
index 809891a..2dde6c5 100644
--- a/ieee754r/erfd32.c
+++ b/ieee754r/erfd32.c
@@ -775,7 +775,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   a = FUNC_D(__fabs) (x);
 
-  if (a >= 0x7fff0000)		/* erf(nan)=nan */
+  if (!FUNC_D(__isfinite) (x))	/* erf(nan)=nan */
     return (DEC_TYPE) ((1 - (sign<<1)) + one / x);	/* erf(+-inf)=+-1 */
 
   if (a >= 1.0DL) /* |x| >= 1.0 */
@@ -823,7 +823,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   sign = (x < 0.0DL);
   ix = FUNC_D(__fabs) (x);
 
-  if (ix >= 0x7fff0000)
+  if (!FUNC_D(__isfinite) (x))
     {				/* erfc(nan)=nan */
       /* erfc(+-inf)=0,2 */
       return (DEC_TYPE) ((sign << 1) + one / x);
@@ -886,8 +886,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 	y = 2.0DF - y;
       return y;
     }
-  /* 1.25 < |x| < 107 */
-  if (ix < 107.0DF)
+  /* 1.25 < |x| < 120 */
+  if (ix < 120.0DF)
     {
       /* x < -9 */
       if (x > 9.0DF && sign)
@@ -923,13 +923,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 	  p = neval (z, RNr8, NRNr8) / deval (z, RDr8, NRDr8);
 	  break;
 	}
-      /* Trim the value?
-      u.value = x;
-      u.parts32.w3 = 0;
-      u.parts32.w2 &= 0xfe000000;
-      z = u.value;
-      */
-      z = ix;
+      /* Trim the value so that its square is exact.  */
+      z = (_Decimal64) ix;
       r = __expd128 (-z * z - 0.5625DF) * __expd128 ((z - x) * (z + x) + p);
       if (!sign)
 	return (DEC_TYPE)(r / x);
-- 
2.43.0


From 4e2b9df8d1beaa65e1fcf5fcbe831467c53ac1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 38/58] fix: tgamma of -0, negative integers and -infinity, and
 its digits

tgamma (-0) lost its sign, tgamma (-infinity) was infinity, negative
integers set ERANGE instead of EDOM, and the narrower formats lost up to
three digits in the exponential of a rounded logarithm.
---
 ieee754r/tgammad32.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index b4c1cf5..5124f2e 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -47,23 +47,23 @@ FUNC_D (__lgamma_r) (DEC_TYPE, int *);
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x)
 {
-  DEC_TYPE result, gamma;
+  _Decimal128 result, gamma;
   int local_signgam;
 
   if (x == DFP_CONSTANT(0.0))	/*  Pole error if x== +-0 */
     {
       DFP_EXCEPT (FE_DIVBYZERO);
-//      return FUNC_D (__builtin_signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
-      return (x<0) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
+      return FUNC_D (__signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
     }
-  if (x < DFP_CONSTANT(0.0) && (!FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) || FUNC_D (__rint) (x) == x) )
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
 
-  gamma = FUNC_D(__lgamma_r) (x,&local_signgam);
-  result = local_signgam * FUNC_D(__exp) (gamma);
+  /* The error of the exponential grows with gamma.  */
+  gamma = __lgamma_rd128 (x,&local_signgam);
+  result = local_signgam * __expd128 (gamma);
 
   return result;
 }
@@ -73,9 +73,9 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
+  if (FUNC_D(__isinf) (z) && FUNC_D(__isfinite) (x))
     DFP_ERRNO (ERANGE);
-  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (FUNC_D(__isnan) (z) && !FUNC_D(__isnan) (x))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 990d87774786d120a4296268831b73cd124bdb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 39/58] fix: lgamma of tiny negative arguments, and its sign
 for large ones

---
 ieee754r/lgammad32.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieee754r/lgammad32.c b/ieee754r/lgammad32.c
index d09bfa5..3530998 100644
--- a/ieee754r/lgammad32.c
+++ b/ieee754r/lgammad32.c
@@ -801,8 +801,7 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 	  DFP_EXCEPT (FE_DIVBYZERO);
 	  return DFP_HUGE_VAL;
 	}
-      i = p;
-      if ((i & 1) == 0)
+      if (__fmodd128 (p, 2.0DL) == 0.0DL)
 	*signgamp = -1;
       z = q - p;
       if (z > 0.5DL)
@@ -810,6 +809,9 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
 	  p += 1.0DL;
 	  z = p - q;
 	}
+      /* Near zero |gamma (x)| is 1/|x|, and x^2 could underflow.  */
+      if (q < 1e-40DL)
+	return (DEC_TYPE) -__logd128 (q);
       z = q * __sind128 (M_PIdl * z);
       if (z == 0.0DL)
 	{
-- 
2.43.0


From 8e46223d67e1f80bcf6c2d29f82d6f0a36aa8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 40/58] fix: powd32 calls the library's own isfinite without
 the PLT

---
 ieee754r/powd32.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index 92c8f0d..e2f337a 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -25,6 +25,7 @@
 
 #include <math.h>
 #include <errno.h>
+#include <ieee754r_private.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
 
@@ -35,7 +36,7 @@ __powd32 (_Decimal32 x, _Decimal32 y)
   _Decimal32 r = (_Decimal32) z;
 
   /* Overflow of the narrower format */
-  if (!isfinite (r) && isfinite (z))
+  if (!__isfinited32 (r) && __isfinited64 (z))
     errno = ERANGE;
   return r;
 }
-- 
2.43.0


From 09feb1a54e0e59bfc4b3b7318178a6e8b99c0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 41/58] fix: wrong digits in twelve entries of the tables of
 exp(n) and ln(n/100)

---
 ieee754r/ddlogtbls.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ieee754r/ddlogtbls.h b/ieee754r/ddlogtbls.h
index 054c640..87d9300 100644
--- a/ieee754r/ddlogtbls.h
+++ b/ieee754r/ddlogtbls.h
@@ -82,7 +82,7 @@ const _Decimal128 __LN2digits [] = {
 	-0.6539264674066640131480312248870567DL, /* ln(0.52DL) */
 	-0.6348782724359695338915137703396706DL, /* ln(0.53DL) */
 	-0.6161861394238169844330150771429747DL, /* ln(0.54DL) */
-	-0.5978370007556204493732799981974115DL, /* ln(0.55DL) */
+	-0.5978370007556204493732799981774115DL, /* ln(0.55DL) */
 	-0.5798184952529421346789338015510190DL, /* ln(0.56DL) */
 	-0.5621189181535412166317102405583492DL, /* ln(0.57DL) */
 	-0.5447271754416720314354787555486402DL, /* ln(0.58DL) */
@@ -179,7 +179,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.0DL, /* exp(0.0DL) */
 	2.718281828459045235360287471352662DL, /* exp(1.0DL) */
 	7.389056098930650227230427460575008DL, /* exp(2.0DL) */
-	20.08553692318766974092852965458172DL, /* exp(3.0DL) */
+	20.08553692318766774092852965458172DL, /* exp(3.0DL) */
 	54.59815003314423907811026120286088DL, /* exp(4.0DL) */
 	148.4131591025766034211155800405523DL, /* exp(5.0DL) */
 	403.4287934927351226083871805433883DL, /* exp(6.0DL) */
@@ -203,7 +203,7 @@ const _Decimal128 __expIntXDL [] = {
 	26489122129.84347229413916215281188DL, /* exp(24.0DL) */
 	72004899337.38587252416135146612616DL, /* exp(25.0DL) */
 	195729609428.8387642697763978760953DL, /* exp(26.0DL) */
-	532048240601.7986166837473043411974DL, /* exp(27.0DL) */
+	532048240601.7986166837473043411774DL, /* exp(27.0DL) */
 	1446257064291.475173677047422996929DL, /* exp(28.0DL) */
 	3931334297144.042074388620580843528DL, /* exp(29.0DL) */
 	10686474581524.46214699046865074140DL, /* exp(30.0DL) */
@@ -211,7 +211,7 @@ const _Decimal128 __expIntXDL [] = {
 	78962960182680.69516097802263510822DL, /* exp(32.0DL) */
 	214643579785916.0646242977615312609DL, /* exp(33.0DL) */
 	583461742527454.8814029027346103910DL, /* exp(34.0DL) */
-	1586013452313430.728129644625974660DL, /* exp(35.0DL) */
+	1586013452313430.728129644625774660DL, /* exp(35.0DL) */
 	4311231547115195.227113422292856925DL, /* exp(36.0DL) */
 	11719142372802611.30877293979119019DL, /* exp(37.0DL) */
 	31855931757113756.22032867170129865DL, /* exp(38.0DL) */
@@ -337,7 +337,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.154589706104022437390577106831935e+68DL, /* exp(158.0DL) */
 	1.129334570280556947872702202187131e+69DL, /* exp(159.0DL) */
 	3.069849640644242466736457030165496e+69DL, /* exp(160.0DL) */
-	8.344716494264974360965835809202325e+69DL, /* exp(161.0DL) */
+	8.344716494264774360965835809202325e+69DL, /* exp(161.0DL) */
 	2.268329121000240471305839031261140e+70DL, /* exp(162.0DL) */
 	6.165957830579432532004967054378165e+70DL, /* exp(163.0DL) */
 	1.676081112590882772586107349772233e+71DL, /* exp(164.0DL) */
@@ -374,7 +374,7 @@ const _Decimal128 __expIntXDL [] = {
 	4.868822826641319706709336201865967e+84DL, /* exp(195.0DL) */
 	1.323483261564570355306938300562604e+85DL, /* exp(196.0DL) */
 	3.597600500180681130758662848849109e+85DL, /* exp(197.0DL) */
-	9.779292065696317602741493974881592e+85DL, /* exp(198.0DL) */
+	9.779292065696317602741493774881592e+85DL, /* exp(198.0DL) */
 	2.658287191737601973400328347238974e+86DL, /* exp(199.0DL) */
 	7.225973768125749258177477042189306e+86DL, /* exp(200.0DL) */
 	1.964223318681795865648486413742023e+87DL, /* exp(201.0DL) */
@@ -387,7 +387,7 @@ const _Decimal128 __expIntXDL [] = {
 	2.154032421824846569020981598875600e+90DL, /* exp(208.0DL) */
 	5.855267190158109347508158747532035e+90DL, /* exp(209.0DL) */
 	1.591626640377924159157186340777442e+91DL, /* exp(210.0DL) */
-	4.326489974230630919937147247796921e+91DL, /* exp(211.0DL) */
+	4.326489774230630919937147247796921e+91DL, /* exp(211.0DL) */
 	1.176061853430500122733564724127810e+92DL, /* exp(212.0DL) */
 	3.196867565323993534884678511593018e+92DL, /* exp(213.0DL) */
 	8.689987010810321382206327468404931e+92DL, /* exp(214.0DL) */
@@ -452,7 +452,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.650846383862075425813175768321853e+118DL, /* exp(273.0DL) */
 	9.924029383747695725897538647368045e+118DL, /* exp(274.0DL) */
 	2.697630873893497823276541791257137e+119DL, /* exp(275.0DL) */
-	7.332920984394789339791797649312974e+119DL, /* exp(276.0DL) */
+	7.332920984394789339791797649312774e+119DL, /* exp(276.0DL) */
 	1.993294586140636987940405781793673e+120DL, /* exp(277.0DL) */
 	5.418336452271886559100375698876231e+120DL, /* exp(278.0DL) */
 	1.472856551868792008087437247897063e+121DL, /* exp(279.0DL) */
@@ -557,7 +557,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.456512309747928310205062027767040e+164DL, /* exp(378.0DL) */
 	3.959210944514705822310560742686318e+164DL, /* exp(379.0DL) */
 	1.076225116551049803541837343424381e+165DL, /* exp(380.0DL) */
-	2.925483177651936727218575960974259e+165DL, /* exp(381.0DL) */
+	2.925483177651936727218575960774259e+165DL, /* exp(381.0DL) */
 	7.952287761273884428431842997922460e+165DL, /* exp(382.0DL) */
 	2.161655931614806197980514918359209e+166DL, /* exp(383.0DL) */
 	5.875990038289236239608284190826147e+166DL, /* exp(384.0DL) */
@@ -639,7 +639,7 @@ const _Decimal128 __expIntXDL [] = {
 	5.962956971409260822395127288810348e+199DL, /* exp(460.0DL) */
 	1.620899757926497623081284104932651e+200DL, /* exp(461.0DL) */
 	4.406062357725263759379850038557442e+200DL, /* exp(462.0DL) */
-	1.197691924206200182564330974252429e+201DL, /* exp(463.0DL) */
+	1.197691924206200182564330774252429e+201DL, /* exp(463.0DL) */
 	3.255664193661862052431253530725589e+201DL, /* exp(464.0DL) */
 	8.849812817195809529800229688135934e+201DL, /* exp(465.0DL) */
 	2.405628536624731937016932793996026e+202DL, /* exp(466.0DL) */
@@ -756,7 +756,7 @@ const _Decimal128 __expIntXDL [] = {
 	3.871828017611068619756333191738026e+250DL, /* exp(577.0DL) */
 	1.052471974319077600436351056214937e+251DL, /* exp(578.0DL) */
 	2.860915442753963560149385355110176e+251DL, /* exp(579.0DL) */
-	7.776974460795963023293133416439138e+251DL, /* exp(580.0DL) */
+	7.776774460795963023293133416439138e+251DL, /* exp(580.0DL) */
 	2.113946470080605596467762082192512e+252DL, /* exp(581.0DL) */
 	5.746302275955252943010619149104434e+252DL, /* exp(582.0DL) */
 	1.562006905756201809684652029738012e+253DL, /* exp(583.0DL) */
@@ -815,7 +815,7 @@ const _Decimal128 __expIntXDL [] = {
 	1.626636414927522393392903634887462e+276DL, /* exp(636.0DL) */
 	4.421656208207251754959015960656940e+276DL, /* exp(637.0DL) */
 	1.201930772246289711810497611562084e+277DL, /* exp(638.0DL) */
-	3.267186577262836658270402974456316e+277DL, /* exp(639.0DL) */
+	3.267186577262836658270402774456316e+277DL, /* exp(639.0DL) */
 	8.881133903158873299234272672967127e+277DL, /* exp(640.0DL) */
 	2.414142490506831928910472323441926e+278DL, /* exp(641.0DL) */
 	6.562319663255584349955503981011063e+278DL, /* exp(642.0DL) */
-- 
2.43.0


From c52260be405ef3b3bdf3eae81a31a7154e6bfa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 42/58] fix: fma with a product that is larger than the addend
 and longer than the precision

The addition of decNumberFMA assumes an addend of at most the precision, and
rounds wrongly otherwise.  Add exactly and round once.
---
 ieee754r/fmad32.c | 50 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 3c6d9a4..72ba035 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -41,11 +41,22 @@
 
 #include <dfpmacro.h>
 
+/* Digits of a sum that is computed exactly, and a number that has room for
+   that many.  */
+#define FMA_DIGITS (4 * DECNUMDIGITS + 4)
+
+typedef union
+{
+  decNumber n;
+  char space[sizeof (decNumber) + FMA_DIGITS * sizeof (decNumberUnit)];
+} fma_number;
+
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
 {
-  decContext context;
+  decContext context, wide;
   decNumber dn_result;
+  fma_number product, sum;
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
@@ -72,6 +83,42 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = __dn_getround ();
+  if (decNumberIsFinite (&dn_x) && !decNumberIsZero (&dn_x)
+      && decNumberIsFinite (&dn_y) && !decNumberIsZero (&dn_y)
+      && decNumberIsFinite (&dn_z) && !decNumberIsZero (&dn_z))
+    {
+      /* decNumberFMA does not round correctly when the product is both the
+	 larger operand of the addition and longer than the precision.  Add
+	 exactly, and let the conversion round.  */
+      decContextDefault (&wide, DEFAULT_CONTEXT);
+      wide.round = context.round;
+      wide.digits = FMA_DIGITS;
+      wide.emax = DEC_MAX_EMAX;
+      wide.emin = DEC_MIN_EMIN;
+      wide.clamp = 0;
+      decNumberMultiply (&product.n, &dn_x, &dn_y, &wide);
+
+      int ptop = product.n.exponent + product.n.digits;
+      int ztop = dn_z.exponent + dn_z.digits;
+      /* An operand that lies below the digits of the other one and below
+	 those of the result only matters by its sign.  */
+      if (ptop - dn_z.exponent > FMA_DIGITS - 2)
+	{
+	  dn_z.digits = 1;
+	  dn_z.lsu[0] = 1;
+	  dn_z.exponent = ptop - (FMA_DIGITS - 2);
+	}
+      else if (ztop - product.n.exponent > FMA_DIGITS - 2)
+	{
+	  product.n.digits = 1;
+	  product.n.lsu[0] = 1;
+	  product.n.exponent = ztop - (FMA_DIGITS - 2);
+	}
+      decNumberAdd (&sum.n, &product.n, &dn_z, &wide);
+      FUNC_CONVERT_FROM_DN (&sum.n, &result, &context);
+      return result;
+    }
+
   decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
@@ -81,7 +128,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
       return DFP_NAN;
     }
 
-
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   return result;
-- 
2.43.0


From 3ab9bcce93149f00734e2385346449b2ed086096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 43/58] fix: hypot with a zero operand is the absolute value of
 the other one

---
 ieee754r/hypotd32.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieee754r/hypotd32.c b/ieee754r/hypotd32.c
index 637364d..bf07a8d 100644
--- a/ieee754r/hypotd32.c
+++ b/ieee754r/hypotd32.c
@@ -60,6 +60,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     return FUNC_D(__fabs) (y);
   if (decNumberIsNaN (&dn_x) || decNumberIsNaN (&dn_y))
     return x+y;
+  if (decNumberIsZero (&dn_x))
+    return FUNC_D(__fabs) (y);
+  if (decNumberIsZero (&dn_y))
+    return FUNC_D(__fabs) (x);
 
   /* The squares must not overflow or underflow.  */
   decContextDefault (&context, DEFAULT_CONTEXT);
-- 
2.43.0


From 36ada9900c83054f47d0dd737d84389bde67c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 44/58] fix: powd128 of a negative base with a large exponent,
 and of tiny bases

decNumberPower takes a negative base only with an integer of up to nine
digits, overflowed on the reciprocal of a subnormal number and then returned
one, and the test for odd exponents lost the last digit of large ones.
---
 ieee754r/powd128.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ieee754r/powd128.c b/ieee754r/powd128.c
index 682ce05..885b20f 100644
--- a/ieee754r/powd128.c
+++ b/ieee754r/powd128.c
@@ -54,7 +54,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decNumber dn_two;
   decNumber dn_temp;
   decNumber dn_temp2;
-  decNumber dn_temp3;
   int y_is_int;
   int y_is_oddint=0;
   int abs_x_vs_1;
@@ -94,10 +93,12 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   if (y_is_int)
     {
       FUNC_CONVERT_TO_DN (&two, &dn_two);
-      decNumberDivide (&dn_temp, &dn_y, &dn_two, &context);
-      decNumberToIntegralValue (&dn_temp2, &dn_temp, &context);
-      decNumberSubtract (&dn_temp3, &dn_temp2, &dn_temp, &context);
-      y_is_oddint = !decNumberIsZero (&dn_temp3);
+      /* A value with a positive exponent is even.  */
+      if (decNumberIsFinite (&dn_y) && dn_y.exponent <= 0)
+	{
+	  decNumberRemainder (&dn_temp, &dn_y, &dn_two, &context);
+	  y_is_oddint = !decNumberIsZero (&dn_temp);
+	}
     }
 
   /*  Handle all special cases for which x = +-0 */
@@ -140,7 +141,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return DFP_NAN;
     }
 
-  decNumberPower (&dn_result, &dn_x, &dn_y, &context);
+  /* decNumberPower takes a negative base only with an exponent of up to
+     nine digits, and the reciprocal it starts a negative power from must not
+     overflow.  */
+  context.emax = DEC_MAX_MATH;
+  context.emin = -DEC_MAX_MATH;
+  decNumberPower (&dn_result, &dn_absx, &dn_y, &context);
+  if (decNumberIsNegative (&dn_x) && y_is_oddint)
+    dn_result.bits ^= DECNEG;
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
   if (context.status & DEC_Overflow)
-- 
2.43.0


From 3100df9384675990ece2f1ec02fa1234182fd9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 45/58] fix: remainder overran its result for operands with
 large exponents

The fold-down of exponents to the format has to be off while the precision is
not the one of the format.
---
 ieee754r/remainderd32.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index c5d28f6..b232897 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -63,6 +63,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 
   /* The remainder is exact.  The precision is for the integer quotient.  */
   context.digits = 2 * (context.emax - context.emin);
+  context.clamp = 0;
   decNumberRemainderNear (&dn_result, &dn_x, &dn_y, &context);
   decContextDefault (&context, DEFAULT_CONTEXT);
 
-- 
2.43.0


From b2403e1aac1e9df75ddfba2bf91abdc896b56739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:36 +0000
Subject: [PATCH 46/58] fix: lgamma and tgamma of huge arguments in directed
 rounding modes

---
 ieee754r/lgammad32.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ieee754r/lgammad32.c b/ieee754r/lgammad32.c
index 3530998..3237cad 100644
--- a/ieee754r/lgammad32.c
+++ b/ieee754r/lgammad32.c
@@ -1054,13 +1054,18 @@ FUNC_D (__lgamma_r) (DEC_TYPE x, int *signgamp)
       return (DEC_TYPE)(*signgamp * huge * huge);
     }
 
-  q = ls2pi - x;
-  q = (x - 0.5DL) * FUNC_D(__log) (x) + q;
-  if (x <= 1.0e18DL)
+  /* The sum below must not start from an overflow of its largest term.  */
+  if (x > 1.0e18DL)
     {
-      p = 1.0DL / (x * x);
-      q += neval (p, RASY, NRASY) / x;
+      q = FUNC_D(__log) (x);
+      q = (x - 0.5DL) * (q - 1.0DL) + (ls2pi - 0.5DL);
+      return (DEC_TYPE)(q);
     }
+
+  q = ls2pi - x;
+  q = (x - 0.5DL) * FUNC_D(__log) (x) + q;
+  p = 1.0DL / (x * x);
+  q += neval (p, RASY, NRASY) / x;
   return (DEC_TYPE)(q);
 }
 
-- 
2.43.0


From 51ce8d3fa586831825ff2cb19fa89652ef5f5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 47/58] fix: division depended on the binary rounding mode

The quotient is estimated in binary arithmetic with error bounds that only
hold in round-to-nearest, so fesetround changed the last digit of decimal
division and of what is computed with it.
---
 libbid/_div_dd.c | 10 ++++++++++
 libbid/_div_sd.c | 10 ++++++++++
 libbid/_div_td.c | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/libbid/_div_dd.c b/libbid/_div_dd.c
index 47dcfe3..1c556a4 100644
--- a/libbid/_div_dd.c
+++ b/libbid/_div_dd.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -28,10 +29,19 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal64
 __bid_divdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  int binary_rnd;
 
   ux.d = x;
   uy.d = y;
+
+  /* The quotient is estimated with binary arithmetic, which the decimal
+     result must not depend on.  */
+  binary_rnd = fegetround ();
+  if (binary_rnd != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   res.i = __bid64_div (ux.i, uy.i);
+  if (binary_rnd != FE_TONEAREST)
+    fesetround (binary_rnd);
   return (res.d);
 }
 hidden_def(__bid_divdd3);
diff --git a/libbid/_div_sd.c b/libbid/_div_sd.c
index bb05b8f..b96eae4 100644
--- a/libbid/_div_sd.c
+++ b/libbid/_div_sd.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -29,12 +30,21 @@ _Decimal32
 __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  int binary_rnd;
 
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
   y64 = __bid32_to_bid64 (uy.i);
+
+  /* The quotient is estimated with binary arithmetic, which the decimal
+     result must not depend on.  */
+  binary_rnd = fegetround ();
+  if (binary_rnd != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   res64 = __bid64_div (x64, y64);
+  if (binary_rnd != FE_TONEAREST)
+    fesetround (binary_rnd);
   res.i = __bid64_to_bid32 (res64);
   return (res.d);
 }
diff --git a/libbid/_div_td.c b/libbid/_div_td.c
index 97e15f6..9c2baec 100644
--- a/libbid/_div_td.c
+++ b/libbid/_div_td.c
@@ -21,6 +21,7 @@ a copy of the GCC Runtime Library Exception along with this program;
 see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 <http://www.gnu.org/licenses/>.  */
 
+#include <fenv.h>
 #include "bid_conf.h"
 #include "bid_functions.h"
 #include "bid_gcc_intrinsics.h"
@@ -28,10 +29,19 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal128
 __bid_divtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  int binary_rnd;
 
   ux.d = x;
   uy.d = y;
+
+  /* The quotient is estimated with binary arithmetic, which the decimal
+     result must not depend on.  */
+  binary_rnd = fegetround ();
+  if (binary_rnd != FE_TONEAREST)
+    fesetround (FE_TONEAREST);
   res.i = __bid128_div (ux.i, uy.i);
+  if (binary_rnd != FE_TONEAREST)
+    fesetround (binary_rnd);
   return (res.d);
 }
 hidden_def(__bid_divtd3);
-- 
2.43.0


From f26a61bd33c9f76219a8ba8f70c5d5892af66746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 48/58] fix: writing a decimal to a stream overran a 64-byte
 buffer

In fixed notation, or with a larger precision, the text of a value can be
thousands of characters long.
---
 dfp/decimal/decimal | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index 852810d..a5ba1c1 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -57,7 +57,7 @@ using std::string;
 using namespace std;
 
 #include <stdlib.h> /* Pick up the strtod[32|64|128] prototypes.  */
-#include <stdio.h>  /* Pick up the sprintf prototype.  */
+#include <stdio.h>  /* Pick up the snprintf prototype.  */
 #include <limits.h> /* For CHAR_MAX.  */
 #include <string.h> /* For memset.  */
 
@@ -113,19 +113,6 @@ private:
 public:
   static inline ostream & decimal_to_string(std::ostream &os, decimal_type &d)
     {
-      /* If strbuf is big enough for a _Decimal128, it is big enough for the
-       * other types as well, so just use the same size for all of them.
-       *   1  (leading zero)
-       * + 1  (.)
-       * + 34 (__DEC128_MANT_DIG__)
-       * + 1  (e)
-       * + 1  (+/-)
-       * + 4  (digits in __DEC128_MAX_EXP__)
-       * + 1  "\n"
-       * = 43 -> round up to a power of 2 = 64.  */
-
-      char strbuf[64];
-
       ios_base::fmtflags flags = os.flags();
       unsigned int precision = os.precision();
 
@@ -161,11 +148,26 @@ public:
       /* Per the confusing reading of the draft DFP C++ Specification, a/A type
          are never passed with an accompanying precision.  This causes the
 	 implicit precision in the type to be used for printing.  */
-      if (flags & ios::fixed && flags & ios::scientific)
-        sprintf (strbuf, fmtstr.c_str(), d.__getval());
+      bool shortest = flags & ios::fixed && flags & ios::scientific;
+
+      /* The %f conversion of a _Decimal128 has up to 6145 integral digits.  */
+      char strbuf[64];
+      int len = shortest
+		? snprintf (strbuf, sizeof strbuf, fmtstr.c_str(), d.__getval())
+		: snprintf (strbuf, sizeof strbuf, fmtstr.c_str(), precision,
+			    d.__getval());
+      if (len < (int) sizeof strbuf)
+	os << strbuf;
       else
-        sprintf (strbuf, fmtstr.c_str(), precision, d.__getval());
-      os << strbuf;
+	{
+	  std::string str (len + 1, '\0');
+	  if (shortest)
+	    snprintf (&str[0], len + 1, fmtstr.c_str(), d.__getval());
+	  else
+	    snprintf (&str[0], len + 1, fmtstr.c_str(), precision,
+		      d.__getval());
+	  os << str.c_str();
+	}
       return os;
     }
 
-- 
2.43.0


From 50a6a9923734f697c2dc9b8da1dafa02fc445f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 49/58] fix: reading a decimal from a stream swallowed the text
 after it

operator>> read a block of 127 characters, set eofbit and failbit for any
shorter input, and cut longer numbers.  It now extracts the characters of the number only
and fails when there is no number.
---
 dfp/decimal/decimal | 91 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 77 insertions(+), 14 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index a5ba1c1..8cbea4b 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -58,8 +58,7 @@ using namespace std;
 
 #include <stdlib.h> /* Pick up the strtod[32|64|128] prototypes.  */
 #include <stdio.h>  /* Pick up the snprintf prototype.  */
-#include <limits.h> /* For CHAR_MAX.  */
-#include <string.h> /* For memset.  */
+#include <locale.h> /* For localeconv.  */
 
 template<unsigned int size>
 struct FIND_DEC_MANT_DIG
@@ -171,6 +170,79 @@ public:
       return os;
     }
 
+  /* Extract the longest sequence of characters that a number can start with,
+   * and no more, so that what follows it stays in the stream.  */
+  template <class charT, class traits>
+  static inline std::string
+  number_chars(std::basic_istream<charT, traits> & is)
+    {
+      static const char *const words[] = { "infinity", "nan" };
+      const char *point = localeconv()->decimal_point;
+      std::string str, word;
+      bool digits = false, exponent = false;
+
+      typename std::basic_istream<charT, traits>::sentry ready (is);
+      while (ready)
+	{
+	  typename traits::int_type ic = is.peek();
+	  if (traits::eq_int_type (ic, traits::eof()))
+	    break;
+	  char c = is.narrow (traits::to_char_type (ic), '\0');
+	  char last = str.empty() ? '\0' : str[str.size() - 1];
+	  char lower = c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c;
+
+	  if (c == '\0')
+	    break;
+	  else if (c == '+' || c == '-')
+	    {
+	      if (!str.empty() && !(exponent && (last == 'e' || last == 'E')))
+		break;
+	    }
+	  else if (c >= '0' && c <= '9' && word.empty())
+	    digits = true;
+	  else if (*point == c && !exponent && word.empty())
+	    point++;
+	  else if (lower == 'e' && digits && !exponent)
+	    exponent = true;
+	  else if (!word.empty() ? word[word.size() - 1] != ')'
+		   : !digits && point == localeconv()->decimal_point)
+	    {
+	      /* inf, infinity, nan and nan(n-char-sequence).  */
+	      word += lower;
+	      bool ok = word.compare (0, 4, "nan(") == 0
+			&& (word.size() == 4 || c == ')' || c == '_'
+			    || (c >= '0' && c <= '9')
+			    || (lower >= 'a' && lower <= 'z'));
+	      for (int i = 0; i < 2; i++)
+		ok = ok || word.compare (0, word.size(), words[i], 0,
+					 word.size()) == 0;
+	      if (!ok)
+		break;
+	    }
+	  else
+	    break;
+	  str += c;
+	  is.get();
+	}
+      return str;
+    }
+
+  template <class charT, class traits, class value_type>
+  static inline void
+  string_to_decimal(std::basic_istream<charT, traits> & is, decimal_type & d,
+		    value_type (*convert)(const char *, char **))
+    {
+      std::string str = number_chars(is);
+      char *end;
+      value_type value = convert (str.c_str(), &end);
+      if (str.empty() || *end != '\0')
+	{
+	  value = 0;
+	  is.setstate (std::ios_base::failbit);
+	}
+      d.__setval (value);
+    }
+
   enum {DEC_MANT_DIG = FIND_DEC_MANT_DIG<(sizeof(decimal_type))>::RESULT};
 };
 
@@ -216,10 +288,7 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal32 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod32(buf, NULL));
+	LIBDFP_META<std::decimal::decimal32>::string_to_decimal(is, d, strtod32);
 	return is;
       }
 
@@ -227,10 +296,7 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal64 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod64(buf, NULL));
+	LIBDFP_META<std::decimal::decimal64>::string_to_decimal(is, d, strtod64);
 	return is;
       }
 
@@ -238,10 +304,7 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal128 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod128(buf, NULL));
+	LIBDFP_META<std::decimal::decimal128>::string_to_decimal(is, d, strtod128);
 	return is;
       }
 
-- 
2.43.0


From 932e6dad7d608580ccd5e9144dbc1ff15e288f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 50/58] fix: inexact square roots could lose trailing zeros

decNumberSquareRoot assumes that the approximation has maxp digits.  When
the iteration has come to 1, the last step is exact and gives a shorter
number, so that sqrtd32 (9999900000) was 99999.5 instead of 99999.50.
---
 libdecnumber/decNumber.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libdecnumber/decNumber.c b/libdecnumber/decNumber.c
index 2fff5c3..e1d2ce5 100644
--- a/libdecnumber/decNumber.c
+++ b/libdecnumber/decNumber.c
@@ -2978,6 +2978,14 @@ decNumber * decNumberSquareRoot(decNumber *res, const decNumber *rhs,
       decMultiplyOp(a, b, t, &workset, &ignore);       /* a=b*0.5 */
       } /* loop */
 
+    /* The last step is exact, and a may be short, when the previous */
+    /* approximation was 1 */
+    if (a->digits<maxp) {
+      Int pad=maxp-a->digits;
+      a->digits=decShiftToMost(a->lsu, a->digits, pad);
+      a->exponent-=pad;
+      }
+
     /* Here, 0.1 <= a < 1 [Hull], and a has maxp digits */
     /* now reduce to length, etc.; this needs to be done with a */
     /* having the correct exponent so as to handle subnormals */
-- 
2.43.0


From d1a3f350177dfcc8b6e5fe937ff8a575152d6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 51/58] fix: setdigitsd64 corrupted coefficients that need 54
 bits

The constant for the large form of the encoding had a bit of the
coefficient set, so that left_justifyd64 (91) was not a valid number.
---
 sysdeps/soft-dfp/bid/numdigits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sysdeps/soft-dfp/bid/numdigits.h b/sysdeps/soft-dfp/bid/numdigits.h
index 58bf2c2..f1c6bb9 100644
--- a/sysdeps/soft-dfp/bid/numdigits.h
+++ b/sysdeps/soft-dfp/bid/numdigits.h
@@ -292,7 +292,7 @@ setdigitsd64 (_Decimal64 x, char *str)
   if (__bid_required_bits_64 (number) <= 53)
     d.di[1] = sign | ((number >> 32L) & 0x001FFFFFU);
   else
-    d.di[1] = (sign | (0x60040000U) | ((number >> 32L) & 0x0007FFFFU));
+    d.di[1] = (sign | (0x60000000U) | ((number >> 32L) & 0x0007FFFFU));
   d.di[0] = number & 0xFFFFFFFFU;
   d.dd = setexpd64 (d.dd, exp);
 
-- 
2.43.0


From 4f7b430a2af496e891566ec58f227aadc0343a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 52/58] fix: expd64, expd128, logd128, powd32, powd64, tgamma
 and lgamma set errno without raising the exception

The functions report errors both ways (MATH_ERREXCEPT), but these
entries set errno only: overflow of the exponential, gamma and lgamma,
the pole and the domain error of the 128-bit logarithm, and every error
of the narrow powers.  Raise FE_OVERFLOW, FE_DIVBYZERO and FE_INVALID
next to errno, as the other sizes do.
---
 ieee754r/expd128.c   |  5 ++++-
 ieee754r/expd64.c    |  5 ++++-
 ieee754r/lgammad32.c |  7 ++++++-
 ieee754r/logd128.c   |  2 ++
 ieee754r/powd32.c    |  6 +++++-
 ieee754r/powd64.c    | 17 +++++++++++++----
 ieee754r/tgammad32.c |  7 ++++++-
 7 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index a79b8fc..d915b3e 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -82,7 +82,10 @@ __expd128 (_Decimal128 val)
       else if (val > max)
 	{
 	  if (__isfinited128 (val))
-	    errno = ERANGE;
+	    {
+	      feraiseexcept (FE_OVERFLOW);
+	      errno = ERANGE;
+	    }
 	  return DEC_INFINITY;
 	}
       else
diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 4a9c773..425e3c1 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -192,7 +192,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
   if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+    {
+      DFP_EXCEPT (FE_OVERFLOW);
+      DFP_ERRNO (ERANGE);
+    }
   return z;
 }
 weak_alias(INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
diff --git a/ieee754r/lgammad32.c b/ieee754r/lgammad32.c
index 3237cad..b4c34b5 100644
--- a/ieee754r/lgammad32.c
+++ b/ieee754r/lgammad32.c
@@ -1085,7 +1085,12 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   /*  For this particular case, both the Pole and Overflow error make the same
    *  finite x -> infinite z result, and both generate an ERANGE errno */
   if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+    {
+      /*  The poles are zero and the negative integers.  */
+      if (x > DFP_CONSTANT(0.0))
+	DFP_EXCEPT (FE_OVERFLOW);
+      DFP_ERRNO (ERANGE);
+    }
   return z;
 }
 
diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index c4394ee..4ced717 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,11 +68,13 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
+	  DFP_EXCEPT (FE_DIVBYZERO);
 	  DFP_ERRNO (ERANGE);
 	  return -DEC_INFINITY;
 	}
       else
 	{
+	  DFP_EXCEPT (FE_INVALID);
 	  DFP_ERRNO (EDOM);
 	  return DFP_NAN;
 	}
diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index e2f337a..f1e7ba9 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -25,6 +25,7 @@
 
 #include <math.h>
 #include <errno.h>
+#include <fenv.h>
 #include <ieee754r_private.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
@@ -37,7 +38,10 @@ __powd32 (_Decimal32 x, _Decimal32 y)
 
   /* Overflow of the narrower format */
   if (!__isfinited32 (r) && __isfinited64 (z))
-    errno = ERANGE;
+    {
+      feraiseexcept (FE_OVERFLOW);
+      errno = ERANGE;
+    }
   return r;
 }
 weak_alias(__powd32, powd32)
diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index abbb8df..f59405e 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -177,13 +177,22 @@ INTERNAL_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   _Decimal64 z = IEEE_FUNCTION_NAME (x, y);
   /* Pole error: x = 0, y < 0 (non-inf). Set ERANGE in accordance with C99 */
   if (x == 0.DD && __isfinited64 (y) && y < 0.DD)
-    DFP_ERRNO (ERANGE);
-  if (!__isfinited64 (z) && __isfinited64 (x) && __isfinited64 (y))
+    {
+      DFP_EXCEPT (FE_DIVBYZERO);
+      DFP_ERRNO (ERANGE);
+    }
+  else if (!__isfinited64 (z) && __isfinited64 (x) && __isfinited64 (y))
     {
       if (__isnand64 (z))	/*  Domain error was triggered, x < 0 and y was not an odd int */
-	DFP_ERRNO (EDOM);
+	{
+	  DFP_EXCEPT (FE_INVALID);
+	  DFP_ERRNO (EDOM);
+	}
       else			/*  Overflow */
-	DFP_ERRNO (ERANGE);
+	{
+	  DFP_EXCEPT (FE_OVERFLOW);
+	  DFP_ERRNO (ERANGE);
+	}
     }
   return z;
 }
diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index 5124f2e..92eb990 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -74,7 +74,12 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
   if (FUNC_D(__isinf) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+    {
+      /*  The pole error was raised above.  */
+      if (x != DFP_CONSTANT(0.0))
+	DFP_EXCEPT (FE_OVERFLOW);
+      DFP_ERRNO (ERANGE);
+    }
   if (FUNC_D(__isnan) (z) && !FUNC_D(__isnan) (x))
     DFP_ERRNO (EDOM);
   return z;
-- 
2.43.0


From 5e97cb74f1a8b173cf6ca3074d2c597aa1cbf47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 53/58] fix: nextafter and nexttoward overflow raises no
 exception, and a NaN operand sets ERANGE

---
 ieee754r/nextafterd32.c  | 7 +++++--
 ieee754r/nexttowardd32.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ieee754r/nextafterd32.c b/ieee754r/nextafterd32.c
index 42762d2..0aad2b3 100644
--- a/ieee754r/nextafterd32.c
+++ b/ieee754r/nextafterd32.c
@@ -95,8 +95,11 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D (__isfinite) (z) && FUNC_D (__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+  if (FUNC_D (__isinf) (z) && FUNC_D (__isfinite) (x))
+    {
+      DFP_ERRNO (ERANGE);
+      DFP_EXCEPT (FE_OVERFLOW);
+    }
   /* TODO: Handle underflow here */
   return z;
 }
diff --git a/ieee754r/nexttowardd32.c b/ieee754r/nexttowardd32.c
index dd77abf..109be5b 100644
--- a/ieee754r/nexttowardd32.c
+++ b/ieee754r/nexttowardd32.c
@@ -97,8 +97,11 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, _Decimal128 y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+  if (FUNC_D(__isinf) (z) && FUNC_D(__isfinite) (x))
+    {
+      DFP_ERRNO (ERANGE);
+      DFP_EXCEPT (FE_OVERFLOW);
+    }
   /* TODO: Handle underflow */
   return z;
 }
-- 
2.43.0


From d241f4328b9696e6adca109e55ae73bc1497ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 54/58] fix: nextup and nextdown reported an overflow where
 they are quiet

---
 ieee754r/nextdownd128.c | 1 +
 ieee754r/nextdownd32.c  | 5 +++++
 ieee754r/nextdownd64.c  | 1 +
 ieee754r/nextupd128.c   | 1 +
 ieee754r/nextupd32.c    | 5 +++++
 ieee754r/nextupd64.c    | 1 +
 6 files changed, 14 insertions(+)

diff --git a/ieee754r/nextdownd128.c b/ieee754r/nextdownd128.c
index 30a5bb2..097383e 100644
--- a/ieee754r/nextdownd128.c
+++ b/ieee754r/nextdownd128.c
@@ -25,5 +25,6 @@
 
 #define _DECIMAL_SIZE 128
 #include <decimal128.h>
+#define DEC_MAX DEC128_MAX
 
 #include "nextdownd32.c"
diff --git a/ieee754r/nextdownd32.c b/ieee754r/nextdownd32.c
index 09636ed..aebabe6 100644
--- a/ieee754r/nextdownd32.c
+++ b/ieee754r/nextdownd32.c
@@ -26,9 +26,11 @@
 #ifndef _DECIMAL_SIZE
 # include <decimal32.h>
 # define _DECIMAL_SIZE 32
+# define DEC_MAX DEC32_MAX
 #endif
 
 #include <math.h>
+#include <float.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME nextdown
@@ -38,6 +40,9 @@
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
+  /* Unlike nextafter, this is no overflow.  */
+  if (x == -DEC_MAX)
+    return -DEC_INFINITY;
   return FUNC_D(__nextafter) (x, -1*DEC_INFINITY);
 }
 
diff --git a/ieee754r/nextdownd64.c b/ieee754r/nextdownd64.c
index f932ef1..e4d4251 100644
--- a/ieee754r/nextdownd64.c
+++ b/ieee754r/nextdownd64.c
@@ -25,5 +25,6 @@
 
 #define _DECIMAL_SIZE 64
 #include <decimal64.h>
+#define DEC_MAX DEC64_MAX
 
 #include "nextdownd32.c"
diff --git a/ieee754r/nextupd128.c b/ieee754r/nextupd128.c
index d02f977..34dce95 100644
--- a/ieee754r/nextupd128.c
+++ b/ieee754r/nextupd128.c
@@ -25,5 +25,6 @@
 
 #define _DECIMAL_SIZE 128
 #include <decimal128.h>
+#define DEC_MAX DEC128_MAX
 
 #include "nextupd32.c"
diff --git a/ieee754r/nextupd32.c b/ieee754r/nextupd32.c
index b954b43..650cfd5 100644
--- a/ieee754r/nextupd32.c
+++ b/ieee754r/nextupd32.c
@@ -26,9 +26,11 @@
 #ifndef _DECIMAL_SIZE
 # include <decimal32.h>
 # define _DECIMAL_SIZE 32
+# define DEC_MAX DEC32_MAX
 #endif
 
 #include <math.h>
+#include <float.h>
 #include <ieee754r_private.h>
 
 #define FUNCTION_NAME nextup
@@ -38,6 +40,9 @@
 DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
+  /* Unlike nextafter, this is no overflow.  */
+  if (x == DEC_MAX)
+    return DEC_INFINITY;
   return FUNC_D(__nextafter) (x, DEC_INFINITY);
 }
 
diff --git a/ieee754r/nextupd64.c b/ieee754r/nextupd64.c
index 618e80d..5bb8eb9 100644
--- a/ieee754r/nextupd64.c
+++ b/ieee754r/nextupd64.c
@@ -25,5 +25,6 @@
 
 #define _DECIMAL_SIZE 64
 #include <decimal64.h>
+#define DEC_MAX DEC64_MAX
 
 #include "nextupd32.c"
-- 
2.43.0


From 48dbe852d69a3f4d4cf011c858de77a007862797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 55/58] fix: fma overflow and fmod domain errors raise no
 exception

---
 ieee754r/fmad32.c     | 6 ++++++
 sysdeps/bid/fmodd32.c | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 72ba035..81d3d52 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -147,6 +147,12 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
       if ( inf && FUNC_D (__signbit) (z) != isneg)
 	DFP_ERRNO (EDOM);
     }
+  else if (FUNC_D (__isinf) (r) && FUNC_D (__isfinite) (x)
+	   && FUNC_D (__isfinite) (y))
+    {
+      DFP_ERRNO (ERANGE);
+      DFP_EXCEPT (FE_OVERFLOW);
+    }
   return r;
 }
 
diff --git a/sysdeps/bid/fmodd32.c b/sysdeps/bid/fmodd32.c
index c9f5075..93b1c7d 100644
--- a/sysdeps/bid/fmodd32.c
+++ b/sysdeps/bid/fmodd32.c
@@ -71,6 +71,8 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     {
       result.bits = DECNAN;
       DFP_ERRNO (EDOM);
+      if (!decNumberIsNaN (&dn_x) && !decNumberIsNaN (&dn_y))
+	DFP_EXCEPT (FE_INVALID);
       goto done;
     }
 
-- 
2.43.0


From 9c0e69daec5c90291c85a33c63557107a489c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:19 +0000
Subject: [PATCH 56/58] fix: printf pads a negative * width with zeros on the
 right

A negative width argument is a left adjustment, under which flag 0 is
ignored.  glibc leaves pad at '0' there, and the number got trailing
zeros: [%0*Df] with -12 and 1.5DD gave 1.5000000000.
---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index f45260a..6cde49b 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -929,7 +929,7 @@ __printf_dfp (FILE *fp,
     }
 
   if (info->left && width > 0)
-    PADN (info->pad, width);
+    PADN (' ', width);
 } /* Done output block.  */
 
    return done;
-- 
2.43.0


From 0229009c2a5548045df1fa064aca6e6889af7b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 57/58] fix: strtod does not accept INF or NAN(I) in a Turkish
 locale

The locale named C_locale was the current one, whose lower case of I
may not be i, so that the INF that printf writes could not be read.
---
 stdlib/strtod32.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index f2715b9..599caab 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -369,7 +369,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
      in the format described in <locale.h>.  */
   const char *grouping;
 
-  C_locale = newlocale(LC_ALL_MASK, setlocale (LC_ALL, NULL),NULL);
+  C_locale = newlocale(LC_ALL_MASK, "C", NULL);
 
   if (group)
     {
@@ -480,7 +480,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	      do
 		++cp;
 	      while ((*cp >= L_('0') && *cp <= L_('9'))
-		     || (TOLOWER (*cp) >= L_('a') && TOLOWER (*cp) <= L_('z'))
+		     || (TOLOWER_C (*cp) >= L_('a')
+			 && TOLOWER_C (*cp) <= L_('z'))
 		     || *cp == L_('_'));
 
 	      if (*cp != L_(')'))
-- 
2.43.0


From ad1430b02227c316a9ae5cb36664e22ac128db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 58/58] fix: strtod crashes when the current locale cannot be
 loaded again

After a chroot, say, newlocale of the name of the current locale gives a
null pointer, which isspace_l follows.  It also was the global locale
where the thread had one of its own.
---
 stdlib/strtod32.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 599caab..c9c58e6 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -917,12 +917,10 @@ hidden_def(FUNCTION_L_INTERNAL)
 FLOAT
 FUNCTION_INTERNAL (const STRING_TYPE *nptr, STRING_TYPE **endptr, int group)
 {
-  char * curlocale;
   __locale_t cur_locale_t;
   FLOAT ret_val;
 
-  curlocale = setlocale(LC_ALL,NULL);
-  cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
+  cur_locale_t = duplocale (uselocale ((locale_t) 0));
 
   ret_val = FUNCTION_L_INTERNAL (nptr,endptr,group,cur_locale_t);
   freelocale(cur_locale_t);
@@ -937,12 +935,10 @@ weak_function
 #endif
 FUNCTION_NAME (const STRING_TYPE *nptr, STRING_TYPE **endptr)
 {
-  char * curlocale;
   __locale_t cur_locale_t;
   FLOAT ret_val;
 
-  curlocale = setlocale(LC_ALL,NULL);
-  cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
+  cur_locale_t = duplocale (uselocale ((locale_t) 0));
 
   ret_val = FUNCTION_L_INTERNAL(nptr, endptr, 0, cur_locale_t);
   freelocale(cur_locale_t);
-- 
2.43.0

