/* The decimal engine inside libdfp (decNumber, DPD<->BID, digit helpers),
   linked from the library's own objects, behind a C interface.  */
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#define DECNUMDIGITS 1500
#include "decNumber.h"
#undef DECNUMDIGITS
#define DECNUMDIGITS 1500
#define API __attribute__ ((visibility ("default")))

typedef struct { int32_t prec, emax, emin, round, clamp; uint32_t status; } SCtx;
typedef struct { int32_t kind, neg, exp, nd; char d[1516]; } SNum; /* kind: 0 finite, 1 inf, 2 NaN, 3 sNaN */

static void
open_ctx (decContext *c, const SCtx *s)
{
  decContextDefault (c, DEC_INIT_BASE);
  c->traps = 0; c->digits = s->prec; c->emax = s->emax; c->emin = s->emin;
  c->round = (enum rounding) s->round; c->clamp = (uint8_t) s->clamp; c->status = s->status;
}
static void
to_snum (const decNumber *n, SNum *s)
{
  int i, nu = (n->digits + DECDPUN - 1) / DECDPUN, k = 0;
  memset (s, 0, sizeof *s);
  s->kind = n->bits & DECINF ? 1 : n->bits & DECNAN ? 2 : n->bits & DECSNAN ? 3 : 0;
  s->neg = (n->bits & DECNEG) != 0; s->exp = n->exponent; s->nd = n->digits;
  if (n->digits < 1 || n->digits > 1500) { s->kind = 9; return; }
  for (i = nu - 1; i >= 0; i--)
    {
      int u = n->lsu[i], len = i == nu - 1 ? n->digits - DECDPUN * (nu - 1) : DECDPUN, j, p = 1;
      for (j = 1; j < len; j++) p *= 10;
      if (u >= p * 10) { s->kind = 9; return; }
      for (; p; p /= 10) s->d[k++] = (char) ('0' + u / p % 10);
    }
}
static void
from_snum (decNumber *n, const SNum *s)
{
  int i, u, nu;
  memset (n, 0, sizeof *n);
  n->bits = (uint8_t) ((s->kind == 1 ? DECINF : s->kind == 2 ? DECNAN : s->kind == 3 ? DECSNAN : 0) | (s->neg ? DECNEG : 0));
  n->exponent = s->exp; n->digits = s->nd;
  nu = (s->nd + DECDPUN - 1) / DECDPUN;
  for (u = 0; u < nu; u++)
    {
      int v = 0;
      for (i = DECDPUN - 1; i >= 0; i--) { int k = s->nd - 1 - (u * DECDPUN + i); v = v * 10 + (k >= 0 ? s->d[k] - '0' : 0); }
      n->lsu[u] = (decNumberUnit) v;
    }
}

/* ---- operations on decNumbers */
typedef decNumber *(*F1) (decNumber *, const decNumber *, decContext *);
typedef decNumber *(*F2) (decNumber *, const decNumber *, const decNumber *, decContext *);
static decNumber *copyabs (decNumber *r, const decNumber *a, decContext *c) { (void) c; return decNumberCopyAbs (r, a); }
static decNumber *copyneg (decNumber *r, const decNumber *a, decContext *c) { (void) c; return decNumberCopyNegate (r, a); }
static decNumber *copy (decNumber *r, const decNumber *a, decContext *c) { (void) c; return decNumberCopy (r, a); }
static decNumber *trim (decNumber *r, const decNumber *a, decContext *c) { (void) c; decNumberCopy (r, a); return decNumberTrim (r); }
static decNumber *copysgn (decNumber *r, const decNumber *a, const decNumber *b, decContext *c) { (void) c; return decNumberCopySign (r, a, b); }
static decNumber *samequantum (decNumber *r, const decNumber *a, const decNumber *b, decContext *c) { (void) c; return decNumberSameQuantum (r, a, b); }
static decNumber *isnormal_ (decNumber *r, const decNumber *a, decContext *c) { return decNumberFromInt32 (r, decNumberIsNormal (a, c)); }
static decNumber *issubnormal_ (decNumber *r, const decNumber *a, decContext *c) { return decNumberFromInt32 (r, decNumberIsSubnormal (a, c)); }
static decNumber *class_ (decNumber *r, const decNumber *a, decContext *c) { return decNumberFromInt32 (r, (int32_t) decNumberClass (a, c)); }
static decNumber *toint_ (decNumber *r, const decNumber *a, decContext *c) { return decNumberFromInt32 (r, decNumberToInt32 (a, c)); }
static decNumber *touint_ (decNumber *r, const decNumber *a, decContext *c) { return decNumberFromUInt32 (r, decNumberToUInt32 (a, c)); }
static decNumber *bcd_ (decNumber *r, const decNumber *a, decContext *c)
{ uint8_t b[1516]; (void) c; decNumberGetBCD (a, b); decNumberCopy (r, a); return decNumberSetBCD (r, b, (uint32_t) a->digits); }
/* decNumberMath: results carry the context's precision */
#define MATH(f) extern decNumber *decNumber##f (decNumber *, const decNumber *, decContext *);
MATH(Sinh) MATH(Cosh) MATH(Tanh) MATH(Expm1) MATH(Log1p) MATH(Asinh) MATH(Acosh) MATH(Atanh) MATH(Sin) MATH(Cos) MATH(Tan) MATH(Atan)
typedef struct { const char *name; F1 f1; F2 f2; } DOp;
#define D1(n, f) { n, f, 0 },
#define D2(n, f) { n, 0, f },
static const DOp ops[] = {
  D1("abs", decNumberAbs) D2("add", decNumberAdd) D2("and", decNumberAnd) D2("compare", decNumberCompare) D2("comparesig", decNumberCompareSignal)
  D2("comparetotal", decNumberCompareTotal) D2("comparetotalmag", decNumberCompareTotalMag) D2("divide", decNumberDivide) D2("divideint", decNumberDivideInteger)
  D1("exp", decNumberExp) D1("invert", decNumberInvert) D1("ln", decNumberLn) D1("logb", decNumberLogB) D1("log10", decNumberLog10)
  D2("max", decNumberMax) D2("maxmag", decNumberMaxMag) D2("min", decNumberMin) D2("minmag", decNumberMinMag) D1("minus", decNumberMinus)
  D2("multiply", decNumberMultiply) D1("normalize", decNumberNormalize) D2("or", decNumberOr) D1("plus", decNumberPlus) D2("power", decNumberPower)
  D2("quantize", decNumberQuantize) D1("reduce", decNumberReduce) D2("remainder", decNumberRemainder) D2("remaindernear", decNumberRemainderNear)
  D2("rescale", decNumberRescale) D2("rotate", decNumberRotate) D2("scaleb", decNumberScaleB) D2("shift", decNumberShift) D1("squareroot", decNumberSquareRoot)
  D2("subtract", decNumberSubtract) D1("tointegralexact", decNumberToIntegralExact) D1("tointegral", decNumberToIntegralValue) D2("xor", decNumberXor)
  D1("nextminus", decNumberNextMinus) D1("nextplus", decNumberNextPlus) D2("nexttoward", decNumberNextToward)
  D1("copyabs", copyabs) D1("copynegate", copyneg) D1("copy", copy) D1("trim", trim) D2("copysign", copysgn) D2("samequantum", samequantum)
  D1("isnormal", isnormal_) D1("issubnormal", issubnormal_) D1("class", class_) D1("toint", toint_) D1("touint", touint_) D1("bcd", bcd_)
};
API int sd_find (const char *name) { for (unsigned i = 0; i < sizeof ops / sizeof *ops; i++) if (!strcmp (ops[i].name, name)) return (int) i; return -1; }
/* result, then status in c->status; alias: 0 none, 1 result over the first operand, 2 over the second */
API void
sd_op (int op, SCtx *c, const SNum *a, const SNum *b, int alias, SNum *r)
{
  static decNumber x, y, z; decContext ctx; decNumber *res = alias == 1 ? &x : alias == 2 ? &y : &z;
  open_ctx (&ctx, c); from_snum (&x, a); from_snum (&y, b); memset (&z, 0xa5, sizeof z);
  if (ops[op].f1) ops[op].f1 (res, &x, &ctx); else ops[op].f2 (res, &x, &y, &ctx);
  c->status = ctx.status; to_snum (res, r);
}
API void
sd_fma (SCtx *c, const SNum *a, const SNum *b, const SNum *d, SNum *r)
{
  static decNumber x, y, z, w; decContext ctx;
  open_ctx (&ctx, c); from_snum (&x, a); from_snum (&y, b); from_snum (&z, d); memset (&w, 0xa5, sizeof w);
  decNumberFMA (&w, &x, &y, &z, &ctx); c->status = ctx.status; to_snum (&w, r);
}
API void
sd_fromstring (SCtx *c, const char *s, SNum *r)
{
  static decNumber x; decContext ctx;
  open_ctx (&ctx, c); memset (&x, 0xa5, sizeof x); decNumberFromString (&x, s, &ctx); c->status = ctx.status; to_snum (&x, r);
}
API void sd_tostring (const SNum *a, int eng, char *out) { static decNumber x; from_snum (&x, a); if (eng) decNumberToEngString (&x, out); else decNumberToString (&x, out); }

/* ---- the interchange formats; bits in memory order of the host */
typedef struct { uint64_t w[2]; } U128;
#define FMT(N, T) \
  extern void _bid_to_dpd##N (T *, T *); extern void _dpd_to_bid##N (T *, T *); \
  extern void *decimal##N##FromNumber (void *, const decNumber *, decContext *); extern decNumber *decimal##N##ToNumber (const void *, decNumber *); \
  extern void *decimal##N##FromString (void *, const char *, decContext *); extern char *decimal##N##ToString (const void *, char *); extern char *decimal##N##ToEngString (const void *, char *);
FMT(32, uint32_t) FMT(64, uint64_t) FMT(128, U128)
API void
sd_transcode (int fmt, int to_dpd, const void *in, void *out)
{
  if (fmt == 32) { uint32_t a; memcpy (&a, in, 4); uint32_t r = 0; if (to_dpd) _bid_to_dpd32 (&r, &a); else _dpd_to_bid32 (&r, &a); memcpy (out, &r, 4); }
  else if (fmt == 64) { uint64_t a, r = 0; memcpy (&a, in, 8); if (to_dpd) _bid_to_dpd64 (&r, &a); else _dpd_to_bid64 (&r, &a); memcpy (out, &r, 8); }
  else { U128 a, r; memset (&r, 0, 16); memcpy (&a, in, 16); if (to_dpd) _bid_to_dpd128 (&r, &a); else _dpd_to_bid128 (&r, &a); memcpy (out, &r, 16); }
}
API void
sd_to_number (int fmt, const void *in, SNum *r)
{
  static decNumber x; static __thread U128 a; memcpy (&a, in, (size_t) fmt / 8); memset (&x, 0xa5, sizeof x);
  if (fmt == 32) decimal32ToNumber (&a, &x); else if (fmt == 64) decimal64ToNumber (&a, &x); else decimal128ToNumber (&a, &x);
  to_snum (&x, r);
}
API void
sd_from_number (int fmt, int round, const SNum *a, void *out, uint32_t *status)
{
  static decNumber x; U128 r; decContext c; from_snum (&x, a);
  decContextDefault (&c, fmt == 32 ? DEC_INIT_DECIMAL32 : fmt == 64 ? DEC_INIT_DECIMAL64 : DEC_INIT_DECIMAL128); c.round = (enum rounding) round; c.traps = 0;
  if (fmt == 32) decimal32FromNumber (&r, &x, &c); else if (fmt == 64) decimal64FromNumber (&r, &x, &c); else decimal128FromNumber (&r, &x, &c);
  memcpy (out, &r, (size_t) fmt / 8); *status = c.status;
}
API void
sd_from_string (int fmt, int round, const char *s, void *out, uint32_t *status)
{
  U128 r; decContext c; decContextDefault (&c, fmt == 32 ? DEC_INIT_DECIMAL32 : fmt == 64 ? DEC_INIT_DECIMAL64 : DEC_INIT_DECIMAL128); c.round = (enum rounding) round; c.traps = 0;
  if (fmt == 32) decimal32FromString (&r, s, &c); else if (fmt == 64) decimal64FromString (&r, s, &c); else decimal128FromString (&r, s, &c);
  memcpy (out, &r, (size_t) fmt / 8); *status = c.status;
}
API void
sd_to_string (int fmt, int eng, const void *in, char *out)
{
  static U128 a; memcpy (&a, in, (size_t) fmt / 8);
  if (fmt == 32) eng ? decimal32ToEngString (&a, out) : decimal32ToString (&a, out);
  else if (fmt == 64) eng ? decimal64ToEngString (&a, out) : decimal64ToString (&a, out);
  else eng ? decimal128ToEngString (&a, out) : decimal128ToString (&a, out);
}

/* ---- the digit helpers that printing, reading and decodedN are made of */
#define NOT_IN_libdfp
#define __STDC_WANT_DEC_FP__ 1
#include <numdigits.h>
API int sd_getexp (int fmt, const void *in) { if (fmt == 32) { _Decimal32 x; memcpy (&x, in, 4); return getexpd32 (x); } if (fmt == 64) { _Decimal64 x; memcpy (&x, in, 8); return getexpd64 (x); } _Decimal128 x; memcpy (&x, in, 16); return getexpd128 (x); }
API int sd_numdigits (int fmt, const void *in) { if (fmt == 32) { _Decimal32 x; memcpy (&x, in, 4); return numdigitsd32 (x); } if (fmt == 64) { _Decimal64 x; memcpy (&x, in, 8); return numdigitsd64 (x); } _Decimal128 x; memcpy (&x, in, 16); return numdigitsd128 (x); }
API void sd_setexp (int fmt, const void *in, int e, void *out) { if (fmt == 32) { _Decimal32 x; memcpy (&x, in, 4); x = setexpd32 (x, e); memcpy (out, &x, 4); } else if (fmt == 64) { _Decimal64 x; memcpy (&x, in, 8); x = setexpd64 (x, e); memcpy (out, &x, 8); } else { _Decimal128 x; memcpy (&x, in, 16); x = setexpd128 (x, e); memcpy (out, &x, 16); } }
API void sd_leftjust (int fmt, const void *in, void *out) { if (fmt == 32) { _Decimal32 x; memcpy (&x, in, 4); x = left_justifyd32 (x); memcpy (out, &x, 4); } else if (fmt == 64) { _Decimal64 x; memcpy (&x, in, 8); x = left_justifyd64 (x); memcpy (out, &x, 8); } else { _Decimal128 x; memcpy (&x, in, 16); x = left_justifyd128 (x); memcpy (out, &x, 16); } }
API void sd_setdigits (int fmt, const void *in, char *digits, void *out) { if (fmt == 32) { _Decimal32 x; memcpy (&x, in, 4); x = setdigitsd32 (x, digits); memcpy (out, &x, 4); } else { _Decimal64 x; memcpy (&x, in, 8); x = setdigitsd64 (x, digits); memcpy (out, &x, 8); } }
