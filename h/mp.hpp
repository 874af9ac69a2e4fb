// Arbitrary precision oracle: GNU MPFR's shared library (runtime of gcc), whose
// header is not installed; the prototypes used here are its stable ABI.
#pragma once
#include "ref.hpp"
#include <cmath>
namespace mp {
extern "C" {
struct Raw { long prec; int sign; long exp; void *d; };
void mpfr_init2(Raw *, long); void mpfr_clear(Raw *); void mpfr_set_prec(Raw *, long);
int mpfr_set(Raw *, const Raw *, int); int mpfr_set_ui_2exp(Raw *, unsigned long, long, int); int mpfr_set_si_2exp(Raw *, long, long, int);
int mpfr_add(Raw *, const Raw *, const Raw *, int); int mpfr_sub(Raw *, const Raw *, const Raw *, int);
int mpfr_mul(Raw *, const Raw *, const Raw *, int); int mpfr_div(Raw *, const Raw *, const Raw *, int);
int mpfr_ui_pow_ui(Raw *, unsigned long, unsigned long, int);
int mpfr_neg(Raw *, const Raw *, int); int mpfr_abs(Raw *, const Raw *, int);
int mpfr_cmp3(const Raw *, const Raw *, int); int mpfr_sgn(const Raw *);
double mpfr_get_d(const Raw *, int); double mpfr_get_d_2exp(long *, const Raw *, int);
int mpfr_nan_p(const Raw *); int mpfr_inf_p(const Raw *); int mpfr_zero_p(const Raw *); int mpfr_integer_p(const Raw *);
#define F1(f) int mpfr_##f(Raw *, const Raw *, int);
F1(exp) F1(exp2) F1(expm1) F1(log) F1(log2) F1(log10) F1(log1p) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh) F1(erf) F1(erfc) F1(gamma) F1(lngamma) F1(sqrt) F1(cbrt)
#undef F1
int mpfr_lgamma(Raw *, int *, const Raw *, int);
int mpfr_pow(Raw *, const Raw *, const Raw *, int); int mpfr_atan2(Raw *, const Raw *, const Raw *, int); int mpfr_hypot(Raw *, const Raw *, const Raw *, int);
int mpfr_const_pi(Raw *, int); int mpfr_const_log2(Raw *, int);
char *mpfr_get_str(char *, long *, int, size_t, const Raw *, int); int mpfr_mul_ui(Raw *, const Raw *, unsigned long, int); int mpfr_mul_si(Raw *, const Raw *, long, int); int mpfr_set_d(Raw *, double, int); int mpfr_set_str(Raw *, const char *, int, int);
int mpfr_strtofr(Raw *, const char *, char **, int, int); int mpfr_ui_div(Raw *, unsigned long, const Raw *, int); int mpfr_ui_sub(Raw *, unsigned long, const Raw *, int); int mpfr_add_ui(Raw *, const Raw *, unsigned long, int); int mpfr_regular_p(const Raw *);
void mpfr_set_inf(Raw *, int); void mpfr_set_zero(Raw *, int); void mpfr_set_nan(Raw *); int mpfr_signbit(const Raw *);
}
struct F { // owning number
  Raw r; explicit F(long prec = 400) { mpfr_init2(&r, prec); } ~F() { mpfr_clear(&r); } F(const F &) = delete; F &operator=(const F &) = delete;
  Raw *operator&() { return &r; } const Raw *operator&() const { return &r; }
  bool nan() const { return mpfr_nan_p(&r); } bool inf() const { return mpfr_inf_p(&r); } bool zero() const { return mpfr_zero_p(&r); } int sgn() const { return mpfr_sgn(&r); }
};
inline void set_u128(F &f, u128 v) { F t(130); mpfr_set_ui_2exp(&f, (uint64_t)(v >> 64), 64, 0); mpfr_set_ui_2exp(&t, (uint64_t) v, 0, 0); mpfr_add(&f, &f, &t, 0); }
inline void pow10(F &f, long e) { mpfr_ui_pow_ui(&f, 10, (unsigned long) std::labs(e), 0); if (e < 0) { F one(64); mpfr_set_ui_2exp(&one, 1, 0, 0); mpfr_div(&f, &one, &f, 0); } }
inline void set(F &f, const ref::Num &x) { // finite x, correctly to f's precision within 2 ulps (exact if q >= 0 and the precision suffices)
  F c(130), p(f.r.prec); set_u128(c, x.c); mpfr_ui_pow_ui(&p, 10, (unsigned long) std::labs(x.q), 0); if (x.q >= 0) mpfr_mul(&f, &c, &p, 0); else mpfr_div(&f, &c, &p, 0); if (x.neg) mpfr_neg(&f, &f, 0);
}
// any x, with infinities, NaNs and signed zeros
inline void set_any(F &f, const ref::Num &x) { if (x.nan()) mpfr_set_nan(&f); else if (x.inf()) mpfr_set_inf(&f, x.neg ? -1 : 1); else if (!x.c) mpfr_set_zero(&f, x.neg ? -1 : 1); else set(f, x); }
// nearest nd-digit decimal of a finite nonzero f
inline ref::Num to_num(const F &f, int nd) {
  char b[64]; long e; mpfr_get_str(b, &e, 10, (size_t) std::max(nd, 2), &f, 0); const char *p = b; ref::Num n; n.neg = *p == '-'; if (n.neg) p++;
  n.c = 0; int k = 0; for (; *p && k < nd; p++, k++) n.c = n.c * 10 + (*p - '0'); n.q = (int) std::max<long>(std::min<long>(e - k, 100000), -100000); return n; }
// floor(log10 |f|) for finite nonzero f
inline long dexp(const F &f) {
  long e; double m = mpfr_get_d_2exp(&e, &f, 0); long k = (long) std::floor((std::log2(std::fabs(m)) + (double) e) * 0.30102999566398119521 + 1e-9);
  F p(f.r.prec), a(f.r.prec); mpfr_abs(&a, &f, 0);
  pow10(p, k); if (mpfr_cmp3(&a, &p, 1) < 0) k--; else { pow10(p, k + 1); if (mpfr_cmp3(&a, &p, 1) >= 0) k++; }
  return k;
}
// |got - f| in units of the last place of f in the format; got finite
inline double ulps(const ref::Fmt &fm, const ref::Num &got, const F &f) {
  long k = f.zero() ? fm.qmin : std::max<long>(dexp(f) - fm.p + 1, fm.qmin);
  F g(f.r.prec), u(f.r.prec); set(g, got); mpfr_sub(&g, &g, &f, 0); mpfr_abs(&g, &g, 0); pow10(u, -k); mpfr_mul(&g, &g, &u, 0);
  return mpfr_get_d(&g, 2);
}
} // namespace mp
