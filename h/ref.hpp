// Independent reference model of IEEE 754-2008 decimal arithmetic on exact
// integers.  Nothing here shares code, tables or algorithms with libdfp.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <string>
#include <vector>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include "shim.h"

namespace ref {
using namespace boost::multiprecision;
typedef number<cpp_int_backend<1024, 1024, signed_magnitude, unchecked, void>> Int;   // 308 digits
typedef cpp_int BigInt;

enum Kind { FIN, INF, QNaN, SNaN };
enum { RNE, RZ, RU, RD, RNA };
static const char *const rm_name[5] = {"TONEAREST", "TOWARDZERO", "UPWARD", "DOWNWARD", "TONEARESTFROMZERO"};

struct Fmt { int bits, p, qmin, qmax, emin, emax; };
static const Fmt F32 = {32, 7, -101, 90, -95, 96};
static const Fmt F64 = {64, 16, -398, 369, -383, 384};
static const Fmt F128 = {128, 34, -6176, 6111, -6143, 6144};
inline const Fmt &fmt_of(int bits) { return bits == 32 ? F32 : bits == 64 ? F64 : F128; }

struct P10u { u128 t[39]; P10u() { t[0] = 1; for (int i = 1; i < 39; i++) t[i] = t[i - 1] * 10; } };
inline u128 p10u(int n) { static const P10u P; return P.t[n]; }
struct P10i { std::vector<Int> t; P10i() { Int x = 1; for (int i = 0; i <= 300; i++) { t.push_back(x); x *= 10; } } };
inline const Int &p10(int n) { static const P10i P; if (n < 0 || n > 300) { fprintf(stderr, "p10 %d\n", n); abort(); } return P.t[n]; }
inline BigInt bp10(int n) { return boost::multiprecision::pow(BigInt(10), (unsigned) n); }

inline Int I(u128 v) { Int r = (uint64_t)(v >> 64); r <<= 64; r += (uint64_t) v; return r; }
inline u128 U(const Int &v) { return ((u128)(uint64_t)((v >> 64) & Int(0xFFFFFFFFFFFFFFFFULL)) << 64) | (uint64_t)(v & Int(0xFFFFFFFFFFFFFFFFULL)); }
inline int ndig(const Int &v) { // number of decimal digits, 0 for 0
  if (v == 0) return 0;
  int b = (int) msb(v);
  int d = (int)((b + 1) * 30103LL / 100000);
  if (d < 0) d = 0;
  while (d <= 300 && v >= p10(d)) d++;
  while (d > 0 && v < p10(d - 1)) d--;
  return d;
}
inline int ndigu(u128 v) { int d = 0; while (d < 39 && v >= p10u(d)) { d++; if (d == 39) break; } return v ? d : 0; }

struct Num {
  Kind k = FIN; bool neg = false; int q = 0; u128 c = 0;  // c: coefficient or NaN payload
  bool canon = true;
  bool fin() const { return k == FIN; }
  bool nan() const { return k == QNaN || k == SNaN; }
  bool inf() const { return k == INF; }
  bool zero() const { return k == FIN && c == 0; }
};

// BID decoding straight from the IEEE 754-2008 text.
inline Num decode(int bits, u128 v) {
  Num r; const Fmt &f = fmt_of(bits);
  r.neg = (v >> (bits - 1)) & 1;
  int w = bits == 32 ? 8 : bits == 64 ? 10 : 14;       // biased exponent width
  int t = bits - 1 - w;                                // trailing bits of the small form
  int bias = -f.qmin;
  unsigned top5 = (unsigned)(v >> (bits - 6)) & 31;
  if (top5 == 30) { r.k = INF; u128 m = ((u128)1 << (bits - 6)) - 1; r.canon = (v & m) == 0; return r; }
  if (top5 == 31) {
    r.k = ((v >> (bits - 7)) & 1) ? SNaN : QNaN;
    int pb = bits == 32 ? 20 : bits == 64 ? 50 : 110;
    r.c = v & (((u128)1 << pb) - 1);
    u128 rest = (v >> pb) & (((u128)1 << (bits - 7 - pb)) - 1);
    if (r.c >= p10u(f.p - 1)) { r.c = 0; r.canon = false; }
    if (rest) r.canon = false;
    return r;
  }
  if (((v >> (bits - 3)) & 3) == 3) {                  // large form
    r.q = (int)((v >> (t - 2)) & (((u128)1 << w) - 1)) - bias;
    u128 low = v & (((u128)1 << (t - 2)) - 1);
    r.c = ((u128)4 << (t - 2)) | low;                  // 0b100 prefix followed by t-2 bits
  } else {
    r.q = (int)((v >> t) & (((u128)1 << w) - 1)) - bias;
    r.c = v & (((u128)1 << t) - 1);
  }
  if (r.c >= p10u(f.p)) { r.c = 0; r.canon = false; }
  return r;
}
inline u128 encode(int bits, const Num &n) {
  const Fmt &f = fmt_of(bits);
  int w = bits == 32 ? 8 : bits == 64 ? 10 : 14, t = bits - 1 - w;
  u128 s = n.neg ? (u128)1 << (bits - 1) : 0;
  if (n.k == INF) return s | ((u128)0x78 << (bits - 8));
  if (n.k == QNaN) return s | ((u128)0x7c << (bits - 8)) | n.c;
  if (n.k == SNaN) return s | ((u128)0x7e << (bits - 8)) | n.c;
  u128 e = (u128)(n.q - f.qmin);
  if (n.c < ((u128)1 << t)) return s | (e << t) | n.c;
  return s | ((u128)3 << (bits - 3)) | (e << (t - 2)) | (n.c & (((u128)1 << (t - 2)) - 1));
}
inline Num mk(bool neg, u128 c, int q) { Num n; n.neg = neg; n.c = c; n.q = q; return n; }
inline Num mkinf(bool neg) { Num n; n.k = INF; n.neg = neg; return n; }
inline Num mknan(bool neg = false, u128 pl = 0) { Num n; n.k = QNaN; n.neg = neg; n.c = pl; return n; }

inline std::string u2s(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
inline std::string i2s(i128 v) { return v < 0 ? "-" + u2s(-(u128) v) : u2s((u128) v); }
inline std::string hex(int bits, u128 v) { char b[40]; if (bits == 128) sprintf(b, "0x%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long) v); else sprintf(b, "0x%0*llx", bits / 4, (unsigned long long) v); return b; }
inline std::string str(const Num &n) {
  std::string s = n.neg ? "-" : "+";
  if (n.k == INF) return s + "inf";
  if (n.k == QNaN) return s + "nan(" + u2s(n.c) + ")";
  if (n.k == SNaN) return s + "snan(" + u2s(n.c) + ")";
  return s + u2s(n.c) + "E" + std::to_string(n.q) + (n.canon ? "" : "{noncanonical}");
}

// Exact comparison of two finite non-NaN values or infinities: -1, 0, 1.
inline int cmpmag(const Num &a, const Num &b) { // |a| vs |b|, no NaN
  if (a.inf() || b.inf()) return (int) a.inf() - (int) b.inf();
  if (!a.c || !b.c) return (a.c ? 1 : 0) - (b.c ? 1 : 0);
  int ea = ndigu(a.c) + a.q, eb = ndigu(b.c) + b.q;
  if (ea != eb) return ea < eb ? -1 : 1;
  Int x = I(a.c), y = I(b.c);
  if (a.q > b.q) x *= p10(a.q - b.q); else if (b.q > a.q) y *= p10(b.q - a.q);
  return x < y ? -1 : x > y ? 1 : 0;
}
inline int cmp(const Num &a, const Num &b) {
  if (a.zero() && b.zero()) return 0;
  if (a.zero()) return b.neg ? 1 : -1;
  if (b.zero()) return a.neg ? -1 : 1;
  if (a.neg != b.neg) return a.neg ? -1 : 1;
  int c = cmpmag(a, b);
  return a.neg ? -c : c;
}
inline bool same_val(const Num &a, const Num &b) { // numeric identity incl. sign of zero, NaN == NaN
  if (a.nan() || b.nan()) return a.nan() && b.nan();
  if (a.neg != b.neg) return false;
  return cmpmag(a, b) == 0;
}

enum { FL_INV = 1, FL_DZ = 4, FL_OVF = 8, FL_UNF = 16, FL_INX = 32 }; // x86 FE_* values

inline bool round_up(int rm, bool neg, bool odd, int half /* -1 <half, 0 tie, 1 >half */, bool any) {
  switch (rm) {
    case RNE: return half > 0 || (half == 0 && odd);
    case RZ: return false;
    case RU: return any && !neg;
    case RD: return any && neg;
    default: return half >= 0 && any;
  }
}

// Round (-1)^neg * (C + s) * 10^q, 0 <= s < 1 with s != 0 iff sticky, to format f.
// pref: preferred exponent for exact results.
inline Num round_to(const Fmt &f, bool neg, Int C, int q, bool sticky, int rm, int pref, int *flags = nullptr) {
  int fl = 0; Num r; r.neg = neg;
  if (C == 0 && !sticky) {
    r.q = std::min(std::max(pref, f.qmin), f.qmax);
    if (flags) *flags |= 0;
    return r;
  }
  // callers supply C with more than p+2 digits when sticky is set
  if (sticky && ndig(C) < f.p + 2) { fprintf(stderr, "round_to: too few digits\n"); abort(); }
  int nd = ndig(C);
  bool tiny = (nd == 0) || (nd + q - 1 < f.emin);
  int drop = std::max(nd - f.p, f.qmin - q);
  if (drop < 0) drop = 0;
  bool inex = sticky;
  if (drop > 0) {
    Int d, rem;
    int half;
    if (drop > nd + 1) { d = 0; rem = 0; half = -1; inex = true; }
    else {
      divide_qr(C, p10(drop), d, rem);
      Int h = p10(drop) / 2;
      int c = rem < h ? -1 : rem > h ? 1 : 0;
      if (c == 0 && sticky) c = 1;
      if (rem != 0) inex = true;
      half = c;
    }
    bool odd = (d & 1) != 0;
    if (inex && round_up(rm, neg, odd, half, true)) d += 1;
    C = d; q += drop;
    if (ndig(C) > f.p) { C /= 10; q++; }
  }
  if (inex) fl |= FL_INX;
  if (tiny && inex) fl |= FL_UNF;
  nd = ndig(C);
  if (!inex) {
    // exact: move the exponent towards pref
    if (C != 0) {
      while (q < pref || q < f.qmin) { Int d, rem; divide_qr(C, Int(10), d, rem); if (rem != 0) break; C = d; q++; }
      while (q > pref && ndig(C) < f.p && q > f.qmin) { C *= 10; q--; }
    }
  }
  if (C != 0 && q > f.qmax) {
    while (q > f.qmax && ndig(C) < f.p) { C *= 10; q--; }
    if (q > f.qmax) {
      fl |= FL_OVF | FL_INX;
      bool toinf = rm == RNE || rm == RNA || (rm == RU && !neg) || (rm == RD && neg);
      if (flags) *flags |= fl;
      if (toinf) return mkinf(neg);
      return mk(neg, p10u(f.p) - 1, f.qmax);
    }
  }
  if (C == 0 && q > f.qmax) q = f.qmax;
  r.c = U(C); r.q = q;
  if (flags) *flags |= fl;
  return r;
}

// Exact a*10^qa (+/-) b*10^qb with a bounded alignment; result as (neg, C, q, sticky).
struct Ex { bool neg; Int C; int q; bool sticky; };
inline Ex add_exact(bool na, Int a, int qa, bool nb, Int b, int qb) {
  const int LIM = 120;
  Ex r; r.sticky = false;
  if (a == 0 && b == 0) { r.neg = na; r.C = 0; r.q = std::min(qa, qb); return r; }
  if (a == 0) { r.neg = nb; r.C = b; r.q = qb; return r; }
  if (b == 0) { r.neg = na; r.C = a; r.q = qa; return r; }
  int ta = ndig(a) + qa, tb = ndig(b) + qb;
  if (ta < tb) { std::swap(a, b); std::swap(qa, qb); std::swap(na, nb); std::swap(ta, tb); }
  // |a| has the larger (or equal) top
  if (qa > qb) {
    int sh = qa - qb;
    if (sh <= 200) { a *= p10(sh); qa = qb; }
    else {
      // b far below: b < 10^tb. Scale a by LIM; if tb <= qa-LIM then b is pure sticky
      if (tb <= qa - LIM) {
        a *= p10(LIM); qa -= LIM;
        r.neg = na; r.q = qa;
        if (na == nb) { r.C = a; r.sticky = true; } else { r.C = a - 1; r.sticky = true; }
        return r;
      }
      // not reached for operands of up to 70 digits
      fprintf(stderr, "add_exact: range\n"); abort();
    }
  } else if (qb > qa) {
    b *= p10(qb - qa); qb = qa; // ta >= tb bounds this
  }
  r.q = qa;
  if (na == nb) { r.neg = na; r.C = a + b; }
  else if (a >= b) { r.neg = na; r.C = a - b; }
  else { r.neg = nb; r.C = b - a; }
  return r;
}

inline Num nan_result(const Num &a, const Num &b, int *fl) {
  if (fl && (a.k == SNaN || b.k == SNaN)) *fl |= FL_INV;
  const Num &s = a.nan() ? a : b;
  return mknan(s.neg, s.c);
}
inline Num inv(int *fl) { if (fl) *fl |= FL_INV; return mknan(); }

inline Num add(const Fmt &f, Num a, Num b, int rm, int *fl = nullptr) {
  if (a.nan() || b.nan()) return nan_result(a, b, fl);
  if (a.inf() || b.inf()) {
    if (a.inf() && b.inf()) { if (a.neg != b.neg) return inv(fl); return a; }
    return a.inf() ? mkinf(a.neg) : mkinf(b.neg);
  }
  int pref = std::min(a.q, b.q);
  if (a.c == 0 && b.c == 0) { bool neg = a.neg == b.neg ? a.neg : rm == RD; return mk(neg, 0, pref); }
  Ex e = add_exact(a.neg, I(a.c), a.q, b.neg, I(b.c), b.q);
  if (e.C == 0 && !e.sticky) return mk(rm == RD, 0, pref);
  return round_to(f, e.neg, e.C, e.q, e.sticky, rm, pref, fl);
}
inline Num mul(const Fmt &f, Num a, Num b, int rm, int *fl = nullptr) {
  if (a.nan() || b.nan()) return nan_result(a, b, fl);
  bool neg = a.neg != b.neg;
  if (a.inf() || b.inf()) { if (a.zero() || b.zero()) return inv(fl); return mkinf(neg); }
  return round_to(f, neg, I(a.c) * I(b.c), a.q + b.q, false, rm, a.q + b.q, fl);
}
inline Num div(const Fmt &f, Num a, Num b, int rm, int *fl = nullptr) {
  if (a.nan() || b.nan()) return nan_result(a, b, fl);
  bool neg = a.neg != b.neg;
  if (a.inf()) return b.inf() ? inv(fl) : mkinf(neg);
  if (b.inf()) return mk(neg, 0, f.qmin);
  if (b.c == 0) { if (a.c == 0) return inv(fl); if (fl) *fl |= FL_DZ; return mkinf(neg); }
  int pref = a.q - b.q;
  if (a.c == 0) return mk(neg, 0, std::min(std::max(pref, f.qmin), f.qmax));
  const int S = 75;
  Int n = I(a.c) * p10(S), d, r;
  divide_qr(n, I(b.c), d, r);
  int q = pref - S;
  if (r == 0) { // exact so far: strip zeros down to preferred exponent
    while (q < pref) { Int x, y; divide_qr(d, Int(10), x, y); if (y != 0) break; d = x; q++; }
    // exact value may have more than p digits: round_to deals with it
  }
  return round_to(f, neg, d, q, r != 0, rm, pref, fl);
}
inline Num fma(const Fmt &f, Num a, Num b, Num c, int rm, int *fl = nullptr) {
  if (a.nan() || b.nan() || c.nan()) {
    if (fl && (a.k == SNaN || b.k == SNaN || c.k == SNaN)) *fl |= FL_INV;
    return mknan();
  }
  bool neg = a.neg != b.neg;
  if (a.inf() || b.inf()) {
    if (a.zero() || b.zero()) return inv(fl);
    if (c.inf() && c.neg != neg) return inv(fl);
    return mkinf(neg);
  }
  if (c.inf()) return mkinf(c.neg);
  Int P = I(a.c) * I(b.c); int qp = a.q + b.q;
  int pref = std::min(qp, c.q);
  if (P == 0 && c.c == 0) { bool s = neg == c.neg ? neg : rm == RD; return mk(s, 0, std::min(std::max(pref, f.qmin), f.qmax)); }
  Ex e = add_exact(neg, P, qp, c.neg, I(c.c), c.q);
  if (e.C == 0 && !e.sticky) return mk(rm == RD, 0, std::min(std::max(pref, f.qmin), f.qmax));
  return round_to(f, e.neg, e.C, e.q, e.sticky, rm, pref, fl);
}
// Conversion between formats
inline Num convert(const Fmt &to, Num a, int rm, int *fl = nullptr) {
  if (a.nan()) { if (fl && a.k == SNaN) *fl |= FL_INV; return mknan(a.neg); }
  if (a.inf()) return mkinf(a.neg);
  return round_to(to, a.neg, I(a.c), a.q, false, rm, a.q, fl);
}
// Round to integer: 5 IEEE modes by rm plus RNA. Returns value with exponent max(q,0).
inline Num round_int(const Num &a, int rm, bool *inexact = nullptr) {
  if (inexact) *inexact = false;
  if (!a.fin() || a.q >= 0) return a;
  int k = -a.q;
  u128 ip, fr; int half; bool any;
  if (k > 38) { ip = 0; any = a.c != 0; half = -1; }
  else {
    ip = a.c / p10u(k); fr = a.c % p10u(k); any = fr != 0;
    u128 h = p10u(k) / 2; half = fr < h ? -1 : fr > h ? 1 : 0;
  }
  if (any && round_up(rm, a.neg, ip & 1, half, true)) ip++;
  if (inexact) *inexact = any;
  return mk(a.neg, ip, 0);
}
inline Int isqrt(const Int &n) { return boost::multiprecision::sqrt(n); }
inline Num sqrt(const Fmt &f, Num a, int rm, int *fl = nullptr) {
  if (a.nan()) return nan_result(a, a, fl);
  int pref = a.fin() ? (a.q >= 0 ? a.q / 2 : -((-a.q + 1) / 2)) : 0; // floor(q/2)
  if (a.zero()) return mk(a.neg, 0, pref);
  if (a.neg) return inv(fl);
  if (a.inf()) return a;
  Int c = I(a.c); int q = a.q;
  if (q & 1) { c *= 10; q--; }
  const int S = 40;
  c *= p10(2 * S); q -= 2 * S;
  Int r = isqrt(c); bool st = r * r != c;
  q /= 2;
  if (!st) while (q < pref) { Int x, y; divide_qr(r, Int(10), x, y); if (y != 0) break; r = x; q++; }
  return round_to(f, false, r, q, st, rm, pref, fl);
}
} // namespace ref
