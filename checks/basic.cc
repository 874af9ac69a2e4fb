#define FW_MAIN
#include "../h/util.hpp"
#include <climits>
#include <cmath>
#include <cfenv>
using namespace fw;
static V tv(const Num &x) { return x.fin() && x.c ? OK : TRIVIAL; }

static void compare_prop(Prop &P) {
  for (int b : {32, 64, 128}) {
    struct { const char *n; int m; } ops[] = {{"eq", 1}, {"ne", 2}, {"lt", 3}, {"le", 4}, {"gt", 5}, {"ge", 6}, {"unord", 7}, {"isgreater", 5}, {"isgreaterequal", 6}, {"isless", 3}, {"islessequal", 4}, {"islessgreater", 8}, {"isunordered", 7}};
    for (auto &op : ops) { int m = op.m;
      P.subs.push_back(binary(op.n, b, [m](const Case &c, Out &o, int op, const Num &x, const Num &y) {
        bool un = x.nan() || y.nan(); int k = un ? 0 : cmp(x, y); bool e = false;
        switch (m) { case 1: e = !un && k == 0; break; case 2: e = un || k != 0; break; case 3: e = !un && k < 0; break; case 4: e = !un && k <= 0; break; case 5: e = !un && k > 0; break; case 6: e = !un && k >= 0; break; case 7: e = un; break; case 8: e = !un && k != 0; }
        SRes R = call(op, c.rm, c.d[0], c.d[1]);
        o.label = un ? "unordered" : k ? "ordered" : x.q != y.q && x.c ? "equal, different cohort member" : "equal";
        if ((R.n != 0) != e) { o.msg = "returned " + i2s(R.n) + ", expected " + (e ? "nonzero" : "0"); return FAIL; }
        return x.fin() && y.fin() && (x.c || y.c) ? OK : TRIVIAL; }));
    }
  }
}

static void class_prop(Prop &P) {
  for (int b : {32, 64, 128}) {
    auto I = [&](const char *n, std::function<int(const Num &, int)> e, bool boolean, bool sgn = false) {
      P.subs.push_back(unary(n, b, [e, boolean, sgn, b](const Case &c, Out &o, int op, const Num &x) {
        SRes R = call(op, c.rm, c.d[0]); int w = e(x, b); o.label = cls(x, b);
        if (sgn && x.inf() && (R.n < 0) != x.neg) { o.msg = "returned " + i2s(R.n) + ", the sign should tell which infinity"; return FAIL; }
        if (boolean ? (R.n != 0) != (w != 0) : R.n != w) { o.msg = "returned " + i2s(R.n) + ", expected " + std::to_string(w); return FAIL; }
        return OK; })); };
    auto fpc = [](const Num &x, int b) { return x.nan() ? FP_NAN : x.inf() ? FP_INFINITE : !x.c ? FP_ZERO : ndigu(x.c) + x.q - 1 < fmt_of(b).emin ? FP_SUBNORMAL : FP_NORMAL; };
    for (auto p : {"fpclassify", "m_fpclassify"}) I(p, fpc, false);
    for (auto p : {"isfinite", "m_isfinite", "finite"}) I(p, [](const Num &x, int) { return (int) x.fin(); }, true);
    for (auto p : {"isinf", "m_isinf"}) I(p, [](const Num &x, int) { return (int) x.inf(); }, true, p[0] == 'm'); // the macro tells the two infinities apart (as glibc's), the function need not
    for (auto p : {"isnan", "m_isnan"}) I(p, [](const Num &x, int) { return (int) x.nan(); }, true);
    for (auto p : {"issignaling", "m_issignaling"}) I(p, [](const Num &x, int) { return (int)(x.k == SNaN); }, true);
    for (auto p : {"isnormal", "m_isnormal"}) I(p, [fpc](const Num &x, int b) { return (int)(fpc(x, b) == FP_NORMAL); }, true);
    for (auto p : {"__signbit", "m_signbit"}) I(p, [](const Num &x, int) { return (int) x.neg; }, true);
    // sign operations touch only the sign, for every bit pattern (value, quantum, payload)
    auto S = [&](const char *n, int mode) {
      P.subs.push_back(binary(n, b, [b, mode, n](const Case &c, Out &o, int op, const Num &x, const Num &y) {
        SRes R = call(op, c.rm, c.d[0], c.d[1]); Num g = decode(b, R.r[0]); o.label = cls(x, b);
        bool s = mode == 0 ? false : mode == 1 ? y.neg : !x.neg;
        if (g.neg != s) { o.msg = "sign of " + str(g) + " should be " + (s ? "-" : "+"); return FAIL; }
        bool same = x.nan() ? g.nan() && (g.k == x.k || mode != 2) : g.k == x.k && (x.inf() || (g.c == x.c && g.q == x.q));
        if (x.nan() && g.nan()) same = true;
        if (!same) { o.msg = "result " + str(g) + " differs from the operand in more than the sign"; return FAIL; }
        return OK; })); };
    S("fabs", 0); S("copysign", 1); S("neg", 2);
  }
}

static void rint_prop(Prop &P) {
  for (int b : {32, 64, 128}) {
    auto R1 = [&](const char *n, int mode) { // mode -1: current rounding mode
      Sub s = unary(n, b, [mode, b](const Case &c, Out &o, int op, const Num &x) {
        SRes R = call(op, c.rm, c.d[0]);
        if (x.nan()) return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL;
        bool inx; Num e = round_int(x, mode < 0 ? c.rm : mode, &inx);
        o.label = inx ? "inexact" : "integral";
        if (!want(o, b, R.r[0], e, e.c != 0)) return FAIL;
        return inx ? OK : TRIVIAL; });
      s.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; if (g.chance(1, 2)) { Num x = decode(b, c.d[0]); const Fmt &f = fmt_of(b); if (x.fin() && x.c) { x.q = -g.range(0, ndigu(x.c) + 1); c.d[0] = clampq(b, x); } (void) f; } };
      P.subs.push_back(s); };
    R1("ceil", RU); R1("floor", RD); R1("trunc", RZ); R1("round", RNA); R1("roundeven", RNE); R1("rint", -1); R1("nearbyint", -1);
  }
}
static void lround_prop(Prop &P) {
  for (int b : {32, 64, 128}) {
    auto L = [&](const char *n, int mode) {
      Sub s = unary(n, b, [mode, b](const Case &c, Out &o, int op, const Num &x) {
        SRes R = call(op, c.rm, c.d[0]);
        bool inr = false; i128 e = 0; bool inx = false;
        if (x.fin()) { Num r = round_int(x, mode < 0 ? c.rm : mode, &inx);
          if (r.c == 0) { inr = true; } else if (r.q + ndigu(r.c) <= 20) { Int v = I(r.c) * p10(r.q); Int lim = r.neg ? Int(1) << 63 : (Int(1) << 63) - 1; if (v <= lim) { inr = true; e = (i128) U(v); if (r.neg) e = -e; } } }
        o.label = !inr ? "out of range" : inx ? "inexact" : "exact";
        if (inr && R.n != e) { o.msg = "returned " + i2s(R.n) + ", expected " + i2s(e); return FAIL; }
        if (inr && R.err) { o.msg = "errno " + std::to_string(R.err) + " set by an in-range conversion"; return FAIL; }
        bool fin = x.fin();
        if (!inr && R.err != EDOM) { o.msg = "out of range argument: errno is " + std::to_string(R.err) + ", expected EDOM (returned " + i2s(R.n) + ")"; return FAIL; }
        if (!inr && !(R.flags & FE_INVALID)) { o.msg = "out of range argument: FE_INVALID not raised"; return FAIL; }
        if (inr && (R.flags & FE_INVALID)) { o.msg = "FE_INVALID raised by an in-range conversion"; return FAIL; }
        if (inr && mode < 0 && inx != !!(R.flags & FE_INEXACT)) { o.msg = inx ? "FE_INEXACT not raised" : "FE_INEXACT raised by an exact conversion"; return FAIL; }
        if (inr && mode >= 0 && (R.flags & FE_INEXACT)) { o.msg = "FE_INEXACT raised"; return FAIL; }
        (void) fin;
        return inr ? OK : TRIVIAL; });
      s.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; const Fmt &f = fmt_of(b);
        if (g.chance(1, 2)) { Num x = decode(b, c.d[0]); if (x.fin() && x.c) { x.q = -g.range(0, ndigu(x.c) + 1); c.d[0] = clampq(b, x); } }
        else if (g.chance(1, 2)) { Num x; x.neg = g.below(2); u128 v = ((u128) 1 << 63); int fr = f.p >= 34 ? g.range(0, 15) : 0; u128 m = p10u(fr); v = v * m + (u128)(int64_t)(g.below(2 * 12)) - 12; if (fr && g.chance(1, 2)) { v = ((u128) 1 << 63) * m + g.below(5) * (m / 2) - m + g.below(3) - 1; }
          int dr = ndigu(v) - f.p; if (dr > 0) { v = v / p10u(dr) + g.below(3) - 1; x.q = dr - fr; } else x.q = -fr; x.c = v; c.d[0] = encode(b, x); } };
      P.subs.push_back(s); };
    L("lround", RNA); L("llround", RNA); L("lrint", -1); L("llrint", -1);
  }
}
static void quantum_prop(Prop &P) {
  for (int b : {32, 64, 128}) { const Fmt &f = fmt_of(b);
    P.subs.push_back(binary("quantize", b, [b, &f](const Case &c, Out &o, int op, const Num &x, const Num &y) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]);
      if (x.nan() || y.nan()) { o.label = "nan"; return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL; }
      if (x.inf() != y.inf()) { o.label = "inf"; return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL; }
      if (x.inf()) { o.label = "inf"; return want(o, b, R.r[0], x) ? TRIVIAL : FAIL; }
      Num e; bool nan = false, inx = false;
      if (x.c == 0) e = mk(x.neg, 0, y.q);
      else if (y.q <= x.q) { if (ndigu(x.c) + (x.q - y.q) > f.p) nan = true; else e = mk(x.neg, x.c * p10u(x.q - y.q), y.q); }
      else { Num t = x; t.q = x.q - y.q; e = round_int(t, c.rm, &inx); e.q = y.q; if (ndigu(e.c) > f.p) nan = true; }
      o.label = nan ? "not representable" : inx ? "inexact" : "exact";
      if (nan) return want_nan(o, b, R.r[0]) ? OK : FAIL;
      return want(o, b, R.r[0], e, true) ? tv(x) : FAIL; }));
    P.subs.push_back(binary("samequantum", b, [](const Case &c, Out &o, int op, const Num &x, const Num &y) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]); bool e = x.fin() && y.fin() ? x.q == y.q : (x.nan() && y.nan()) || (x.inf() && y.inf());
      o.label = e ? "same" : "different";
      if ((R.n != 0) != e) { o.msg = "returned " + i2s(R.n); return FAIL; } return OK; }));
    P.subs.push_back(unary("quantum", b, [b](const Case &c, Out &o, int op, const Num &x) {
      SRes R = call(op, c.rm, c.d[0]); o.label = cls(x, b);
      if (x.nan()) return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL;
      if (x.inf()) return want(o, b, R.r[0], mkinf(false)) ? TRIVIAL : FAIL;
      return want(o, b, R.r[0], mk(false, 1, x.q), true) ? OK : FAIL; }));
    P.subs.push_back(unary("llquantexp", b, [b](const Case &c, Out &o, int op, const Num &x) {
      SRes R = call(op, c.rm, c.d[0]); o.label = cls(x, b);
      if (!x.fin()) { if (R.n != LLONG_MIN) { o.msg = "returned " + i2s(R.n) + " for a non-finite operand"; return FAIL; } return TRIVIAL; }
      if (R.n != x.q) { o.msg = "returned " + i2s(R.n) + ", expected " + std::to_string(x.q); return FAIL; } return OK; }));
  }
}
static void exp_prop(Prop &P) {
  for (int b : {32, 64, 128}) { const Fmt &f = fmt_of(b);
    auto E = [&](const char *n, int kind) { P.subs.push_back(unary(n, b, [b, kind](const Case &c, Out &o, int op, const Num &x) {
      SRes R = call(op, c.rm, c.d[0]); o.label = cls(x, b); 
      if (x.fin() && x.c) { int e = ndigu(x.c) + x.q - 1; if (kind == 0) return want(o, b, R.r[0], e < 0 ? mk(true, -e, 0) : mk(false, e, 0)) ? OK : FAIL; if (R.n != e) { o.msg = "returned " + i2s(R.n) + ", expected " + std::to_string(e); return FAIL; } return OK; }
      if (kind == 0) return x.nan() ? (want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL) : want(o, b, R.r[0], mkinf(x.zero())) ? TRIVIAL : FAIL;
      i128 e; if (kind == 1) e = x.zero() ? FP_ILOGB0 : x.nan() ? FP_ILOGBNAN : INT_MAX; else e = x.zero() ? FP_LLOGB0 : x.nan() ? FP_LLOGBNAN : LONG_MAX;
      if (x.inf() && x.neg) return TRIVIAL;
      if (R.n != e) { o.msg = "returned " + i2s(R.n) + ", expected " + i2s(e); return FAIL; } return TRIVIAL; })); };
    E("logb", 0); E("ilogb", 1); E("llogb", 2);
    P.subs.push_back(unary("frexp", b, [b](const Case &c, Out &o, int op, const Num &x) {
      SRes R = call(op, c.rm, c.d[0]); o.label = cls(x, b); Num g = decode(b, R.r[0]);
      if (x.nan()) return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL;
      if (x.inf()) return want(o, b, R.r[0], x) ? TRIVIAL : FAIL;
      if (x.zero()) { if (!want(o, b, R.r[0], mk(x.neg, 0, 0))) return FAIL; if (R.n != 0) { o.msg = "exponent " + i2s(R.n) + " for zero"; return FAIL; } return TRIVIAL; }
      int nd = ndigu(x.c); if (!want(o, b, R.r[0], mk(x.neg, x.c, -nd))) return FAIL; (void) g;
      if (R.n != nd + x.q) { o.msg = "exponent " + i2s(R.n) + ", expected " + std::to_string(nd + x.q); return FAIL; } return OK; }));
    auto SC = [&](const char *n, int ibits) { Sub s; s.name = nm(n, b); s.dfmt = {b}; s.use_rm = true; int op = shim_find(n, b);
      s.gen = [b, ibits, &f](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; Num x = decode(b, c.d[0]); i128 k;
        switch (g.below(8)) { case 0: k = g.range(-5, 5); break; case 1: k = f.qmin - x.q + g.range(-f.p - 3, 3); break; case 2: k = f.qmax - x.q + g.range(-f.p - 3, f.p + 3); break; case 3: k = g.range(-2 * f.emax, 2 * f.emax); break; case 4: k = ibits == 32 ? (g.chance(1, 2) ? INT_MAX - (int) g.below(3) : INT_MIN + (int) g.below(3)) : (g.chance(1, 2) ? LONG_MAX - (long) g.below(3) : LONG_MIN + (long) g.below(3)); break; case 5: k = g.range(-40000, 40000); break; case 6: k = ibits == 32 ? (i128)(int) g.next() : (i128)(int64_t) g.next(); break; default: k = g.range(-f.p, f.p); }
        c.n = {k}; };
      s.check = [b, op, ibits, &f](const Case &c, Out &o) { Num x = decode(b, c.d[0]); i128 k = ibits == 32 ? (i128)(int) c.n[0] : (i128)(long) c.n[0]; SRes R = call(op, c.rm, c.d[0], 0, 0, k);
        if (x.nan()) return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL;
        if (!x.fin() || !x.c) return want(o, b, R.r[0], x) ? TRIVIAL : FAIL;
        i128 q = (i128) x.q + k; int qq = q > 30000 ? 30000 : q < -30000 ? -30000 : (int) q; int fl = 0;
        Num e = round_to(f, x.neg, ref::I(x.c), qq, false, c.rm, qq, &fl);
        o.label = fl & FL_OVF ? "overflow" : fl & FL_UNF ? "underflow" : "exact";
        if (fl & (FL_OVF | FL_UNF)) { // range errors are rounded to nearest by some members: accept either rounding
          int f2 = 0; Num e2 = round_to(f, x.neg, ref::I(x.c), qq, false, RNE, qq, &f2); Num g = decode(b, R.r[0]); if (!same_val(g, e) && !same_val(g, e2)) { o.msg = "result is " + str(g) + ", expected " + str(e); return FAIL; }
          if (g.inf() && R.err != ERANGE) { o.msg = "overflow without ERANGE"; return FAIL; }
          return OK; }
        if (!want(o, b, R.r[0], e)) return FAIL;
        if (R.err) { o.msg = "errno " + std::to_string(R.err) + " set by an exact result"; return FAIL; }
        return OK; };
      P.subs.push_back(s); };
    SC("ldexp", 32); SC("scalbn", 32); SC("scalbln", 64);
  }
}
static Num next_up(const Fmt &f, const Num &x) {
  if (x.inf()) return x.neg ? mk(true, p10u(f.p) - 1, f.qmax) : x;
  if (!x.c) return mk(false, 1, f.qmin);
  Num y = x; while (y.c < p10u(f.p - 1) && y.q > f.qmin) { y.c *= 10; y.q--; }
  if (!x.neg) { y.c++; if (y.c == p10u(f.p)) { if (y.q == f.qmax) return mkinf(false); y.c /= 10; y.q++; } return y; }
  if (y.c == p10u(f.p - 1) && y.q > f.qmin) { y.c = p10u(f.p) - 1; y.q--; } else y.c--;
  return y;
}
static Num flip(Num x) { x.neg = !x.neg; return x; }
static Num next_down(const Fmt &f, const Num &x) { return flip(next_up(f, flip(x))); }
static void next_prop(Prop &P) {
  for (int b : {32, 64, 128}) { const Fmt &f = fmt_of(b);
    auto U1 = [&](const char *n, bool up) { P.subs.push_back(unary(n, b, [b, up, &f](const Case &c, Out &o, int op, const Num &x) {
      SRes R = call(op, c.rm, c.d[0]); o.label = cls(x, b); if (x.nan()) return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL;
      return want(o, b, R.r[0], up ? next_up(f, x) : next_down(f, x)) ? OK : FAIL; })); };
    U1("nextup", true); U1("nextdown", false);
    for (int i = 1; i <= 2; i++) { auto g0 = P.subs[P.subs.size() - i].gen; P.subs[P.subs.size() - i].gen = [g0, b, &f](Rng &g, Case &c) { g0(g, c); if (!g.chance(1, 12)) return;
        c.d[0] = encode(b, g.chance(1, 4) ? mk(g.chance(1, 2), 1 + g.below(3), f.qmin) : g.chance(1, 3) ? mk(g.chance(1, 2), p10u(f.p - 1) + g.below(2), g.range(f.qmin, f.qmax)) : mk(g.chance(1, 2), p10u(f.p) - 1 - g.below(2), g.range(f.qmax - 1, f.qmax))); }; }
    auto chk = [b, &f](const Case &c, Out &o, int op, const Num &x, const Num &y, int yb) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]); o.label = cls(x, b);
      if (x.nan() || y.nan()) { if (!want_nan(o, b, R.r[0])) return FAIL; if (R.err && x.k != SNaN && y.k != SNaN) { o.msg = "errno " + std::to_string(R.err) + " set for a NaN operand"; return FAIL; } return TRIVIAL; }
      int k = cmp(x, y); (void) yb;
      if (k == 0) { Num e = x; e.neg = y.neg; o.label = "equal"; return want(o, b, R.r[0], e) ? TRIVIAL : FAIL; }
      Num e = k < 0 ? next_up(f, x) : next_down(f, x);
      if (!want(o, b, R.r[0], e)) return FAIL;
      if (e.inf() && x.fin()) { o.label = "overflow"; if (R.err != ERANGE) { o.msg = "overflow without ERANGE"; return FAIL; } return OK; }
      if (R.err && e.c && ndigu(e.c) + e.q - 1 >= f.emin) { o.msg = "errno " + std::to_string(R.err) + " set for a normal result"; return FAIL; }
      return OK; };
    P.subs.push_back(binary("nextafter", b, [chk, b](const Case &c, Out &o, int op, const Num &x, const Num &y) { return chk(c, o, op, x, y, b); }));
    { auto g0 = P.subs.back().gen; P.subs.back().gen = [g0, b, &f](Rng &g, Case &c) { g0(g, c); if (!g.chance(1, 12)) return; // the edge of the range
        Num m = g.chance(1, 4) ? mk(g.chance(1, 2), 1 + g.below(3), f.qmin) : mk(g.chance(1, 2), p10u(f.p) - 1 - g.below(2), f.qmax); c.d[0] = encode(b, m); if (g.chance(1, 2)) c.d[1] = encode(b, mkinf(m.neg)); }; }
    Sub s; s.name = nm("nexttoward", b); s.dfmt = {b, 128}; s.use_rm = true; int op = shim_find("nexttoward", b);
    s.gen = [b](Rng &g, Case &c) { u128 x = gen_dec(g, b); u128 y; Num n = decode(b, x); if (n.fin() && g.chance(2, 3)) { // same value or a neighbour in the wide format
          u128 z = encode(128, mk(n.neg, n.c, n.q)); y = g.chance(1, 3) ? z : gen_rel(g, 128, z); } else y = gen_dec(g, 128);
        if (g.chance(1, 12)) { const Fmt &f = fmt_of(b); Num m = mk(g.chance(1, 2), p10u(f.p) - 1 - g.below(2), f.qmax); x = encode(b, m); if (g.chance(1, 2)) y = encode(128, mkinf(m.neg)); }
        c.d = {x, y}; };
    s.check = [chk, b, op](const Case &c, Out &o) { return chk(c, o, op, decode(b, c.d[0]), decode(128, c.d[1]), 128); };
    P.subs.push_back(s);
  }
}
static void minmax_prop(Prop &P) {
  for (int b : {32, 64, 128}) { const Fmt &f = fmt_of(b);
    auto M = [&](const char *n, bool mx, bool mag) { P.subs.push_back(binary(n, b, [b, mx, mag](const Case &c, Out &o, int op, const Num &x, const Num &y) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]); Num g = decode(b, R.r[0]);
      if (x.k == SNaN || y.k == SNaN) { o.label = "snan"; if (g.nan() || (y.nan() ? false : same_val(g, y)) || (x.nan() ? false : same_val(g, x))) return TRIVIAL; o.msg = "result is " + str(g); return FAIL; }
      if (x.nan() && y.nan()) { o.label = "nan"; return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL; }
      if (x.nan() || y.nan()) { o.label = "one nan"; return want(o, b, R.r[0], x.nan() ? y : x) ? OK : FAIL; }
      int k = mag ? cmpmag(x, y) : cmp(x, y); if (mag && k == 0) k = cmp(x, y);
      o.label = k ? "ordered" : "equal";
      if (k == 0 && x.zero()) { if (same_val(g, x) || same_val(g, y)) return OK; o.msg = "result is " + str(g); return FAIL; }
      Num e = (k > 0) == mx ? x : y;
      if (!want(o, b, R.r[0], e)) return FAIL;
      bool isx = g.q == x.q && g.c == x.c, isy = g.q == y.q && g.c == y.c;
      if (e.fin() && !isx && !isy) { o.msg = "result " + str(g) + " is not one of the operands (quantum changed)"; return FAIL; }
      return OK; })); };
    M("fmax", true, false); M("fmin", false, false); M("fmaxmag", true, true); M("fminmag", false, true);
    P.subs.push_back(binary("fdim", b, [b, &f](const Case &c, Out &o, int op, const Num &x, const Num &y) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]);
      if (x.nan() || y.nan()) { o.label = "nan"; return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL; }
      if (cmp(x, y) <= 0) { o.label = "not greater"; return want(o, b, R.r[0], mk(false, 0, 0)) ? OK : FAIL; }
      int fl = 0; Num e = add(f, x, flip(y), c.rm, &fl); o.label = fl & FL_OVF ? "overflow" : fl & FL_INX ? "rounded" : "exact";
      if (!want(o, b, R.r[0], e)) return FAIL;
      if ((fl & FL_OVF) && e.inf() && R.err != ERANGE) { o.msg = "overflow without ERANGE"; return FAIL; }
      return OK; }));
  }
}
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : ""; std::string k = P.id;
  if (k == "compare") compare_prop(P); else if (k == "class") class_prop(P); else if (k == "rint") rint_prop(P); else if (k == "lround") lround_prop(P);
  else if (k == "quantum") quantum_prop(P); else if (k == "exp") exp_prop(P); else if (k == "next") next_prop(P); else if (k == "minmax") minmax_prop(P);
  if (k == "flags") { compare_prop(P); class_prop(P); rint_prop(P); lround_prop(P); exp_prop(P); next_prop(P); minmax_prop(P); flag_mode(P); }
  return run_main(P, argc - 1, argv + 1);
}
