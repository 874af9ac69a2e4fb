// Mathematical functions: exact oracles (fmod, remainder, modf, fma, sqrt) and
// arbitrary precision ones (MPFR at 500+ bits) with a bound in ulps.
#define FW_MAIN
#include "../h/util.hpp"
#include "../h/mp.hpp"
#include <fstream>
#include <unistd.h>
using namespace fw;
using namespace mp;
static bool ulp_labels = getenv("ULPS");
static std::string bucket(double u) { static const double t[] = {.5, .55, .7, 1, 1.3, 1.6, 2, 3, 5, 7, 10, 20, 100, 1e4, 1e8, 1e20}; for (double v : t) if (u <= v) { char b[32]; snprintf(b, 32, "ulp<=%07.2g", v); return b; } return "ulp>1e20"; }
static int cond(const Num &x) { return ndigu(x.c) + x.q - 1; } // decimal exponent

// ---- the verdict on one result, given the true value Y
struct Tol { double u; double abs10 = -1e9; }; // ulps, plus an absolute error 10^abs10
static V judge(Out &o, int b, int rm, const Num &r, int err, const F &Y, bool args_nan, bool args_inf, bool exact_zero, Tol tol, bool pole) {
  const Fmt &f = fmt_of(b);
  if (Y.nan()) {
    o.label = args_nan ? "nan operand" : "domain error";
    if (!r.nan()) { o.msg = "result is " + str(r) + ", expected a NaN"; return FAIL; }
    if (!args_nan && err != EDOM) { o.msg = "domain error: errno is " + std::to_string(err) + ", expected EDOM"; return FAIL; }
    if (args_nan && err) { o.msg = "NaN operand: errno set to " + std::to_string(err); return FAIL; }
    return args_nan ? TRIVIAL : OK;
  }
  if (args_nan && r.nan()) { o.msg = "result is a NaN, expected a number"; return FAIL; }
  bool neg = mpfr_signbit(&Y);
  if (Y.zero()) {
    if (exact_zero) { o.label = "exact zero"; if (!r.zero() || (r.neg != neg && rm == 0)) { o.msg = "result is " + str(r) + ", expected " + (neg ? "-0" : "+0"); return FAIL; } if (err) { o.msg = "errno set to " + std::to_string(err) + " by an exact zero"; return FAIL; } return OK; }
    o.label = "underflow";
    if (!r.fin() || (r.c && (r.c > 1 || r.q > f.qmin)) || r.neg != neg) { o.msg = "result is " + str(r) + ", expected underflow"; return FAIL; }
    return OK;
  }
  long e = Y.inf() ? 1L << 40 : dexp(Y);
  if (e > f.emax) {
    bool exact = Y.inf() && (args_inf && !pole);
    o.label = exact ? "infinite" : Y.inf() && pole ? "pole" : "overflow";
    bool big = !exact && !pole && (rm == RZ || rm == (neg ? RU : RD)) && r.fin() && r.neg == neg && ndigu(r.c) + r.q - 1 == f.emax; // directed rounding stops at the largest number
    if (big) return OK;
    if (r.fin() && r.neg == neg && !Y.inf() && e == f.emax + 1 && ulps(f, r, Y) <= tol.u / 10) return OK; // just beyond the range
    if (!r.inf() || r.neg != neg) { // the largest finite number is within half an ulp of values just beyond it
      o.msg = "result is " + str(r) + ", expected " + (neg ? "-inf" : "+inf"); return FAIL; }
    if (exact && err) { o.msg = "errno set to " + std::to_string(err) + " by an exact infinity"; return FAIL; }
    if (!exact && err != ERANGE) { o.msg = o.label + ": errno is " + std::to_string(err) + ", expected ERANGE"; return FAIL; }
    return OK;
  }
  Num mx; mx.c = p10u(f.p); mx.q = f.qmax; mx.neg = neg; // the first number beyond the range
  if (r.inf() && r.neg == neg && e == f.emax && ulps(f, mx, Y) <= tol.u + .5) { o.label = "overflow"; return OK; }
  if (!r.fin()) { o.msg = "result is " + str(r) + ", expected about 1E" + std::to_string(e); return FAIL; }
  double u = ulps(f, r, Y), t = tol.u;
  if (tol.abs10 > -1e8) t += pow(10., std::min(300., tol.abs10 - (double) std::max<long>(e - f.p + 1, f.qmin)));
  bool sub = e < f.emin;
  o.label = sub ? "subnormal" : "regular";
  if (ulp_labels) o.label += bucket(u);
  if (!(u <= t)) { char m[200]; Num y = to_num(Y, f.p); snprintf(m, sizeof m, "result is %s, off by %.4g ulp from %s... (bound %.3g)", str(r).c_str(), u, str(y).c_str(), t); o.msg = m; return FAIL; }
  if (r.neg != neg && tol.abs10 < -1e8) { o.msg = "result " + str(r) + " has the wrong sign"; return FAIL; }
  if (err && !(sub && err == ERANGE) && !(e == f.emin && err == ERANGE)) { o.msg = "errno set to " + std::to_string(err) + " by a result in range (" + str(r) + ")"; return FAIL; }
  return OK;
}

typedef int (*MF)(Raw *, const Raw *, int);
static int m_lgamma(Raw *y, const Raw *x, int rnd) { int s; return mpfr_lgamma(y, &s, x, rnd); }
enum Fam { K_GEN, K_EXP, K_EXP2, K_LOG, K_TRIG, K_UNIT, K_GAMMA, K_LGAMMA, K_ERF, K_ERFC, K_ROOT, K_ACOSH };
struct FD { const char *n; MF f; Fam k; double t[3]; };
// numbers the sources compare the function's argument with (run.py write_dict): where one approximation ends and the next begins
static const std::vector<std::string> &dict(const char *fn) {
  static const auto m = [] {
    std::map<std::string, std::vector<std::string>> r; char p[4096]; ssize_t n = readlink("/proc/self/exe", p, sizeof p - 20);
    if (getenv("MATHDICT")) strcpy(p, getenv("MATHDICT")); else if (n > 0) { p[n] = 0; strcpy(strrchr(p, '/') + 1, "mathdict.txt"); } else *p = 0;
    std::ifstream in(p); std::string a, b; while (in >> a >> b) r[a].push_back(b);
    return r; }();
  static const std::vector<std::string> none; auto i = m.find(fn); return i == m.end() ? none : i->second;
}
static Num crit(Rng &g, Fam k, int b, const char *fn) {
  const Fmt &f = fmt_of(b); F x(256), y(256); int nd = g.chance(2, 3) ? f.p : g.range(1, f.p);
  const auto &dv = dict(fn);
  if (!dv.empty() && g.chance(2, 5)) {
    mpfr_strtofr(&x, dv[g.below(dv.size())].c_str(), nullptr, 10, 0); int w = (int) g.below(8);
    if (w == 0) mpfr_ui_div(&x, 1, &x, 0); else if (w == 1) mpfr_ui_sub(&x, 1, &x, 0); else if (w == 2) mpfr_add_ui(&x, &x, g.range(1, 2), 0);
    if (!mpfr_regular_p(&x)) mpfr_set_d(&x, 1, 0);
  } else
  switch (k) {
    case K_EXP: case K_EXP2: { // where the result crosses a power of ten
      int e; switch (g.below(6)) { case 0: e = f.emax + 1; break; case 1: e = f.emin; break; case 2: e = f.qmin; break; case 3: e = g.range(f.qmin, f.emax); break; default: e = g.range(-3, 20); } if (!e) e = 1;
      mpfr_set_si_2exp(&x, 10, 0, 0); if (k == K_EXP) mpfr_log(&x, &x, 0); else mpfr_log2(&x, &x, 0); mpfr_mul_si(&x, &x, e, 0); break; }
    case K_LOG: { int e = g.chance(1, 2) ? g.range(-4, 4) : g.range(f.qmin, f.emax); pow10(x, e); if (g.chance(1, 3)) { mpfr_set_si_2exp(&x, 1, g.range(-20, 20), 0); } break; }
    case K_TRIG: { long m = 1; int j = g.range(0, 17); for (int i = 0; i < j; i++) m *= 10; m = 1 + (long) g.below((uint64_t) m); mpfr_const_pi(&x, 0); mpfr_mul_si(&x, &x, m, 0); mpfr_set_si_2exp(&y, 1, -(int) g.range(1, 2), 0); mpfr_mul(&x, &x, &y, 0); break; }
    case K_UNIT: case K_ACOSH: { static const double v[] = {1, 1, 1, .5, .70710678118654752440, .25, .75, .1, .97}; mpfr_set_d(&x, v[g.below(9)], 0); break; }
    case K_GAMMA: case K_LGAMMA: { int lim = k == K_LGAMMA ? 200 : b == 32 ? 72 : b == 64 ? 207 : 2130; long v = g.chance(1, 2) ? g.range(1, 12) : g.range(1, lim); if (g.chance(1, 10)) v = lim; mpfr_set_si_2exp(&x, 2 * v + (g.chance(1, 3) ? 1 : 0), -1, 0); break; }
    case K_ERF: case K_ERFC: { double v; switch (g.below(3)) { case 0: v = b == 32 ? 14.6 : b == 64 ? 30 : 119; v += (double) g.range(-200, 200) / 100; break; case 1: v = (double) g.range(1, 120) / 10; break; default: { static const double w[] = {.5, 1, 2, 3, .25, .84375, 1.25, 2.857, 6, 28, .1}; v = w[g.below(11)]; } } mpfr_set_d(&x, v, 0); break; }
    default: { static const double v[] = {1, .5, 2, .1, .25, 10, .01, 1e-3, 1e-8, 22, 8, 27, 1000}; mpfr_set_d(&x, v[g.below(13)], 0); }
  }
  Num n = to_num(x, nd);
  if (g.chance(1, 2)) { int w = ndigu(n.c); if (w < f.p) { n.c *= p10u(f.p - w); n.q -= f.p - w; } int z = g.chance(1, 2) ? g.range(0, f.p - 1) : g.range(std::max(0, f.p - 6), f.p - 1); u128 d = g.belowu(p10u(z)) + 1; if (g.chance(1, 2)) n.c += d; else n.c -= std::min(d, n.c); if (ndigu(n.c) > f.p) { n.c /= 10; n.q++; } }
  n.neg = g.chance(1, k == K_LOG ? 30 : 4);
  return n;
}
static u128 gen_arg(Rng &g, int b, Fam k, const char *fn = "") {
  const Fmt &f = fmt_of(b);
  if (g.chance(1, 12)) return gen_dec(g, b);
  Num n;
  if (g.chance(1, 3)) n = crit(g, k, b, fn);
  else if ((k == K_LOG || k == K_UNIT || k == K_ACOSH) && g.chance(1, 5)) { // 1 + d or 1 - d, with d evenly spread over its decades
    int z = g.chance(1, 2) ? g.range(f.p - 4, f.p - 1) : g.range(0, f.p - 1); u128 d = p10u(z) * (1 + g.below(8)) + g.belowu(p10u(z));
    n.c = g.chance(1, 2) ? p10u(f.p - 1) + d / 10 : p10u(f.p - 1) + (p10u(f.p - 1) * 9 - std::min(d, p10u(f.p - 1) * 9 - 1)); n.q = n.c >= p10u(f.p - 1) * 2 ? -f.p : -f.p + 1; n.neg = k != K_LOG && g.below(2);
    if (g.chance(1, 4)) { int w = g.range(1, f.p - 2); n.c -= n.c % p10u(w); } // fewer digits
  }
  else if ((k == K_EXP || k == K_EXP2) && g.chance(1, 2)) { // the integral part evenly over the range of the function: tables are indexed by it
    int lim = (b == 32 ? 235 : b == 64 ? 920 : 14230); if (k == K_EXP2) lim = lim * 13 / 9; u128 ip = g.below((uint64_t) lim); int fd = g.chance(1, 8) ? 0 : g.range(0, f.p - std::max(1, ndigu(ip)));
    n.c = ip * p10u(fd) + (fd ? g.belowu(p10u(fd)) : 0); n.q = -fd; n.neg = g.below(2); }
  else {
    n.c = digits_pattern(g, g.chance(1, 2) ? f.p : g.range(1, f.p)); n.neg = g.below(2); if (k == K_LOG && g.chance(9, 10)) n.neg = false;
    int lo = -3, hi = 3;
    switch (k) { case K_EXP: case K_EXP2: hi = b == 32 ? 2 : b == 64 ? 3 : 4; break; case K_LOG: case K_ROOT: hi = 8; break; case K_TRIG: hi = 12; break; case K_UNIT: hi = -1; break; case K_GAMMA: hi = b == 128 ? 3 : 2; lo = -1; break; case K_LGAMMA: lo = -2; hi = 3; break; case K_ERF: case K_ERFC: hi = 1; break; default: break; }
    int E; switch (g.below(8)) { case 0: E = g.range(f.qmin, f.emax); break; case 1: E = g.range(-f.p - 4, 0); break; default: E = g.range(lo, hi); }
    n.q = E - std::max(ndigu(n.c), 1) + 1;
  }
  n.c %= p10u(f.p);
  return clampq(b, n);
}
static int bi(int b) { return b == 32 ? 0 : b == 64 ? 1 : 2; }
static Sub fsub(const FD &d, int b) {
  Sub s; s.name = nm(d.n, b); s.dfmt = {b}; s.use_rm = true; int op = shim_find(d.n, b); const Fmt &fm = fmt_of(b);
  s.gen = [b, d](Rng &g, Case &c) { c.d = {gen_arg(g, b, d.k, d.n)}; };
  s.check = [d, op, b, &fm](const Case &c, Out &o) -> V {
    Num x = decode(b, c.d[0]); int E = x.fin() && x.c ? cond(x) : 0;
    long prec = 500; Tol tol{d.t[bi(b)]};
    if (d.k == K_TRIG && E > 0) { prec += (long) (E * 3.33); tol.abs10 = E - 73; if (d.n[0] == 't') tol.abs10 += 1; }
    bool huge = d.k == K_TRIG && E >= 60;
    if (d.k == K_GAMMA && x.fin() && x.c && E > 5 && x.neg) prec = 500 + 4 * E; // digits of the fraction
    SRes R = call(op, c.rm, c.d[0]); Num r = decode(b, R.r[0]);
    F X(prec), Y(prec); set_any(X, x); d.f(&Y, &X, 0);
    if (d.n[0] == 't' && d.k == K_TRIG && Y.sgn() && !Y.inf()) tol.abs10 += 2 * std::max(0L, dexp(Y) + 1); // condition of the tangent
    if (d.k == K_GAMMA && b == 128 && !Y.nan() && !Y.inf() && Y.sgn()) tol.u += 100 * (double) std::labs(dexp(Y));
    tol.u *= 1.1; if (c.rm) tol.u = 2 * tol.u + (b == 128 && d.k == K_LOG ? 40 : 11); // intermediate roundings to one side; 10 ulps above a power of ten
    if (d.k == K_LGAMMA && x.neg && Y.sgn() && !Y.inf()) tol.abs10 = std::max<long>(std::max(0L, dexp(Y)), E > 0 ? E + 1 + (long) log10(E + 1.) : 0) - fm.p + 1 + log10(tol.u); // a difference: of x log x and the logarithm of the sine
    bool ez = x.inf() || (Y.zero() && (x.fin() && (x.c == 0 || (E < 5 && E > -5))));
    bool pole = !x.inf() && Y.inf() && (x.zero() || d.k == K_UNIT || ((d.k == K_GAMMA || d.k == K_LGAMMA) && x.neg) || d.k == K_LOG);
    V v = judge(o, b, c.rm, r, R.err, Y, x.nan(), x.inf(), ez, tol, pole);
    if (v == FAIL && huge) o.kf = "trig-huge-argument";
    return v; };
  return s;
}
static const FD fns[] = { // bounds in ulps for _Decimal32, 64 and 128, as measured over millions of arguments, with a margin
  {"exp", mpfr_exp, K_EXP, {1, 20, 1}}, {"exp2", mpfr_exp2, K_EXP2, {1, 1, 1}}, {"expm1", mpfr_expm1, K_EXP, {1, 1, 1}},
  {"log", mpfr_log, K_LOG, {1, 1, 2}}, {"log2", mpfr_log2, K_LOG, {5, 5, 5}}, {"log10", mpfr_log10, K_LOG, {1, 1, 1}}, {"log1p", mpfr_log1p, K_UNIT, {1, 1, 1}},
  {"sin", mpfr_sin, K_TRIG, {1, 1, 1}}, {"cos", mpfr_cos, K_TRIG, {1, 1, 1}}, {"tan", mpfr_tan, K_TRIG, {1, 1, 1}},
  {"asin", mpfr_asin, K_UNIT, {1, 1, 8}}, {"acos", mpfr_acos, K_UNIT, {1, 1, 8}}, {"atan", mpfr_atan, K_GEN, {1, 1, 1}},
  {"sinh", mpfr_sinh, K_EXP, {1, 1, 1}}, {"cosh", mpfr_cosh, K_EXP, {1, 1, 1}}, {"tanh", mpfr_tanh, K_GEN, {1, 1, 1}},
  {"asinh", mpfr_asinh, K_GEN, {1, 1, 1}}, {"acosh", mpfr_acosh, K_ACOSH, {1, 1, 1}}, {"atanh", mpfr_atanh, K_UNIT, {1, 1, 1}},
  {"erf", mpfr_erf, K_ERF, {10, 10, 12}}, {"erfc", mpfr_erfc, K_ERFC, {1, 1, 20}},
  {"tgamma", mpfr_gamma, K_GAMMA, {1, 1, 200}}, {"lgamma", m_lgamma, K_LGAMMA, {12, 12, 40}},
  {"cbrt", mpfr_cbrt, K_ROOT, {1, 1, 1}},
};

// ---- two operands
static Sub f2(const char *n, int b, std::function<void(Rng &, Case &)> gen, std::function<V(const Case &, Out &, int, const Num &, const Num &)> chk) {
  Sub s; s.name = nm(n, b); s.dfmt = {b, b}; s.use_rm = true; int op = shim_find(n, b); s.gen = gen;
  s.check = [op, b, chk](const Case &c, Out &o) { return chk(c, o, op, decode(b, c.d[0]), decode(b, c.d[1])); }; return s;
}
static bool is_int(const Num &x) { if (!x.c || x.q >= 0) return true; return x.q > -39 && x.c % p10u(-x.q) == 0; }
static bool is_odd(const Num &x) { if (!x.c || !is_int(x) || x.q > 0) return false; return (x.q ? x.c / p10u(-x.q) : x.c) % 2 == 1; }
static Sub hypot_sub(int b) {
  return f2("hypot", b, [b](Rng &g, Case &c) { u128 x = gen_dec(g, b); c.d = {x, gen_rel(g, b, x)}; if (g.chance(1, 4)) { const Fmt &f = fmt_of(b); Num a = decode(b, x), y; if (a.fin()) { y = a; y.c = digits_pattern(g, f.p); y.q = a.q + ndigu(a.c) - ndigu(y.c) + g.range(-f.p / 2 - 2, f.p / 2 + 2); c.d[1] = clampq(b, y); } } if (g.chance(1, 2)) std::swap(c.d[0], c.d[1]); },
    [b](const Case &c, Out &o, int op, const Num &x, const Num &y) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]); Num r = decode(b, R.r[0]); F X(500), Y(500), Z(500);
      if (x.k == SNaN || y.k == SNaN) { o.label = "signalling nan"; if (r.fin()) { o.msg = "result is " + str(r) + ", expected a NaN"; return FAIL; } return TRIVIAL; }
      set_any(X, x); set_any(Y, y); mpfr_hypot(&Z, &X, &Y, 0); bool inf = x.inf() || y.inf();
      Tol t{2}; if (c.rm) t.u = 15;
      return judge(o, b, c.rm, r, R.err, Z, (x.nan() || y.nan()) && !inf, inf, x.zero() && y.zero(), t, false); });
}
static Sub atan2_sub(int b) {
  return f2("atan2", b, [b](Rng &g, Case &c) { u128 x = gen_dec(g, b); c.d = {x, gen_rel(g, b, x)}; if (g.chance(1, 4)) { const Fmt &f = fmt_of(b); Num a = decode(b, x), y; if (a.fin()) { y.neg = g.below(2); y.c = digits_pattern(g, f.p); y.q = a.q + ndigu(a.c) - ndigu(y.c) + g.range(-4, 4); c.d[1] = clampq(b, y); } } if (g.chance(1, 2)) std::swap(c.d[0], c.d[1]); },
    [b](const Case &c, Out &o, int op, const Num &y, const Num &x) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]); Num r = decode(b, R.r[0]); F X(900), Y(900), Z(900); // 900 bits: pi minus something tiny
      set_any(X, x); set_any(Y, y); mpfr_atan2(&Z, &Y, &X, 0);
      Tol t{8}; if (c.rm) t.u = 27;
      return judge(o, b, c.rm, r, R.err, Z, x.nan() || y.nan(), x.inf() || y.inf(), y.zero() || x.inf(), t, false); });
}
static Sub pow_sub(int b) {
  const Fmt &fm = fmt_of(b);
  return f2("pow", b, [b, &fm](Rng &g, Case &c) {
      u128 xb, yb; Num x, y;
      switch (g.below(10)) {
        case 0: xb = gen_dec(g, b); yb = gen_rel(g, b, xb); break;
        case 1: xb = gen_dec(g, b); yb = gen_arg(g, b, K_GEN); break;
        case 2: { // integral exponents, exact powers
          x.c = 1 + g.below(g.chance(1, 2) ? 30 : 3000); x.q = g.range(-4, 4); x.neg = g.below(2); y.c = g.below(g.chance(1, 2) ? 12 : 200); y.neg = g.below(2); xb = clampq(b, x); yb = clampq(b, y); break; }
        case 3: { // powers of ten, with fractional and large exponents
          x.c = 1; x.q = g.range(-fm.p, fm.p); y.c = digits_pattern(g, g.range(1, fm.p)); y.neg = g.below(2); y.q = g.range(-1, 3) - ndigu(y.c); xb = clampq(b, x); yb = clampq(b, y); break; }
        case 4: { // near one, huge exponents
          int k = g.range(1, fm.p - 1); x.c = p10u(fm.p - 1); x.q = -(fm.p - 1); u128 d = 1 + g.belowu(p10u(k)); if (g.chance(1, 2)) x.c += d; else { x.c -= d / 10; } y.c = digits_pattern(g, g.range(1, fm.p)); y.neg = g.below(2); y.q = (fm.p - k) + g.range(-2, b == 32 ? 2 : b == 64 ? 3 : 4) - ndigu(y.c); x.neg = g.chance(1, 8); xb = clampq(b, x); yb = clampq(b, y); break; }
        case 5: { // specials
          static const char *const v[] = {"0", "-0", "1", "-1", "2", "-2", "3", "-3", ".5", "-.5", "i", "-i", "n"}; auto mkv = [&]() { const char *s = v[g.below(13)]; Num n; if (*s == '-') { n.neg = true; s++; } if (*s == 'i') n.k = INF; else if (*s == 'n') n.k = QNaN; else if (*s == '.') { n.c = 5; n.q = -1; } else n.c = *s - '0'; return encode(b, n); };
          xb = g.chance(1, 2) ? mkv() : gen_dec(g, b); yb = mkv(); break; }
        default: { // a result anywhere in the exponent range, or just outside
          xb = gen_arg(g, b, K_LOG); x = decode(b, xb); if (!x.fin() || !x.c || (x.c == 1 && x.q == 0)) { yb = gen_dec(g, b); break; }
          if (g.chance(7, 8)) x.neg = false; xb = encode(b, x); long double lx = logl((long double) x.c) / logl(10) + x.q; if (fabsl(lx) < 1e-12) { yb = gen_dec(g, b); break; }
          long double tgt; switch (g.below(6)) { case 0: tgt = fm.emax + 1 + g.range(-2, 2) / 2.0; break; case 1: tgt = fm.qmin + g.range(-3, fm.p + 3); break; case 2: tgt = g.range(-40, 40); break; default: tgt = g.range(fm.qmin, fm.emax); } long double yy = tgt / lx;
          y.neg = yy < 0; yy = fabsl(yy); int e = yy > 0 ? (int) floorl(log10l(yy)) : 0; int nd = std::min(fm.p, 18); y.c = (u128) (yy * powl(10, nd - 1 - e)); y.q = e - nd + 1; if (fm.p > 18 && g.chance(1, 2)) { y.c = y.c * p10u(fm.p - nd - 1) + g.belowu(p10u(fm.p - nd - 1)); y.q -= fm.p - nd - 1; } if (g.chance(1, 3) && y.q < 0) { int k = std::min(-y.q, 30); y.c /= p10u(std::min(k, 38)); y.q += k; } y.c %= p10u(fm.p); yb = clampq(b, y); }
      }
      c.d = {xb, yb}; },
    [b, &fm](const Case &c, Out &o, int op, const Num &x, const Num &y) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]); Num r = decode(b, R.r[0]);
      if (x.k == SNaN || y.k == SNaN) { o.label = "signalling nan"; return TRIVIAL; }
      F X(1000), Y(1000), Z(1000), L(1000); set_any(X, x); set_any(Y, y); mpfr_pow(&Z, &X, &Y, 0);
      if (x.fin() && y.fin() && x.neg && x.c && !is_int(y)) mpfr_set_nan(&Z);
      else if (x.fin() && y.fin() && x.neg && x.c && y.c && !Z.nan()) { bool odd = is_odd(y); mpfr_abs(&Z, &Z, 0); if (odd) mpfr_neg(&Z, &Z, 0); }
      // true result within rounding of one: mpfr's own rounding of Y is exact at 1000 bits unless |Y| has negative exponent
      bool nan = Z.nan() && (x.nan() || y.nan()); bool ez = x.zero() || x.inf() || y.inf();
      Tol t{b == 64 ? 30. : 1.}; if (c.rm) t.u = b == 64 ? 1e5 : 2 * t.u + 11;
      (void) fm;
      V v = judge(o, b, c.rm, r, R.err, Z, nan, x.inf() || y.inf(), ez, t, x.zero() && y.fin());
      return v; });
}
// ---- exact: fmod, remainder, modf, fma, sqrt
static BigInt big(u128 v) { BigInt r = (uint64_t) (v >> 64); r <<= 64; r += (uint64_t) v; return r; }
static Sub mod_sub(const char *n, int b, bool rem) {
  const Fmt &f = fmt_of(b);
  return f2(n, b, [b, &f](Rng &g, Case &c) { u128 x = gen_dec(g, b); c.d = {x, gen_rel(g, b, x)};
      if (g.chance(1, 3)) { // x near k*y, or a half of it
        Num y = decode(b, x); if (y.fin() && y.c) { int nd = ndigu(y.c), k = g.range(1, f.p); Num m; u128 kk = 1 + g.belowu(p10u(std::min(k, std::max(1, f.p - nd)))); if (nd + ndigu(kk) <= f.p) { m.c = y.c * kk; m.q = y.q; if (g.chance(1, 2) && m.c * 10 < p10u(f.p)) { m.c = m.c * 10 + y.c * 5; m.q--; } if (g.chance(1, 2)) m.c += g.below(3) - (m.c > 1 ? 1 : 0); m.neg = g.below(2); m.c %= p10u(f.p); c.d = {clampq(b, m), x}; return; } } }
      if (g.chance(1, 2)) std::swap(c.d[0], c.d[1]); },
    [b, rem, &f](const Case &c, Out &o, int op, const Num &x, const Num &y) {
      SRes R = call(op, c.rm, c.d[0], c.d[1]); Num r = decode(b, R.r[0]);
      if (x.nan() || y.nan()) { o.label = "nan operand"; if (!r.nan()) { o.msg = "result is " + str(r) + ", expected a NaN"; return FAIL; } if (R.err && x.nan() + y.nan()) { o.msg = "NaN operand: errno set to " + std::to_string(R.err); if (!rem) o.kf = "fmod-nan-edom"; return FAIL; } return TRIVIAL; }
      if (x.inf() || y.zero()) { o.label = "domain error"; if (!r.nan()) { o.msg = "result is " + str(r) + ", expected a NaN"; return FAIL; } if (R.err != EDOM) { o.msg = "errno is " + std::to_string(R.err) + ", expected EDOM"; return FAIL; } return OK; }
      Num e; e.neg = x.neg;
      if (y.inf() || !x.c) { e = x; o.label = y.inf() ? "infinite divisor" : "zero"; if (y.inf() && !rem) { if (!same_val(r, e)) { o.msg = "result is " + str(r) + ", expected " + str(e); o.kf = "fmod-infinite-divisor"; return FAIL; } return OK; } }
      else {
        BigInt X, Y = big(y.c); bool trivial = false; e.q = std::min(x.q, y.q);
        if (x.q >= y.q) { BigInt Y2 = Y * 2; X = big(x.c) * boost::multiprecision::powm(BigInt(10), x.q - y.q, Y2) % Y2; }
        else if (y.q - x.q > 2 * f.p + 5) { X = big(x.c); trivial = true; }
        else { Y *= bp10(y.q - x.q); X = big(x.c) % (2 * Y); }
        o.label = "exact";
        if (!trivial) { bool odd = X >= Y; if (odd) X -= Y; if (rem && (2 * X > Y || (2 * X == Y && odd))) { if (2 * X == Y) o.label = "tie"; X = Y - X; e.neg = !e.neg; } if (X == 0) e.neg = x.neg; }
        e.c = U(Int(X));
      }
      if (!same_val(r, e)) { o.msg = "result is " + str(r) + ", expected " + str(e); return FAIL; }
      if (R.err) { o.msg = "errno set to " + std::to_string(R.err); return FAIL; }
      return x.c && e.c ? OK : TRIVIAL; });
}
static Sub modf_sub(int b) {
  Sub s; s.name = nm("modf", b); s.dfmt = {b}; s.use_rm = true; int op = shim_find("modf", b);
  s.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; };
  s.check = [b, op](const Case &c, Out &o) -> V { Num x = decode(b, c.d[0]); SRes R = call(op, c.rm, c.d[0]); Num fr = decode(b, R.r[0]), ip = decode(b, R.r[1]); o.label = cls(x, b);
    if (x.nan()) { if (!fr.nan() || !ip.nan()) { o.msg = "parts are " + str(fr) + " and " + str(ip) + ", expected NaNs"; return FAIL; } return TRIVIAL; }
    Num ei, ef; if (x.inf()) { ei = x; ef = mk(x.neg, 0, 0); } else { bool inx; ei = round_int(x, RZ, &inx); ef = mk(x.neg, x.q >= 0 ? 0 : x.q <= -39 ? x.c : x.c % p10u(-x.q), x.q < 0 ? x.q : 0); }
    if (!ef.c) { ef.neg = fr.neg; } // the sign of a zero fraction is not pinned down here
    if (!same_val(ip, ei)) { o.msg = "integral part is " + str(ip) + ", expected " + str(ei); return FAIL; }
    if (!same_val(fr, ef)) { o.msg = "fraction is " + str(fr) + ", expected " + str(ef); return FAIL; }
    return x.fin() && ef.c && ei.c ? OK : TRIVIAL; };
  return s;
}
static Sub fma_sub(int b) {
  const Fmt &f = fmt_of(b); Sub s; s.name = nm("fma", b); s.dfmt = {b, b, b}; s.use_rm = true; int op = shim_find("fma", b);
  s.gen = [b, &f](Rng &g, Case &c) { u128 x = gen_dec(g, b), y = gen_rel(g, b, x), z;
    Num a = decode(b, x), m = decode(b, y);
    if (a.fin() && m.fin() && g.chance(3, 4)) { if (g.chance(1, 3)) { m.q = g.range(-f.p, f.p) - a.q / 2 * (int) g.below(3); y = clampq(b, m); m = decode(b, y); }
      Num t = ref::mul(f, a, m, 0); if (g.chance(1, 3)) t = ref::mul(f, a, m, 1 + (int) g.below(4));
      if (t.fin()) { t.neg = g.chance(3, 4) ? !t.neg : t.neg; switch (g.below(5)) { case 0: break; case 1: t.c += g.below(3); break; case 2: t.c = digits_pattern(g, f.p); t.q += g.range(-f.p, f.p); break; case 3: t.c = 5 * p10u(g.range(0, f.p - 1)); t.q += g.range(-f.p - 2, f.p + 2); break; case 4: t.c = digits_pattern(g, g.range(1, f.p)); t.q += g.range(-2 * f.p, 2 * f.p); } t.c %= p10u(f.p); z = clampq(b, t); } else z = gen_dec(g, b); }
    else z = g.chance(1, 2) ? gen_dec(g, b) : gen_rel(g, b, x);
    c.d = {x, y, z}; };
  s.check = [b, op, &f](const Case &c, Out &o) -> V { Num x = decode(b, c.d[0]), y = decode(b, c.d[1]), z = decode(b, c.d[2]); SRes R = call(op, c.rm, c.d[0], c.d[1], c.d[2]); int fl = 0; Num e = ref::fma(f, x, y, z, c.rm, &fl);
    o.label = e.nan() ? "nan" : e.inf() ? (fl & FL_OVF ? "overflow" : "inf") : fl & FL_UNF ? "underflow" : fl & FL_INX ? "rounded" : "exact";
    if (!want(o, b, R.r[0], e)) return FAIL;
    bool anynan = x.nan() || y.nan() || z.nan(), allfin = x.fin() && y.fin() && z.fin(); int we = anynan || (allfin && (fl & FL_UNF || (fl & FL_OVF && !e.inf()))) ? -1 : e.nan() ? EDOM : allfin && e.inf() ? ERANGE : 0;
    if (we >= 0 && R.err != we) { o.msg = "errno " + std::to_string(R.err) + ", expected " + std::to_string(we); return FAIL; }
    return e.fin() && x.c && y.c && z.c ? OK : TRIVIAL; };
  return s;
}
static Sub sqrt_sub(int b) {
  const Fmt &f = fmt_of(b); Sub s; s.name = nm("sqrt", b); s.dfmt = {b}; s.use_rm = true; int op = shim_find("sqrt", b);
  s.gen = [b, &f](Rng &g, Case &c) { if (g.chance(1, 3)) { // squares, and next to squares
      int h = f.p / 2 + 1; u128 r = digits_pattern(g, g.range(1, h)); u128 q = r * r; Num n; if (g.chance(1, 2)) q += g.below(3) - (q ? 1 : 0); while (ndigu(q) > f.p) q /= 10; n.c = q; n.q = gen_q(g, f, ndigu(q)); if (g.chance(3, 4)) n.q &= ~1; c.d = {clampq(b, n)}; }
    else if (g.chance(1, 3)) { // squares of midpoints, rounded
      u128 m = digits_pattern(g, f.p) ; Int q = (ref::I(m) * 10 + 5); q = q * q; int d = ndig(q) - f.p; Num n; Int t = d > 0 ? q / p10(d) : q; n.c = U(t) + g.below(2); n.c %= p10u(f.p); n.q = d + 2 * g.range(-f.p, f.p); c.d = {clampq(b, n)}; }
    else c.d = {gen_dec(g, b)}; if (g.chance(3, 4)) { Num x = decode(b, c.d[0]); if (x.fin()) { x.neg = false; c.d[0] = encode(b, x); } } };
  s.check = [b, op, &f](const Case &c, Out &o) -> V { Num x = decode(b, c.d[0]); SRes R = call(op, c.rm, c.d[0]); int fl = 0; Num e = ref::sqrt(f, x, c.rm, &fl);
    bool dom = x.neg && !x.nan() && (x.inf() || x.c); o.label = dom ? "domain error" : fl & FL_INX ? "rounded" : "exact";
    if (!want(o, b, R.r[0], e)) return FAIL;
    if (R.err != (dom ? EDOM : 0)) { o.msg = "errno is " + std::to_string(R.err) + (dom ? ", expected EDOM" : ", expected 0"); return FAIL; }
    return x.fin() && x.c ? OK : TRIVIAL; };
  return s;
}
// concentrate on special operands and on the edges of the domains
static u128 gen_special(Rng &g, int b, u128 dflt) {
  const Fmt &f = fmt_of(b); Num n;
  switch (g.below(9)) {
    case 0: n.k = INF; n.neg = g.below(2); return encode(b, n);
    case 1: n.k = QNaN; n.neg = g.below(2); return encode(b, n);
    case 2: n.neg = g.below(2); n.q = g.chance(1, 2) ? 0 : g.range(f.qmin, f.qmax); return clampq(b, n);
    case 3: { n.c = 1 + g.below(3); n.neg = g.below(2); int z = g.range(0, f.p - 1); n.c *= p10u(z); n.q = -z; if (g.chance(1, 2)) n.c += g.chance(1, 2) ? 1 : -1; n.c %= p10u(f.p); return clampq(b, n); }
    case 4: n.c = g.below(200); n.neg = g.below(2); n.q = g.chance(2, 3) ? 0 : -1; return clampq(b, n);
    case 5: n.c = g.chance(1, 2) ? p10u(f.p) - 1 - g.below(3) : 1 + g.below(30); n.neg = g.below(2); n.q = g.chance(1, 2) ? f.qmax : f.qmin + (int) g.below(3); return clampq(b, n);
    default: return dflt;
  }
}
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : "exp"; std::string G = P.id;
  static const std::map<std::string, std::vector<std::string>> grp = {{"explog", {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p"}}, {"trig", {"sin", "cos", "tan", "asin", "acos", "atan"}}, {"hyp", {"sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}}, {"gamma", {"erf", "erfc", "tgamma", "lgamma"}}, {"root", {"cbrt"}}};
  if (grp.count(G)) for (auto &n : grp.at(G)) for (auto &d : fns) if (n == d.n) for (int b : {32, 64, 128}) P.subs.push_back(fsub(d, b));
  if (G == "special" || G == "flags") {
    for (auto &d : fns) for (int b : {32, 64, 128}) P.subs.push_back(fsub(d, b));
    for (int b : {32, 64, 128}) { P.subs.push_back(pow_sub(b)); P.subs.push_back(atan2_sub(b)); P.subs.push_back(hypot_sub(b)); P.subs.push_back(mod_sub("remainder", b, true)); P.subs.push_back(sqrt_sub(b)); }
    for (auto &s : P.subs) { auto g0 = s.gen; auto df = s.dfmt; s.gen = [g0, df](Rng &g, Case &c) { g0(g, c); for (size_t i = 0; i < df.size(); i++) c.d[i] = gen_special(g, df[i], c.d[i]); }; s.name += ":special"; }
  }
  if (G == "flags") for (int b : {32, 64, 128}) { P.subs.push_back(fma_sub(b)); P.subs.push_back(modf_sub(b)); P.subs.push_back(mod_sub("fmod", b, false)); }
  for (int b : {32, 64, 128}) {
    if (G == "mod") { P.subs.push_back(mod_sub("fmod", b, false)); P.subs.push_back(mod_sub("remainder", b, true)); P.subs.push_back(modf_sub(b)); }
    if (G == "root") { P.subs.push_back(sqrt_sub(b)); P.subs.push_back(fma_sub(b)); P.subs.push_back(hypot_sub(b)); }
    if (G == "pow") P.subs.push_back(pow_sub(b));
    if (G == "trig") P.subs.push_back(atan2_sub(b));
  }
  if (G == "flags") flag_mode(P);
  return run_main(P, argc - 1, argv + 1);
}
