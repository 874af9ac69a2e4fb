#define FW_MAIN
// The quantum exponent of results other than + - * /: what IEEE 754-2008
// and TS 18661-2 call the preferred exponent.
#include "../h/util.hpp"
using namespace fw;
typedef ref::Int Int;
static bool q_is(Out &o, const Num &r, int pref, const char *what) {
  if (r.q == pref) return true;
  o.msg = std::string(what) + " is " + str(r) + " with exponent " + std::to_string(r.q) + ", expected exponent " + std::to_string(pref);
  return false;
}
// exponent nearest to pref that a value of this format can have (the value being exact)
static int nearest(const Fmt &f, const Num &v, int pref) {
  pref = std::min(std::max(pref, f.qmin), f.qmax);
  if (!v.c) return pref;
  u128 c = v.c; int q = v.q;
  while (q < pref && c % 10 == 0) { c /= 10; q++; }
  while (q > pref && ndigu(c) < f.p) { c *= 10; q--; }
  return q;
}
int main(int argc, char **argv) {
  Prop P; P.id = "quant";
  for (int b : {32, 64, 128}) {
    const Fmt &f = fmt_of(b);
    // correctly rounded operations: the reference gives value and exponent
    { Sub s; s.name = nm("sqrt", b); s.dfmt = {b}; s.use_rm = true; int op = shim_find("sqrt", b);
      s.gen = [b, &f](Rng &g, Case &c) {
        Num n; switch (g.below(4)) {
          case 0: { u128 r = digits_pattern(g, g.range(1, f.p / 2)); n.c = r * r; n.q = gen_q(g, f, ndigu(n.c)); if (g.chance(3, 4)) n.q &= ~1; int z = g.range(0, f.p); while (z-- && ndigu(n.c) < f.p) { n.c *= 10; n.q--; } break; }
          case 1: n.c = p10u(g.range(1, f.p)) - 1 - g.below(3); n.c *= 1; n.q = g.range(-f.p, f.p); { int z = g.range(0, f.p); while (z-- && ndigu(n.c) < f.p) { n.c *= 10; n.q--; } } break; // next below a power of ten
          default: n = decode(b, gen_dec(g, b)); }
        n.neg = false; c.d = {n.fin() ? clampq(b, n) : encode(b, n)}; };
      s.check = [b, op, &f](const Case &c, Out &o) -> V { Num x = decode(b, c.d[0]); if (!x.fin() || !x.c || x.neg) return SKIP; int fl = 0; Num e = ref::sqrt(f, x, c.rm, &fl), r = decode(b, call(op, c.rm, c.d[0]).r[0]);
        if (!same_val(e, r)) return SKIP; o.label = fl & FL_INX ? "inexact" : "exact"; return q_is(o, r, e.q, "square root") ? (x.c ? OK : TRIVIAL) : FAIL; };
      P.subs.push_back(s); }
    { Sub s; s.name = nm("fma", b); s.dfmt = {b, b, b}; s.use_rm = true; int op = shim_find("fma", b);
      s.gen = [b, &f](Rng &g, Case &c) { u128 x = gen_dec(g, b), y = gen_dec(g, b), z = gen_dec(g, b);
        if (g.chance(2, 3)) { Num n; n.c = digits_pattern(g, g.range(1, f.p / 2)); n.q = g.range(-f.p, f.p); x = clampq(b, n); Num m; m.c = digits_pattern(g, g.range(1, f.p / 2)); m.q = g.range(-f.p, f.p); y = clampq(b, m); Num k; k.neg = g.below(2); k.c = g.chance(1, 4) ? 0 : g.chance(1, 4) ? n.c * m.c : digits_pattern(g, g.range(1, f.p)); k.q = n.q + m.q + (g.chance(1, 3) ? 0 : g.range(-f.p, f.p)); z = clampq(b, k); }
        c.d = {x, y, z}; };
      s.check = [b, op, &f](const Case &c, Out &o) -> V { Num x = decode(b, c.d[0]), y = decode(b, c.d[1]), z = decode(b, c.d[2]); if (!x.fin() || !y.fin() || !z.fin()) return SKIP; int fl = 0; Num e = ref::fma(f, x, y, z, c.rm, &fl), r = decode(b, call(op, c.rm, c.d[0], c.d[1], c.d[2]).r[0]);
        if (!e.fin() || !same_val(e, r)) return SKIP; o.label = !e.c ? "zero" : fl & FL_INX ? "inexact" : "exact"; return q_is(o, r, e.q, "fma") ? OK : FAIL; };
      P.subs.push_back(s); }
    // remainder, fdim: min(Q(x), Q(y))
    for (const char *n : {"remainder", "fdim"}) {
      bool dim = n[1] == 'd';
      P.subs.push_back(binary(n, b, [b, dim, &f](const Case &c, Out &o, int op, const Num &x, const Num &y) -> V {
        if (!x.fin() || !y.fin() || (!dim && !y.c)) return SKIP; Num r = decode(b, call(op, c.rm, c.d[0], c.d[1]).r[0]); if (!r.fin()) return SKIP;
        if (dim) { int fl = 0; Num yy = y; yy.neg = !yy.neg; Num e = ref::add(f, x, yy, c.rm, &fl); if (!e.c || e.neg) { o.label = "x<=y"; return q_is(o, r, 0, "positive difference") ? TRIVIAL : FAIL; } if (!e.fin() || !same_val(e, r)) return SKIP; o.label = fl & FL_INX ? "inexact" : "exact"; return q_is(o, r, e.q, "positive difference") ? OK : FAIL; }
        o.label = r.c ? "nonzero" : "zero"; return q_is(o, r, nearest(f, r, std::min(x.q, y.q)), "remainder") ? OK : FAIL; })); }
    { Sub s = unary("modf", b, [b, &f](const Case &c, Out &o, int op, const Num &x) -> V {
        if (!x.fin()) return SKIP; SRes R = call(op, c.rm, c.d[0]); Num fr = decode(b, R.r[0]), ip = decode(b, R.r[1]); o.label = cls(x, b);
        return q_is(o, ip, nearest(f, ip, std::max(x.q, 0)), "integral part of modf") && q_is(o, fr, nearest(f, fr, x.q), "fraction of modf") ? OK : FAIL; });
      P.subs.push_back(s); }
    for (const char *n : {"fmax", "fmin", "fmaxmag", "fminmag"})
      P.subs.push_back(binary(n, b, [b](const Case &c, Out &o, int op, const Num &x, const Num &y) -> V {
        if (!x.fin() || !y.fin()) return SKIP; u128 r = call(op, c.rm, c.d[0], c.d[1]).r[0]; Num v = decode(b, r); bool eq = same_val(x, y); o.label = eq ? "equal" : "different";
        if ((v.neg == x.neg && v.c == x.c && v.q == x.q) || (v.neg == y.neg && v.c == y.c && v.q == y.q)) return x.q != y.q ? OK : TRIVIAL;
        o.msg = "result " + str(v) + " has the exponent of neither operand"; return FAIL; }));
    for (const char *n : {"nextup", "nextdown"})
      P.subs.push_back(unary(n, b, [b, &f](const Case &c, Out &o, int op, const Num &x) -> V {
        if (!x.fin()) return SKIP; Num r = decode(b, call(op, c.rm, c.d[0]).r[0]); if (!r.fin() || !r.c) return SKIP; o.label = cls(x, b);
        return q_is(o, r, nearest(f, r, f.qmin), "adjacent value") ? OK : FAIL; }));
    for (const char *n : {"frexp", "logb", "ldexp", "scalbn", "scalbln", "fabs", "copysign"}) if (shim_find(n, b) >= 0) {
      std::string N = n; bool sc = N == "ldexp" || N == "scalbn" || N == "scalbln"; Sub s; s.name = nm(n, b); bool two = N == "copysign"; s.dfmt = {b}; if (two) s.dfmt = {b, b}; s.use_rm = true; int op = shim_find(n, b);
      s.gen = [b, two, sc, &f](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; if (two) c.d.push_back(gen_rel(g, b, c.d[0])); if (sc) c.n = {(i128) g.range(-20, 20)}; if (sc && g.chance(1, 3)) c.n = {(i128) g.range(-2 * f.emax, 2 * f.emax)}; };
      s.check = [b, op, sc, N, &f](const Case &c, Out &o) -> V { Num x = decode(b, c.d[0]); if (!x.fin()) return SKIP; SRes R = call(op, c.rm, c.d[0], c.d.size() > 1 ? c.d[1] : 0, 0, sc ? c.n[0] : 0); Num r = decode(b, R.r[0]); if (!r.fin()) return SKIP; o.label = cls(x, b);
        if (sc) { int n = (int) c.n[0]; Num e = ref::round_to(f, x.neg, Int(0) + ref::I(x.c), x.q + n, false, c.rm, x.q + n, nullptr); if (!e.fin() || !x.c || !same_val(e, r)) return SKIP; return q_is(o, r, e.q, N.c_str()) ? OK : FAIL; }
        if (N == "frexp") return q_is(o, r, x.c ? -ndigu(x.c) : x.q, "fraction") ? OK : FAIL;
        if (N == "logb") return q_is(o, r, 0, "logb") ? OK : FAIL;
        if (N == "fabs" || N == "copysign") return q_is(o, r, x.q, N.c_str()) ? OK : FAIL;
        return SKIP; };
      P.subs.push_back(s); }
  }
  return run_main(P, argc - 1, argv + 1);
}
