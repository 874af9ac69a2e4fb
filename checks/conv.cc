#define FW_MAIN
#include "../h/util.hpp"
#include <cmath>
#include <cfenv>
using namespace fw;

// ------------------------------------------------------------ integers
static void int_prop(Prop &P) {
  for (int b : {32, 64, 128}) { const Fmt &f = fmt_of(b);
    auto T = [&](const char *n, int bits, bool sgn) {
      Sub s = unary(n, b, [b, bits, sgn](const Case &c, Out &o, int op, const Num &x) {
        SRes R = call(op, c.rm, c.d[0]);
        if (!x.fin()) { o.label = "not finite"; return TRIVIAL; }
        bool inx; Num t = round_int(x, RZ, &inx); bool inr = true; Int v = 0;
        if (t.c) { if (t.q + ndigu(t.c) > 40) inr = false; else { v = I(t.c) * p10(t.q); Int lim = sgn ? (t.neg ? Int(1) << (bits - 1) : (Int(1) << (bits - 1)) - 1) : t.neg ? Int(0) : (Int(1) << bits) - 1; if (v > lim) inr = false; } }
        if (!inr) { o.label = "out of range"; return TRIVIAL; }
        o.label = inx ? "inexact" : "exact";
        u128 u = U(v); i128 e = t.neg ? (i128) -u : (i128) u; i128 g = R.n;
        if (g != e) { o.msg = "returned " + (sgn ? i2s(g) : u2s((u128) g)) + ", expected " + (sgn ? i2s(e) : u2s((u128) e)); return FAIL; }
        return v != 0 ? OK : TRIVIAL; });
      s.gen = [b, bits, sgn, &f](Rng &g, Case &c) {
        c.d = {gen_dec(g, b)};
        if (g.chance(1, 8)) return;
        Num x; x.neg = sgn ? g.below(2) : g.chance(1, 40);
        u128 v; switch (g.below(4)) {
          case 0: v = ((u128) 1 << (g.chance(1, 2) ? bits - 1 : g.range(0, bits - 1))) + g.below(7) - 3; break;
          case 1: if (!sgn) { v = bits == 128 ? ~(u128) 0 - g.below(4) : ((u128) 1 << bits) - 1 - g.below(4); break; } // fallthrough
          case 2: v = g.u() >> (128 - g.range(1, bits)); break;
          default: v = digits_pattern(g, std::min(38, g.range(1, bits * 30103 / 100000 + 1))); }
        int nd = ndigu(v);
        if (nd > f.p) { v /= p10u(nd - f.p); if (g.chance(1, 2) && v) v -= g.below(2); x.c = v; x.q = nd - f.p; }
        else { int fr = std::min(f.p - nd, g.chance(1, 2) ? g.range(0, 4) : g.range(0, f.p - nd)); u128 m = p10u(fr); x.c = v * m + (g.chance(1, 3) ? 0 : g.chance(1, 3) ? m - 1 : g.chance(1, 2) ? m / 2 : g.belowu(m)); x.q = -fr;
          while (x.c && x.c % 10 == 0 && g.chance(1, 2)) { x.c /= 10; x.q++; } }
        x.c %= p10u(f.p); c.d[0] = clampq(b, x); };
      P.subs.push_back(s); };
    T("to_si", 32, true); T("to_usi", 32, false); T("to_di", 64, true); T("to_udi", 64, false); T("to_ti", 128, true); T("to_uti", 128, false);
    auto F = [&](const char *n, int bits, bool sgn) {
      Sub s; s.name = nm(n, b); s.use_rm = true; int op = shim_find(n, b);
      auto norm = [bits, sgn](i128 v) -> i128 { if (bits == 32) return sgn ? (i128)(int32_t) v : (i128)(uint32_t) v; if (bits == 64) return sgn ? (i128)(int64_t) v : (i128)(uint64_t) v; return v; };
      s.gen = [bits, norm, &f](Rng &g, Case &c) { i128 v = gen_int(g, bits);
        if (g.chance(1, 3)) { // near a rounding boundary of the format
          int z = g.range(1, 20); u128 w = digits_pattern(g, f.p) % p10u(std::min(f.p, 38 - z)); u128 h = p10u(z) / 2; v = (i128)(w * p10u(z) + h + g.below(3) - 1); if (g.chance(1, 2)) v = -v; }
        c.n = {norm(v)}; };
      s.show = [n, b, sgn, norm](const Case &c) { i128 v = norm(c.n[0]); return nm(n, b) + "(" + (sgn ? i2s(v) : u2s((u128) v)) + ") in FE_DEC_" + rm_name[c.rm]; };
      s.check = [b, op, norm, sgn, &f](const Case &c, Out &o) { i128 v = norm(c.n[0]); SRes R = call(op, c.rm, 0, 0, 0, v);
        bool neg = sgn && v < 0; u128 m = neg ? -(u128) v : (u128) v; int fl = 0;
        Num e = round_to(f, neg, ref::I(m), 0, false, c.rm, 0, &fl); o.label = fl & FL_INX ? "rounded" : "exact";
        if (!want(o, b, R.r[0], e)) return FAIL;
        Num g = decode(b, R.r[0]); if (!(fl & FL_INX) && g.q != e.q) { o.msg = "quantum of " + str(g) + " differs from " + str(e); return FAIL; }
        return m ? OK : TRIVIAL; };
      P.subs.push_back(s); };
    F("from_si", 32, true); F("from_usi", 32, false); F("from_di", 64, true); F("from_udi", 64, false); F("from_ti", 128, true); F("from_uti", 128, false);
  }
}
// ------------------------------------------------------------ decimal formats
static void fmt_prop(Prop &P) {
  for (int b : {32, 64, 128}) for (int t : {32, 64, 128}) { if (t == b) continue;
    std::string n = "to" + std::to_string(t); const Fmt &ft = fmt_of(t);
    Sub s = unary(n.c_str(), b, [t, &ft](const Case &c, Out &o, int op, const Num &x) {
      SRes R = call(op, c.rm, c.d[0]);
      if (x.nan()) { o.label = "nan"; return want_nan(o, t, R.r[0]) ? TRIVIAL : FAIL; }
      int fl = 0; Num e = convert(ft, x, c.rm, &fl); o.label = x.inf() ? "inf" : fl & FL_OVF ? "overflow" : fl & FL_UNF ? "underflow" : fl & FL_INX ? "rounded" : "exact";
      if (!want(o, t, R.r[0], e, true)) return FAIL;
      return x.fin() && x.c ? OK : TRIVIAL; });
    if (t < b) { auto g0 = s.gen; s.gen = [b, t, g0](Rng &g, Case &c) { g0(g, c); if (g.chance(1, 4)) return;
        // digits of the narrow format, a rounding tail, exponents across the narrow range
        const Fmt &f = fmt_of(b), &ft = fmt_of(t); Num x; x.neg = g.below(2); int nd = g.chance(1, 4) ? g.range(1, f.p) : g.range(ft.p, f.p);
        x.c = digits_pattern(g, nd); if (g.chance(1, 2) && nd > ft.p) { int z = nd - ft.p; u128 m = p10u(z); x.c = x.c / m * m + m / 2 + g.below(3) - 1; }
        switch (g.below(4)) { case 0: x.q = ft.qmin - ft.p + (int) g.below(3 * ft.p); break; case 1: x.q = ft.qmax - (int) g.below(2 * f.p) + f.p / 2; break; case 2: x.q = g.range(ft.qmin, ft.qmax); break; default: x.q = ft.qmin - (int) g.below(f.p + 3); }
        c.d = {clampq(b, x)}; }; }
    P.subs.push_back(s);
    if (t > b) { // round trip through the wider format
      Sub r; r.name = "trip" + std::to_string(b) + "_" + std::to_string(t); r.dfmt = {b}; r.use_rm = true; int op1 = shim_find(n.c_str(), b), op2 = shim_find(("to" + std::to_string(b)).c_str(), t);
      r.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; };
      r.check = [b, op1, op2](const Case &c, Out &o) { Num x = decode(b, c.d[0]); u128 m = call(op1, c.rm, c.d[0]).r[0]; u128 v = call(op2, c.rm, m).r[0]; o.label = cls(x, b); if (x.nan()) return want_nan(o, b, v) ? TRIVIAL : FAIL; return want(o, b, v, x, true) ? (x.fin() && x.c ? OK : TRIVIAL) : FAIL; };
      P.subs.push_back(r);
    } }
}
// ------------------------------------------------------------ binary floating point
struct BF { const char *n; int mant, emin, emax; }; // value = m * 2^e, m < 2^mant
static const BF BFT[] = {{"f", 24, -149, 127}, {"d", 53, -1074, 1023}, {"ld", 64, -16445, 16383}, {"f128", 113, -16494, 16383}};
// decompose
static bool bdec(int k, const Case &c, bool *neg, u128 *m, int *e, int *cls) { // cls 0 finite 1 inf 2 nan
  const BF &B = BFT[k]; u128 v = c.d[0]; int wb = k == 0 ? 8 : k == 1 ? 11 : 15; int mb = k == 2 ? 63 : B.mant - 1;
  if (k == 2) { uint64_t mm = (uint64_t) v; int se = (int)(v >> 64) & 0xffff; *neg = se >> 15; int ee = se & 0x7fff; if (ee == 0x7fff) { *cls = (mm << 1) ? 2 : 1; return true; } *cls = 0; if (ee && !(mm >> 63)) return false; *m = mm; *e = (ee ? ee : 1) - 16383 - 63; return true; }
  *neg = (v >> (wb + mb)) & 1; int ee = (int)((v >> mb) & ((1 << wb) - 1)); u128 fr = v & (((u128) 1 << mb) - 1);
  if (ee == (1 << wb) - 1) { *cls = fr ? 2 : 1; return true; }
  *cls = 0; *m = fr | (ee ? (u128) 1 << mb : 0); *e = (ee ? ee : 1) - ((1 << (wb - 1)) - 1) - mb; return true;
}
static u128 bits_of(int k, const SRes &R) { u128 v = 0; if (k == 0) { float f = (float) R.ld; memcpy(&v, &f, 4); } else if (k == 1) { double f = (double) R.ld; memcpy(&v, &f, 8); } else if (k == 2) memcpy(&v, &R.ld, 10); else v = R.r[0]; return v; }
static void set_arg(int k, u128 v, SArgs &A) { if (k == 0) { float f; memcpy(&f, &v, 4); A.ld = f; } else if (k == 1) { double f; memcpy(&f, &v, 8); A.ld = f; } else if (k == 2) { memcpy(&A.ld, &v, 10); } else A.a[0] = v; }
// nearest binary value(s) of c*10^q: returns m,e with sticky handling (round half even)
static void to_bin(const BF &B, u128 c, int q, u128 *m, int *e, bool *ovf) {
  *ovf = false; *m = 0; *e = 0; if (!c) return;
  int mag = ndigu(c) + q; if (mag > 5000) { *ovf = true; return; } if (mag < -5000) return;
  BigInt n = (uint64_t)(c >> 64); n <<= 64; n += (uint64_t) c; BigInt d = 1;
  if (q >= 0) n *= bp10(q); else d = bp10(-q);
  int sh = (int) msb(n) - (int) msb(d); // n/d in [2^(sh-1), 2^(sh+1))
  int ex = sh - B.mant; if (ex < B.emin) ex = B.emin; // quotient has up to mant+1 bits
  for (;;) { BigInt a = n, b = d; if (ex >= 0) b <<= ex; else a <<= -ex; BigInt qv = a / b, r = a - qv * b;
    if (qv > 0 && (int) msb(qv) >= B.mant) { ex++; continue; }
    BigInt t = r * 2; if (t > b || (t == b && (qv & 1))) qv += 1;
    if (qv > 0 && (int) msb(qv) >= B.mant) { qv >>= 1; ex++; }
    if (qv > 0 && ex + (int) msb(qv) > B.emax) { *ovf = true; return; }
    *m = ((u128)(uint64_t)(qv >> 64) << 64) | (uint64_t)(qv & BigInt(0xffffffffffffffffULL)); *e = ex; return; }
}
// neighbour of a finite positive or negative value in magnitude
static Num step(const Fmt &f, Num w, int d) {
  if (w.inf()) { if (d < 0) return mk(w.neg, p10u(f.p) - 1, f.qmax); return w; }
  if (!w.c) return d > 0 ? mk(w.neg, 1, f.qmin) : w;
  while (w.c < p10u(f.p - 1) && w.q > f.qmin) { w.c *= 10; w.q--; }
  if (d > 0) { w.c++; if (w.c == p10u(f.p)) { if (w.q == f.qmax) return mkinf(w.neg); w.c /= 10; w.q++; } return w; }
  if (w.c == p10u(f.p - 1) && w.q > f.qmin) { w.c = p10u(f.p) - 1; w.q--; return w; }
  w.c--; return w;
}
static bool exact_bin(const BF &B, u128 c, int q, u128 m, int e) { // c*10^q == m*2^e ?
  (void) B; int mag = ndigu(c) + q; if (mag > 5000 || mag < -5000) return false;
  auto big = [](u128 v) { BigInt r = (uint64_t)(v >> 64); r <<= 64; r += (uint64_t) v; return r; };
  BigInt a = big(c), d = big(m); if (q >= 0) a *= bp10(q); else d *= bp10(-q); if (e >= 0) d <<= e; else a <<= -e; return a == d;
}
static void bin_prop(Prop &P) {
  for (int b : {32, 64, 128}) { const Fmt &f = fmt_of(b);
    for (int k = 0; k < 4; k++) { const BF &B = BFT[k];
      Sub s; s.name = nm((std::string("from_") + B.n).c_str(), b); s.dfmt = {128}; s.use_rm = true; int op = shim_find((std::string("from_") + B.n).c_str(), b);
      s.gen = [k, &B, &f](Rng &g, Case &c) { u128 v; int wb = k == 0 ? 8 : k == 1 ? 11 : 15, mb = k == 2 ? 64 : B.mant - 1; int bias = (1 << (wb - 1)) - 1;
        u128 fr = g.u() & (((u128) 1 << mb) - 1); if (g.chance(1, 3)) fr = fr >> g.range(0, mb) << g.range(0, mb); if (g.chance(1, 6)) fr = ((u128) 1 << g.range(0, mb)) - 1; fr &= ((u128) 1 << mb) - 1; int ee;
        switch (g.below(6)) { case 0: ee = (int) g.below(1 << wb); break; case 1: ee = bias + g.range(-130, 130); break; case 2: ee = bias + g.range(-20, 60); break; case 3: ee = bias + (int) lround((f.qmax + f.p) * 3.3219) + g.range(-4, 4); break; case 4: ee = bias + (int) lround(f.qmin * 3.3219) + g.range(-4, 30); break; default: ee = g.chance(1, 2) ? g.range(0, 2) : (1 << wb) - 1 - g.range(0, 2); }
        if (ee < 0) ee = 0; if (ee > (1 << wb) - 1) ee = (1 << wb) - 1;
        if (g.chance(1, 3) && k != 2) { // a decimal fraction or integer as the binary format would hold it
          double dv = (double)(int64_t) digits_pattern(g, g.range(1, 15)) / pow(10, g.range(0, 12)); if (k == 0) { float x = (float) dv; v = 0; memcpy(&v, &x, 4); c.d = {v}; return; } if (k == 1) { v = 0; memcpy(&v, &dv, 8); c.d = {v}; return; } }
        if (k == 2) { if (ee) fr |= (u128) 1 << 63; else fr &= ~((u128) 1 << 63); v = fr | ((u128)(ee | (g.below(2) << 15)) << 64); } else v = fr | ((u128) ee << mb) | ((u128) g.below(2) << (wb + mb));
        c.d = {v}; };
      s.show = [s, b, k](const Case &c) { char t[64]; SArgs A = {}; set_arg(k, c.d[0], A); if (k == 3) snprintf(t, 64, "%016llx%016llx", (unsigned long long)(c.d[0] >> 64), (unsigned long long) c.d[0]); else snprintf(t, 64, "%La", A.ld); return s.name + "(" + t + ") in FE_DEC_" + rm_name[c.rm]; };
      s.check = [k, b, op, &f](const Case &c, Out &o) { bool neg; u128 m = 0; int e = 0, cl; if (!bdec(k, c, &neg, &m, &e, &cl)) return SKIP;
        SArgs A = {}; SRes R; set_arg(k, c.d[0], A); shim_call(op, c.rm, &A, &R);
        if (cl == 2) { o.label = "nan"; return want_nan(o, b, R.r[0]) ? TRIVIAL : FAIL; }
        if (cl == 1) { o.label = "inf"; return want(o, b, R.r[0], mkinf(neg)) ? TRIVIAL : FAIL; }
        // exact decimal expansion of m*2^e, cut to 60 digits with a sticky bit
        BigInt n = (uint64_t)(m >> 64); n <<= 64; n += (uint64_t) m; int q = 0; bool st = false;
        if (m) { while (!(n & 1) && e < 0) { n >>= 1; e++; } if (e >= 0) n <<= e; else { n *= boost::multiprecision::pow(BigInt(5), (unsigned) -e); q = e; }
          int nd = (int)(msb(n) * 0.30103) + 1; if (nd > 60) { int z = nd - 60; BigInt pw = bp10(z), qu = n / pw; st = qu * pw != n; n = qu; q += z; } }
        int fl = 0; Int N = static_cast<Int>(n); Num w = round_to(f, neg, N, q, st, c.rm, 0, &fl);
        o.label = fl & FL_OVF ? "overflow" : fl & FL_UNF ? "underflow" : fl & FL_INX ? "rounded" : "exact";
        // exact values exactly; others within one ulp of the correctly rounded one
        Num gt = decode(b, R.r[0]);
        if (((fl & FL_INX) || c.rm != RNE) && gt.k != QNaN && gt.k != SNaN && gt.neg == w.neg && (same_val(gt, step(f, w, 1)) || same_val(gt, step(f, w, -1)))) { o.label += ", one ulp off"; return OK; }
        return want(o, b, R.r[0], w) ? (m ? OK : TRIVIAL) : FAIL; };
      P.subs.push_back(s);
      Sub t; t.name = nm((std::string("to_") + B.n).c_str(), b); t.dfmt = {b}; t.use_rm = false; int op2 = shim_find((std::string("to_") + B.n).c_str(), b);
      t.gen = [b, k, &B, &f](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; if (g.chance(1, 3)) return; Num x; x.neg = g.below(2); x.c = digits_pattern(g, g.range(1, f.p)); 
        switch (g.below(4)) { case 0: x.q = g.range(-f.p, f.p); break; case 1: x.q = (int) lround(B.emax * 0.30103) - ndigu(x.c) + g.range(-2, 2); break; case 2: x.q = (int) lround(B.emin * 0.30103) - ndigu(x.c) + g.range(-3, 20); break;
          default: { // next to a midpoint of the binary format (small exponents: exactly representable)
            int z = g.range(0, 20); u128 w = ((g.u() >> (128 - B.mant)) | 1) * 2 + 1; if (k > 1 || ndigu(w) > f.p) { x.q = g.range(-30, 30); } else { x.c = w + g.below(3) - 1; x.q = 0; (void) z; } } }
        x.c %= p10u(f.p); c.d = {clampq(b, x)}; };
      t.check = [k, b, op2, &B](const Case &c, Out &o) { Num x = decode(b, c.d[0]); SRes R = call(op2, c.rm, c.d[0]); Case q; q.d = {bits_of(k, R)}; bool neg; u128 m = 0; int e = 0, cl;
        if (!bdec(k, q, &neg, &m, &e, &cl)) { o.msg = "malformed binary value"; return FAIL; }
        if (x.nan()) { o.label = "nan"; if (cl != 2) { o.msg = "not a NaN"; return FAIL; } return TRIVIAL; }
        if (neg != x.neg) { o.msg = "wrong sign"; return FAIL; }
        if (x.inf()) { o.label = "inf"; if (cl != 1) { o.msg = "not an infinity"; return FAIL; } return TRIVIAL; }
        if (!x.canon) { o.label = "non-canonical"; return TRIVIAL; }   // libgcc's code, see DESIGN.md
        u128 wm; int we; bool ov; to_bin(B, x.c, x.q, &wm, &we, &ov); o.label = ov ? "overflow" : !wm ? "zero" : "finite";
        if (ov) { if (cl != 1) { o.msg = "expected an infinity"; return FAIL; } return OK; }
        if (cl) { o.msg = "result is not finite"; return FAIL; }
        if (cl == 0 && ov) { }
        if (m && wm) { // one ulp of slack on inexact results
          u128 gm = m, wm2 = wm; int ge = e, we2 = we; while (gm < ((u128) 1 << (B.mant - 1)) && ge > B.emin) { gm <<= 1; ge--; } while (wm2 < ((u128) 1 << (B.mant - 1)) && we2 > B.emin) { wm2 <<= 1; we2--; }
          bool ex = exact_bin(B, x.c, x.q, wm, we);
          if (!ex && ge == we2 && (gm == wm2 + 1 || gm + 1 == wm2)) { o.label = "finite, one ulp off"; return OK; } }
        if (m && wm) { while (!(m & 1)) { m >>= 1; e++; } while (!(wm & 1)) { wm >>= 1; we++; } }
        if (m != wm || (m && e != we)) { char t[200]; snprintf(t, 200, "got %s*2^%d, correctly rounded is %s*2^%d", u2s(m).c_str(), e, u2s(wm).c_str(), we); o.msg = t; return FAIL; }
        return x.c ? OK : TRIVIAL; };
      P.subs.push_back(t);
    } }
}
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : ""; std::string k = P.id;
  if (k == "int") int_prop(P); else if (k == "fmt") fmt_prop(P); else if (k == "bin") bin_prop(P);
  return run_main(P, argc - 1, argv + 1);
}
