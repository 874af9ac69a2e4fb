#define FW_MAIN
#include "../h/fw.hpp"
using namespace fw;
static bool quantum_mode;

// ---- hard cases
static Int modinv(Int a, Int m) { Int r0 = m, r1 = a % m, t0 = 0, t1 = 1; while (r1 != 0) { Int q = r0 / r1, x = r0 - q * r1; r0 = r1; r1 = x; x = t0 - q * t1; t0 = t1; t1 = x; } return t0 < 0 ? t0 + m : t0; }
// a value at or next to a power of ten, a carry between machine words, or anything
static u128 edge_coef(Rng &g, const Fmt &f) {
  u128 c; int k = g.range(0, f.p - 1);
  switch (g.below(7)) {
    case 6: { c = p10u(g.chance(2, 3) ? f.p : g.range(1, f.p)); int w = g.chance(1, 4) ? 32 : 64; u128 m = ((u128) 1 << w) - 1; c = (c & ~m) + g.below(5) - 2 - (g.chance(1, 3) ? m + 1 : 0); break; } // the carries next to a decade
    case 0: c = p10u(k); break;
    case 1: c = p10u(k) + g.below(4); c -= std::min<u128>(c - 1, g.below(4)); break;
    case 2: c = p10u(f.p) - 1 - g.below(4); break;
    case 3: c = (p10u(k + 1) - 1) * (g.chance(1, 2) ? 1 : p10u(f.p - 1 - k)); break;
    case 4: c = (((u128) g.belowu(p10u(f.p) >> 32 >> 32 ? p10u(f.p) >> 32 >> 32 : 1) << 64) | (g.chance(1, 2) ? ~(uint64_t) 0 : 0)) + g.below(5) - 2; break;
    default: c = digits_pattern(g, g.range(1, f.p));
  }
  c %= p10u(f.p); return c ? c : 1;
}
// the smaller operand lies at a boundary of the rounding of the larger
static void edge_add(Rng &g, int bits, u128 &xo, u128 &yo) {
  const Fmt &f = fmt_of(bits); Num x, y; x.c = edge_coef(g, f); x.neg = g.below(2); x.q = g.chance(1, 4) ? gen_q(g, f, f.p) : f.qmin + (int) g.below(f.qmax - f.qmin + 1);
  int m = g.range(1, f.p); u128 h = p10u(m - 1);
  switch (g.below(6)) {
    case 0: case 1: y.c = 5 * h; break;
    case 2: y.c = 5 * h + g.below(3) - 1; break;
    case 3: y.c = h * g.range(1, 9); break;
    case 4: y.c = 10 * h - 1 - g.below(2); break;
    default: y.c = digits_pattern(g, m);
  }
  if (!y.c) y.c = 1;
  int lsd = x.q + ndigu(x.c) - f.p;                       // exponent of the last digit of x written with p digits
  y.q = lsd + g.range(-3, 1) - (ndigu(y.c) - 1); y.neg = g.chance(2, 3) ? !x.neg : x.neg;
  y.c %= p10u(f.p); xo = clampq(bits, x); yo = clampq(bits, y);
}
// the digits of the product that are rounded away are chosen
static void hard_mul(Rng &g, int bits, u128 &xo, u128 &yo) {
  const Fmt &f = fmt_of(bits); Num x, y; int m = g.range(1, f.p), da = std::max(1, std::min(f.p, f.p - (int) g.below(3)));
  u128 a = digits_pattern(g, da); a |= 1; if (a % 5 == 0) a += 2; a %= p10u(f.p); if (!(a & 1) || a % 5 == 0) a = 3;
  Int M = I(p10u(m)), tail = M / 2;
  switch (g.below(5)) { case 0: break; case 1: tail += 1; break; case 2: tail -= 1; break; case 3: tail = 1; break; case 4: tail = M - 1; break; }
  x.c = a; y.c = U(tail * modinv(I(a), M) % M); if (!y.c) y.c = 1;
  x.neg = g.below(2); y.neg = g.below(2); x.q = gen_q(g, f, f.p);
  if (g.chance(1, 2)) y.q = gen_q(g, f, f.p); else y.q = (g.chance(1, 2) ? f.qmin : f.qmax) - x.q + g.range(-f.p - 1, 2); 
  xo = clampq(bits, x); yo = clampq(bits, y); if (g.chance(1, 2)) std::swap(xo, yo);
}
// quotients as close as possible to a boundary of the rounding, or exactly half way
static void hard_div(Rng &g, int bits, u128 &xo, u128 &yo) {
  const Fmt &f = fmt_of(bits); Num x, y;
  if (g.chance(1, 3)) { int a = g.range(1, f.p + f.p / 3); u128 P5 = 1, P2 = 1; int i = 0; while (i < a && P5 < p10u(f.p) / 5 && P2 < p10u(f.p) / 2) { P5 *= 5; P2 *= 2; i++; }
    u128 lo = p10u(f.p) / P5, u = lo + g.belowu(9 * lo + 1); u |= 1; x.c = u % p10u(f.p); y.c = P2; if (!x.c) x.c = 1;
    if (g.chance(1, 4)) std::swap(P2, P5), y.c = P2; }
  else {
    u128 b = digits_pattern(g, g.range(1, f.p)); b |= 1; if (b % 5 == 0) b += 2; b %= p10u(f.p); if (b < 3) b = 3;
    Int B = I(b), M = I(p10u(f.p)); if (g.chance(1, 2)) M *= 10; int de = g.range(0, 3) * 2 + 1; if (g.chance(1, 2)) M *= 2; 
    Int d = g.chance(1, 2) ? Int(de) : B - (de % B); x.c = U(d * modinv(M % B, B) % B); if (!x.c) x.c = 1; y.c = b; }
  x.neg = g.below(2); y.neg = g.below(2); x.q = gen_q(g, f, f.p);
  if (g.chance(1, 2)) y.q = gen_q(g, f, f.p); else y.q = x.q - (g.chance(1, 2) ? f.qmin : f.qmax) + g.range(-f.p - 2, 2);
  xo = clampq(bits, x); yo = clampq(bits, y);
}
// backwards: the exact result is next to a boundary of the coefficient (a decade, a carry between words), and so are the digits rounded away
static u128 edge_tail(Rng &g, int k) { // k digits
  u128 M = p10u(k), t;
  switch (g.below(6)) { case 0: t = M / 2; break; case 1: t = M / 2 + 1; break; case 2: t = M / 2 ? M / 2 - 1 : 0; break; case 3: t = 1; break; case 4: t = M - 1; break; default: t = g.belowu(M); }
  return t % M;
}
static void back_sum(Rng &g, int bits, u128 &xo, u128 &yo) {
  const Fmt &f = fmt_of(bits); Num x, y; u128 S = edge_coef(g, f); if (g.chance(2, 3)) while (ndigu(S) < f.p) S = S * 10 + (g.chance(1, 2) ? 9 : 0);
  int k = g.range(0, f.p), j = std::max(0, k + (int) g.range(-2, 2)); // digits rounded away; distance of the exponents
  Int T = I(S) * p10(k) + I(edge_tail(g, k)), J = p10(j), lim = I(p10u(f.p));
  Int r = T % J, m = j < f.p ? I(g.belowu(p10u(f.p - j))) : Int(0); if (g.chance(1, 4)) m = 0; Int Y = r + m * J; if (g.chance(2, 3)) Y -= (m + m + 1) * J; // either sign
  if (Y >= lim || -Y >= lim) Y = r;
  Int X = (T - Y) / J; if (X >= lim || X < 0 || Y >= lim || -Y >= lim) { X = X % lim; if (X < 0) X = -X; Y = Y % lim; }
  if (g.chance(1, 5)) { // a power of ten less something: the difference gains a digit
    k = g.range(0, f.p - 1); S = g.chance(1, 3) ? p10u(f.p) - 1 - g.belowu(p10u(f.p - k)) : p10u(f.p) - std::min(p10u(f.p) - edge_coef(g, f), p10u(f.p - k) - 1); if (g.chance(1, 3)) { u128 w = p10u(f.p) & (((u128) 1 << 64) - 1); if (f.p == 34 && k <= 15) S = p10u(f.p) - w - g.below(2) - (g.chance(1, 3) ? 1 : 0); }
    if (g.chance(1, 8)) S = p10u(f.p - 1); // or loses one
    T = I(S) * p10(k) + I(edge_tail(g, k)); Y = T - p10(f.p + k); if (-Y >= lim || Y == 0) Y = -I(p10u(g.range(0, f.p - 1))) - (int) g.below(2); int z = g.range(0, f.p - 1); X = p10(z); j = f.p + k - z; }
  x.c = U(X); x.q = g.chance(1, 4) ? gen_q(g, f, f.p) : f.qmin + (int) g.below(f.qmax - f.qmin + 1); y.q = x.q - j; if (g.chance(1, 8)) { y.q = f.qmax - k + g.range(-1, 1); x.q = y.q + j; } y.neg = Y < 0; y.c = U(Y < 0 ? Int(-Y) : Y);
  if (g.chance(1, 2)) { x.neg = !x.neg; y.neg = !y.neg; } if (!x.c) x.c = 1; if (!y.c) y.c = 1;
  xo = clampq(bits, x); yo = clampq(bits, y);
}
static void back_mul(Rng &g, int bits, u128 &xo, u128 &yo) { // a product next to a boundary
  const Fmt &f = fmt_of(bits); Num x, y; u128 S = edge_coef(g, f); x.c = digits_pattern(g, g.range(1, f.p)); if (!x.c) x.c = 3;
  int k = std::max(0, std::min(f.p, ndigu(x.c) + (int) g.range(-1, 2))); Int Y = I(S) * p10(k) / I(x.c) + (int) g.below(3) - 1; while (Y >= I(p10u(f.p))) Y /= 10;
  y.c = Y < 1 ? (u128) 1 : U(Y); x.neg = g.below(2); y.neg = g.below(2); x.q = gen_q(g, f, f.p);
  if (g.chance(1, 2)) y.q = gen_q(g, f, f.p); else y.q = (g.chance(1, 2) ? f.qmin : f.qmax) - x.q + g.range(-f.p - 1, 2);
  xo = clampq(bits, x); yo = clampq(bits, y); if (g.chance(1, 2)) std::swap(xo, yo);
}
static void back_div(Rng &g, int bits, u128 &xo, u128 &yo) {
  const Fmt &f = fmt_of(bits); Num x, y; u128 S = edge_coef(g, f); y.c = digits_pattern(g, g.range(1, f.p)); if (!y.c) y.c = 3;
  Int X = I(S) * I(y.c); while (X >= I(p10u(f.p))) X /= 10; X += (int) g.below(3) - 1; if (X >= I(p10u(f.p))) X = I(p10u(f.p)) - 1;
  x.c = X < 1 ? (u128) 1 : U(X); x.neg = g.below(2); y.neg = g.below(2); x.q = gen_q(g, f, f.p);
  if (g.chance(1, 2)) y.q = gen_q(g, f, f.p); else y.q = x.q - (g.chance(1, 2) ? f.qmin : f.qmax) + g.range(-f.p - 2, 2);
  xo = clampq(bits, x); yo = clampq(bits, y);
}
static Sub arith(const char *nm, int bits, Num (*rf)(const Fmt &, Num, Num, int, int *)) {
  Sub s; s.name = std::string(nm) + std::to_string(bits); s.dfmt = {bits, bits}; s.use_rm = true;
  int op = shim_find(nm, bits); bool issub = !strcmp(nm, "sub");
  void (*hard)(Rng &, int, u128 &, u128 &) = !strcmp(nm, "mul") ? hard_mul : !strcmp(nm, "div") ? hard_div : edge_add;
  void (*back)(Rng &, int, u128 &, u128 &) = hard == hard_mul ? back_mul : hard == hard_div ? back_div : back_sum;
  s.gen = [bits, hard, back, issub](Rng &g, Case &c) { int w = (int) g.below(12); if (w < 6) { u128 a, b; (w < 3 ? hard : back)(g, bits, a, b); if (issub && w >= 3) { Num t = decode(bits, b); t.neg = !t.neg; b = encode(bits, t); } c.d = {a, b}; return; }
    u128 x = gen_dec(g, bits); c.d = {x, gen_rel(g, bits, x)}; if (g.chance(1, 2)) std::swap(c.d[0], c.d[1]); };
  s.check = [bits, op, rf, issub](const Case &c, Out &o) {
    SArgs A = {}; SRes R; A.a[0] = c.d[0]; A.a[1] = c.d[1]; shim_call(op, c.rm, &A, &R);
    Num x = decode(bits, c.d[0]), y = decode(bits, c.d[1]), g = decode(bits, R.r[0]); if (issub && !y.nan()) y.neg = !y.neg;
    int fl = 0; Num e = rf(fmt_of(bits), x, y, c.rm, &fl);
    o.label = e.nan() ? "nan" : e.inf() ? (fl & FL_OVF ? "overflow" : "inf") : fl & FL_UNF ? "underflow" : fl & FL_INX ? "rounded" : "exact";
    if (quantum_mode) {
      // special operands and results, and the preferred exponent of exact results
      bool sp = !x.fin() || !y.fin() || !e.fin() || !x.c || !y.c || !e.c;
      if (sp) { if (!same_val(e, g)) { o.msg = "got " + str(g) + ", expected " + str(e); return FAIL; } }
      else if (fl & FL_INX) return TRIVIAL;
      if (g.fin() && e.fin() && e.q != g.q) { o.msg = "wrong quantum: got " + str(g) + ", expected " + str(e); return FAIL; }
      if (g.inf() && !g.canon) { o.msg = "non-canonical infinity"; return FAIL; }
      return OK;
    }
    if (!same_val(e, g)) { o.msg = "got " + str(g) + ", expected " + str(e); return FAIL; }
    if (g.fin() && !g.canon) { o.msg = "non-canonical result"; return FAIL; }
    return e.fin() && x.c && y.c ? OK : TRIVIAL; };
  return s;
}
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : "value"; quantum_mode = P.id == "quantum";
  for (int b : {32, 64, 128}) { P.subs.push_back(arith("add", b, add)); P.subs.push_back(arith("sub", b, add)); P.subs.push_back(arith("mul", b, mul)); P.subs.push_back(arith("div", b, ref::div)); }
  return run_main(P, argc - 1, argv + 1);
}
