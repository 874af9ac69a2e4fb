// A call of anything in the library as a generated value
#pragma once
#include "util.hpp"
#include <cwchar>
using namespace fw;
// ---- one call of anything: an operation of the shim, or a string conversion
struct Call { int op = 0, fmt = 64, rm = 0; u128 a[3] = {0, 0, 0}; i128 i = 0; };
struct Res { u128 r[2]; i128 n; long double ld; int err, rm, brm; char s[96]; };
enum { O_PRINTG, O_PRINTA, O_PRINTF, O_WPRINT, O_STRFROM, O_STRTOD, O_WCSTOD, O_EXTRA };
static std::vector<int> pool; // usable operations; negative: string conversions
static void init_pool() {
  for (int k = 0; k < shim_nops; k++) { std::string n = shim_ops[k].name; if (n == "nan" || n == "lgamma_r") continue; pool.push_back(k); }
  for (int r = 0; r < 6; r++) for (int k = 0; k < O_EXTRA; k++) for (int f = 0; f < 3; f++) pool.push_back(-1 - (k * 3 + f));
}
static bool bin_op(const std::string &sig) { return sig.find('b') != std::string::npos || sig.find('x') != std::string::npos; }
static std::string callname(const Call &c) { if (c.op >= 0) return nm(shim_ops[c.op].name, shim_ops[c.op].fmt); static const char *const n[] = {"%.20g", "%a", "%.3f", "wide %e", "strfrom %g", "strtod", "wcstod"}; return n[(-1 - c.op) / 3] + std::string(" ") + std::to_string(c.fmt); }
static void text_of(const Call &c, char *buf) { // an input string determined by the arguments
  Num x = decode(c.fmt, c.a[0]); if (x.fin()) { u128 k = x.c; std::string d = u2s(k) + u2s((u128) (uint64_t) c.a[1] % 1000000); snprintf(buf, 120, "%s%s.%se%d", x.neg ? "-" : "", d.substr(0, 1 + (unsigned) c.a[2] % d.size()).c_str(), d.substr(1 + (unsigned) c.a[2] % d.size()).c_str(), x.q); } else snprintf(buf, 120, "%s", x.inf() ? "-Inf" : "nan(1)"); }
static void run(const Call &c, Res &R) {
  memset(&R, 0, sizeof R);
  if (c.op >= 0) { SArgs A; memset(&A, 0, sizeof A); for (int k = 0; k < 3; k++) A.a[k] = c.a[k]; A.i = c.i; double dv; uint64_t b = (uint64_t) c.a[0]; memcpy(&dv, &b, 8); A.ld = dv; SRes S; shim_call(c.op, c.rm, &A, &S); R.r[0] = S.r[0]; R.r[1] = S.r[1]; R.n = S.n; memcpy(&R.ld, &S.ld, 10); R.err = S.err; R.rm = S.rm_after; R.brm = S.brm_after; return; }
  int f = c.fmt; char t[128]; wchar_t w[128]; long used; int fl; memset(w, 0, sizeof w);
  switch ((-1 - c.op) / 3) {
    case O_PRINTG: R.n = shim_snprintf(f, c.rm, R.s, sizeof R.s, f == 32 ? "%.20Hg" : f == 64 ? "%.20Dg" : "%.20DDg", c.a[0]); break;
    case O_PRINTA: R.n = shim_snprintf(f, c.rm, R.s, sizeof R.s, f == 32 ? "%+Ha" : f == 64 ? "%+Da" : "%+DDa", c.a[0]); break;
    case O_PRINTF: R.n = shim_snprintf(f, c.rm, R.s, sizeof R.s, f == 32 ? "%.3Hf" : f == 64 ? "%.3Df" : "%.3DDf", c.a[0]); break;
    case O_WPRINT: R.n = shim_swprintf(f, c.rm, w, 90, f == 32 ? L"%He" : f == 64 ? L"%De" : L"%DDe", c.a[0]); for (int k = 0; k < 90; k++) R.s[k] = (char) w[k]; break;
    case O_STRFROM: R.n = shim_strfrom(f, c.rm, R.s, sizeof R.s, "%.9g", c.a[0]); break;
    case O_STRTOD: text_of(c, t); R.r[0] = shim_strtod(f, c.rm, t, &used, &R.err, &fl); R.n = used; break;
    case O_WCSTOD: text_of(c, t); for (int k = 0; t[k]; k++) w[k] = t[k]; R.r[0] = shim_wcstod(f, c.rm, w, &used, &R.err, &fl); R.n = used; break;
  }
  R.rm = shim_after_rm(); R.brm = shim_after_brm();
}
static bool same(const Res &a, const Res &b) { return a.r[0] == b.r[0] && a.r[1] == b.r[1] && a.n == b.n && !memcmp(&a.ld, &b.ld, 10) && a.err == b.err && !memcmp(a.s, b.s, sizeof a.s); }
static std::string diff(const Call &c, const Res &a, const Res &b) { char t[400]; snprintf(t, sizeof t, "%s in FE_DEC_%s: result %s n=%s errno %d \"%s\" against %s n=%s errno %d \"%s\"", callname(c).c_str(), rm_name[c.rm], str(decode(c.fmt, a.r[0])).c_str(), i2s(a.n).c_str(), a.err, a.s, str(decode(c.fmt, b.r[0])).c_str(), i2s(b.n).c_str(), b.err, b.s); return t; }
// a case is a list of calls: n = pool index, rm, integer argument per call; d = three operands per call
static const int NF = 3;
static Call get_call(const Case &c, size_t k) {
  Call r; auto n = [&](size_t j) { return j < c.n.size() ? c.n[j] : (i128) 0; }; i128 p = n(k * NF) % (i128) pool.size(); if (p < 0) p += pool.size(); r.op = pool[(size_t) p]; r.rm = (int) ((n(k * NF + 1) % 5 + 5) % 5); r.i = n(k * NF + 2);
  r.fmt = r.op >= 0 ? shim_ops[r.op].fmt : (-1 - r.op) % 3 == 0 ? 32 : (-1 - r.op) % 3 == 1 ? 64 : 128;
  for (int j = 0; j < 3; j++) { size_t z = k * 3 + j; u128 v = z < c.d.size() ? c.d[z] : 0; r.a[j] = r.fmt == 32 ? (uint32_t) v : r.fmt == 64 ? (uint64_t) v : v; }
  if (r.op >= 0 && !strncmp(shim_ops[r.op].name, "from_f128", 9)) r.a[0] = c.d.size() > k * 3 ? c.d[k * 3] : 0;
  return r; }
static void gen_call(Rng &g, Case &c) {
  size_t p = g.below(pool.size()); int op = pool[p], fmt = op >= 0 ? shim_ops[op].fmt : (-1 - op) % 3 == 0 ? 32 : (-1 - op) % 3 == 1 ? 64 : 128;
  c.n.push_back((i128) p); c.n.push_back((i128) g.below(5)); c.n.push_back(g.chance(1, 2) ? g.range(-400, 400) : (i128) g.u() >> g.below(127)); u128 x = gen_dec(g, fmt); if (g.chance(1, 2)) { Num m; m.c = digits_pattern(g, fmt_of(fmt).p); m.q = -ndigu(m.c) + g.range(-3, 4); m.neg = g.chance(1, 3); x = clampq(fmt, m); }
  c.d.push_back(x); c.d.push_back(gen_rel(g, fmt, x)); c.d.push_back(gen_rel(g, fmt, x)); }
// calls of one or two operations whose operands come from a few related values: equal values with other exponents, other
// signs, neighbours, the same value in another format, zeros, infinities - and other rounding modes
static void gen_related(Rng &g, Case &c, int n) {
  size_t p[2] = {(size_t) g.below(pool.size()), 0}; p[1] = g.chance(1, 2) ? p[0] : (size_t) g.below(pool.size());
  auto fmt = [](size_t k) { int op = pool[k]; return op >= 0 ? shim_ops[op].fmt : (-1 - op) % 3 == 0 ? 32 : (-1 - op) % 3 == 1 ? 64 : 128; };
  if (g.chance(1, 3)) { for (int t = 0; t < 40; t++) { size_t q = g.below(pool.size()); if (pool[q] >= 0 && pool[p[0]] >= 0 && !strcmp(shim_ops[pool[q]].name, shim_ops[pool[p[0]]].name)) { p[1] = q; break; } } }
  std::vector<Num> few; Num x = decode(fmt(p[0]), gen_dec(g, fmt(p[0])));
  if (g.chance(2, 3)) { x = Num(); x.c = g.chance(1, 2) ? digits_pattern(g, fmt_of(fmt(p[0])).p) : (u128) g.range(1, 99999); x.q = -ndigu(x.c) + g.range(-3, 4); x.neg = g.chance(1, 4); }
  few.push_back(x);
  for (int k = 0; k < 3; k++) { Num y = x;
    switch (g.below(6)) {
      case 0: if (y.fin()) while (y.c && y.c % 10 == 0 && g.chance(3, 4)) { y.c /= 10; y.q++; } if (y.fin() && y.c < 100000) { int z = g.range(1, 2); while (z--) { y.c *= 10; y.q--; } } break;
      case 1: y.neg = !y.neg; break;
      case 2: if (y.fin()) y.c += g.chance(1, 2) || !y.c ? 1 : -1; break;
      case 3: if (y.fin()) y.q += g.range(-2, 2); break;
      case 4: y = Num(); y.c = (u128) g.below(3); y.q = g.range(-3, 3); y.neg = g.chance(1, 3); break;
      default: y = decode(fmt(p[0]), gen_rel(g, fmt(p[0]), clampq(fmt(p[0]), x))); }
    few.push_back(y); }
  i128 ints[2] = {g.chance(1, 2) ? g.range(-400, 400) : (i128) g.u() >> g.below(127), g.range(-40, 40)}; bool modes = g.chance(2, 3); int rm0 = (int) g.below(5);
  for (int k = 0; k < n; k++) { size_t w = p[g.below(2)]; c.n.push_back((i128) w); c.n.push_back(modes ? (i128) g.below(5) : rm0); c.n.push_back(ints[g.below(2)]); for (int j = 0; j < 3; j++) c.d.push_back(clampq(fmt(w), few[g.below(few.size())])); } }
static size_t ncalls(const Case &c) { return std::min<size_t>(c.d.size() / 3, 64); }
static std::string show_calls(const Case &c) { std::string r; for (size_t k = 0; k < ncalls(c); k++) { Call x = get_call(c, k); r += (k ? "; " : "") + callname(x) + "(" + str(decode(x.fmt, x.a[0])) + ", " + str(decode(x.fmt, x.a[1])) + ", ..) in FE_DEC_" + rm_name[x.rm]; if (r.size() > 900) { r += "..."; break; } } return r; }

