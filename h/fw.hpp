// Property-based testing engine: seeded structured generation, fork workers,
// optional coverage-guided phase (own __sanitizer_cov_trace_* runtime),
// shrinking, replay, known findings, evidence.
#pragma once
#include "ref.hpp"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <atomic>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <time.h>

namespace fw {
using namespace ref;

// ---------------------------------------------------------------- RNG
struct Rng {
  uint64_t s[4];
  static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed = 1) { for (auto &v : s) v = sm(seed); }
  uint64_t next() { auto rl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }; uint64_t r = rl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45); return r; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int) below((uint64_t)(b - a + 1)); } // inclusive
  bool chance(int num, int den) { return (int) below(den) < num; }
  u128 u() { return ((u128) next() << 64) | next(); }
  u128 belowu(u128 n) { return n ? u() % n : 0; }
};
inline uint64_t hstr(const std::string &s, uint64_t h = 1469598103934665603ULL) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h ^ (h >> 29); }

// ---------------------------------------------------------------- cases
struct Case {
  int rm = 0;
  std::vector<u128> d;
  std::vector<i128> n;
  std::string s;
};
enum V { TRIVIAL, OK, FAIL, SKIP };
struct Out {
  std::string msg;      // what failed
  std::string kf;       // id of the known finding this failure is an instance of
  std::string label;    // class of the case, for the distribution
};
struct Sub {
  std::string name;
  std::vector<int> dfmt;          // formats of decimal fields
  bool use_rm = false;
  int weight = 1;
  size_t call_n = 0, call_d = 0;  // a history: integers and decimals per call
  std::function<void(Rng &, Case &)> gen;
  std::function<V(const Case &, Out &)> check;
  std::function<std::string(const Case &)> show;   // optional
  std::vector<Case> fixed;        // enumerated cases, always run
  std::string alphabet;           // for string mutation
};

inline std::string hexs(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s) { sprintf(b, "%02x", c); r += b; } return r; }
inline std::string unhex(const std::string &s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char) strtol(s.substr(i, 2).c_str(), 0, 16); return r; }
inline std::string ser(const Case &c) {
  std::string r = "rm=" + std::to_string(c.rm);
  char b[64];
  for (auto v : c.d) { sprintf(b, " d=%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long) v); r += b; }
  for (auto v : c.n) r += " n=" + i2s(v);
  r += " s=" + hexs(c.s);
  return r;
}
inline i128 parse_i(const std::string &t) { bool neg = t[0] == '-'; u128 v = 0; for (char ch : t) if (ch >= '0' && ch <= '9') v = v * 10 + (ch - '0'); return neg ? (i128)(-v) : (i128) v; }
inline Case parse_case(const std::string &t) {
  Case c; std::istringstream is(t); std::string w;
  while (is >> w) {
    std::string k = w.substr(0, w.find('=')), v = w.substr(w.find('=') + 1);
    if (k == "rm") c.rm = atoi(v.c_str());
    else if (k == "d") c.d.push_back(((u128) strtoull(v.substr(0, 16).c_str(), 0, 16) << 64) | strtoull(v.substr(16).c_str(), 0, 16));
    else if (k == "n") c.n.push_back(parse_i(v));
    else if (k == "s") c.s = unhex(v);
  }
  return c;
}
inline std::string jesc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { sprintf(b, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
inline std::string show_case(const Sub &s, const Case &c) {
  std::string r = s.name + "(";
  if (s.show) return s.show(c);
  for (size_t i = 0; i < c.d.size(); i++) { int f = i < s.dfmt.size() ? s.dfmt[i] : s.dfmt.empty() ? 128 : s.dfmt.back(); r += (i ? ", " : "") + str(decode(f, c.d[i])) + "[" + hex(f, c.d[i]) + "]"; }
  for (auto v : c.n) r += ", " + i2s(v);
  if (!c.s.empty()) r += ", \"" + c.s + "\"";
  r += ")";
  if (s.use_rm) r += " in FE_DEC_" + std::string(c.rm >= 0 && c.rm < 5 ? rm_name[c.rm] : "?");
  return r;
}

// ---------------------------------------------------------------- decimal generator
inline u128 digits_pattern(Rng &g, int nd) { // a coefficient of up to nd digits with structure
  u128 hi = p10u(nd);
  switch (g.below(14)) {
    case 0: return hi - 1;
    case 1: return hi - 1 - g.below(12);
    case 2: return p10u(nd - 1);
    case 3: return p10u(nd - 1) + g.below(12);
    case 4: return 5 * p10u(nd - 1) + (u128)(int64_t)(g.below(5)) - (nd > 1 ? 2 : 0);
    case 5: { // trailing zeros
      int z = g.range(0, nd - 1); u128 v = g.belowu(p10u(nd - z)) * p10u(z); return v; }
    case 6: { // digits, then 5000.. / 4999..  / 5000..1
      int z = g.range(1, nd); u128 t = 5 * p10u(z - 1); int a = (int) g.below(3); if (a == 1 && t > 1) t -= 1; if (a == 2 && z > 1) t += 1; return (g.belowu(p10u(nd - z)) * p10u(z) + t) % hi; }
    case 7: { // repeated digit
      u128 v = 0; int dgt = g.range(1, 9); for (int i = 0; i < nd; i++) v = v * 10 + dgt; return v; }
    case 8: { // digits then 999..
      int z = g.range(1, nd); return g.belowu(p10u(nd - z)) * p10u(z) + p10u(z) - 1; }
    case 9: { // near a power of two
      int b = g.range(0, 113); u128 v = ((u128) 1 << b) + g.below(7) - (b > 2 ? 3 : 0); return v % hi; }
    case 10: { // sparse
      u128 v = 0; int k = g.range(1, 4); for (int i = 0; i < k; i++) v += g.range(1, 9) * p10u(g.range(0, nd - 1)); return v % hi; }
    default: return g.belowu(hi);
  }
}
inline int gen_q(Rng &g, const Fmt &f, int nd) {
  switch (g.below(12)) {
    case 0: return f.qmin + g.range(0, 3);
    case 1: return f.qmin + g.range(0, 2 * f.p);
    case 2: return f.qmax - g.range(0, 3);
    case 3: return f.qmax - g.range(0, 2 * f.p);
    case 4: return 0;
    case 5: return -nd + g.range(-2, 2);
    case 6: return f.qmin + (int) g.below(f.qmax - f.qmin + 1);
    case 7: return g.range(-f.p - 3, f.p + 3);
    case 8: return -g.range(1, 3);
    case 9: { int h = g.range(0, f.p / 2 + 1); return g.chance(1, 2) ? h : -h; }
    default: return -g.range(0, f.p + 1);
  }
}
inline u128 gen_special(Rng &g, int bits, bool snan = true) {
  const Fmt &f = fmt_of(bits);
  Num n; n.neg = g.below(2);
  switch (g.below(8)) {
    case 0: case 1: n.q = gen_q(g, f, 1); break;   // zero
    case 2: n.q = 0; break;
    case 3: case 4: n.k = INF; break;
    case 5: n.k = QNaN; n.c = g.chance(1, 2) ? 0 : g.belowu(p10u(f.p - 1)); break;
    case 6: n.k = snan ? SNaN : QNaN; n.c = g.chance(1, 2) ? 0 : g.belowu(p10u(f.p - 1)); break;
    case 7: n.q = 0; n.c = 1; break;
  }
  return encode(bits, n);
}
inline u128 clampq(int bits, Num n) { const Fmt &f = fmt_of(bits); n.q = std::min(std::max(n.q, f.qmin), f.qmax); return encode(bits, n); }
inline u128 gen_fin(Rng &g, int bits) {
  const Fmt &f = fmt_of(bits);
  int nd = g.chance(1, 3) ? f.p : g.range(1, f.p);
  Num n; n.neg = g.below(2);
  switch (g.below(20)) {
    case 0: n.c = g.below(11); n.q = gen_q(g, f, 1); break;
    case 1: n.c = g.below(1000); n.q = g.range(-3, 3); break;
    case 2: { // near integer-type limits, optionally with a fraction
      static const int lim[] = {7, 8, 15, 16, 31, 32, 53, 63, 64, 96, 112, 113};
      int b = lim[g.below(12)]; u128 v = ((u128) 1 << b) + g.below(5) - 2; int fr = g.below(4);
      int room = f.p - ndigu(v); if (room < 0) { n.c = v / p10u(-room); n.q = -room; }
      else { fr = std::min(fr, room); u128 m = p10u(fr); n.c = v * m + (g.chance(1, 2) ? m / 2 : g.belowu(m)) - (g.chance(1, 2) ? 0 : m); n.q = -fr; }
      n.c %= p10u(f.p); break; }
    case 3: { // half-way integers
      int k = g.range(1, f.p); n.c = digits_pattern(g, f.p); n.c = n.c / p10u(k) * p10u(k) + 5 * p10u(k - 1); n.c %= p10u(f.p); n.q = -k; break; }
    case 4: // subnormal
      n.c = digits_pattern(g, g.range(1, f.p - 1)); n.q = f.qmin + (int) g.below(3); break;
    case 5: // around one
      n.c = p10u(f.p - 1); n.q = -(f.p - 1); if (g.chance(1, 2)) n.c += g.below(20); else { n.c = p10u(f.p) - g.below(20); if (n.c == p10u(f.p)) n.c--; n.q = -f.p; } break;
    default: n.c = digits_pattern(g, nd); n.q = gen_q(g, f, nd);
  }
  n.c %= p10u(f.p);
  return clampq(bits, n);
}
inline u128 gen_dec(Rng &g, int bits) {
  if (g.chance(1, 16)) return gen_special(g, bits);
  if (g.chance(1, 40)) return g.u() & (bits == 128 ? ~(u128) 0 : (((u128) 1 << bits) - 1)); // any bit pattern
  return gen_fin(g, bits);
}
inline u128 gen_nonan(Rng &g, int bits) { for (;;) { u128 v = gen_dec(g, bits); if (!decode(bits, v).nan()) return v; } }
// an operand related to x
inline u128 gen_rel(Rng &g, int bits, u128 xb) {
  const Fmt &f = fmt_of(bits);
  Num x = decode(bits, xb);
  if (!x.fin() || g.chance(1, 4)) return gen_dec(g, bits);
  Num y = x;
  switch (g.below(10)) {
    case 0: y.neg = !y.neg; break;
    case 1: { // same value, other cohort member
      int k = g.range(0, f.p); while (k-- > 0) { if (g.chance(1, 2) && y.c && y.c % 10 == 0 && y.q < f.qmax) { y.c /= 10; y.q++; } else if (y.c < p10u(f.p - 1) && y.q > f.qmin) { y.c *= 10; y.q--; } } break; }
    case 2: y.c += g.below(3); y.c -= std::min<u128>(y.c, g.below(3)); break;
    case 3: y.q += g.range(-1, 1); break;
    case 4: y.c = digits_pattern(g, g.range(1, f.p)); y.neg = g.below(2); break;                       // same exponent
    case 5: case 6: y.c = digits_pattern(g, g.range(1, f.p)); y.q = x.q + g.range(-2 * f.p - 2, 2 * f.p + 2); y.neg = g.below(2); break;
    case 7: y.q = -x.q + g.range(-2 * f.p, f.p); y.c = digits_pattern(g, f.p); break;
    case 8: y.neg = g.below(2); y.c = 1; y.q = x.q + g.range(-f.p - 1, f.p + 1); break;
    case 9: y.c = 5 * p10u(g.range(0, f.p - 1)); y.q = x.q - g.range(0, f.p + 2); y.neg = g.below(2); break;
  }
  y.c %= p10u(f.p);
  if (g.chance(1, 3)) y.neg = g.below(2);
  return clampq(bits, y);
}
inline i128 gen_int(Rng &g, int bits) { // integer of up to `bits' bits, signed interpretation left to the caller
  u128 v;
  switch (g.below(6)) {
    case 0: v = g.below(20); break;
    case 1: v = ((u128) 1 << g.range(0, bits - 1)) + g.below(5) - 2; break;
    case 2: v = p10u(g.range(0, 38)) + g.below(5) - 2; break;
    case 3: v = g.u() >> g.range(0, 127); break;
    case 4: { int nd = g.range(1, 38); v = digits_pattern(g, std::min(nd, 34)) * p10u(g.range(0, 4)); break; }
    default: v = g.u();
  }
  if (g.chance(1, 2)) v = -v;
  return (i128) v;
}

// ---------------------------------------------------------------- coverage runtime
extern uint8_t *cov_map;          // 64K current map
extern bool cov_on;
struct CmpRec { uint64_t a, b; };
extern CmpRec cmp_ring[512];
extern unsigned cmp_n;
#ifdef FW_MAIN
uint8_t *cov_map; bool cov_on; CmpRec cmp_ring[512]; unsigned cmp_n; static bool cov_seen;
#define NOCOV
static inline void rec_cmp(uint64_t a, uint64_t b) { if (cov_on && a != b) { cmp_ring[cmp_n++ & 511] = {a, b}; } }
extern "C" {
void __sanitizer_cov_trace_pc() { cov_seen = true; if (!cov_on) return; uintptr_t pc = (uintptr_t) __builtin_return_address(0); uint32_t h = (uint32_t)((pc * 0x9e3779b97f4a7c15ULL) >> 48); if (cov_map[h] < 255) cov_map[h]++; }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { rec_cmp(a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { rec_cmp(a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { rec_cmp((uint64_t)(int64_t)(int32_t) a, (uint64_t)(int64_t)(int32_t) b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { rec_cmp(a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { rec_cmp(a, b); rec_cmp(b, a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { rec_cmp(a, b); rec_cmp(b, a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { rec_cmp((uint64_t)(int64_t)(int32_t) a, (uint64_t)(int64_t)(int32_t) b); rec_cmp((uint64_t)(int64_t)(int32_t) b, (uint64_t)(int64_t)(int32_t) a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { rec_cmp(a, b); rec_cmp(b, a); }
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) { for (uint64_t i = 0; i < cases[0] && i < 64; i++) rec_cmp(v, cases[2 + i]); }
}
#endif

// ---------------------------------------------------------------- mutation
inline void mut_dec(Rng &g, int bits, u128 &v) {
  const Fmt &f = fmt_of(bits);
  Num x = decode(bits, v);
  u128 mask = bits == 128 ? ~(u128) 0 : (((u128) 1 << bits) - 1);
  switch (g.below(12)) {
    case 0: v = gen_dec(g, bits); return;
    case 1: v ^= (u128) 1 << g.below(bits); return;
    case 2: v = gen_rel(g, bits, v); return;
    case 3: x.neg = !x.neg; break;
    case 4: x.q += g.range(-3, 3); break;
    case 5: x.q = gen_q(g, f, ndigu(x.c)); break;
    case 6: x.c = digits_pattern(g, g.range(1, f.p)); break;
    case 7: x.c = x.c * 10 + g.below(10); x.c %= p10u(f.p); break;
    case 8: x.c /= 10; break;
    case 9: { u128 w = p10u((int) g.below(f.p)); u128 dg = x.c / w % 10; x.c = x.c - dg * w + g.below(10) * w; break; }
    case 10: x.c += g.below(5); x.c -= std::min<u128>(x.c, 2); break;
    case 11: if (cmp_n) { // input-to-state
      CmpRec r = cmp_ring[g.below(std::min(cmp_n, 512u))];
      uint64_t lo = (uint64_t) x.c, hi = (uint64_t)(x.c >> 64), blo = (uint64_t) v, bhi = (uint64_t)(v >> 64);
      int dl = g.range(-1, 1);
      if (lo == r.a && x.fin()) x.c = (x.c - lo) + (r.b + dl);
      else if (hi && hi == r.a && x.fin()) x.c = ((u128)(r.b + dl) << 64) | lo;
      else if (blo == r.a) { v = (((v >> 64) << 64) | (uint64_t)(r.b + dl)) & mask; return; }
      else if (bits == 128 && bhi == r.a) { v = ((u128)(r.b + dl) << 64) | lo; return; }
      else if ((int64_t) r.a == x.q) x.q = (int)(int64_t) r.b + dl;
      else if ((int64_t) r.a == x.q - f.qmin) x.q = (int)(int64_t) r.b + f.qmin + dl;
      else if (g.chance(1, 3)) x.c = (u128)(r.b + dl);
      else if (g.chance(1, 2)) { if ((int64_t) r.b > -7000 && (int64_t) r.b < 13000) x.q = (int)(int64_t) r.b + (g.chance(1, 2) ? f.qmin : 0) + dl; }
      else { int nb = (int) r.b; if (nb > 0 && nb <= f.p) x.c = digits_pattern(g, nb); }
      } break;
  }
  if (x.fin()) x.c %= p10u(f.p);
  v = clampq(bits, x);
}
inline void mutate(Rng &g, const Sub &s, Case &c) {
  int k = g.range(1, 3);
  while (k--) {
    int nf = (int) c.d.size() * 2 + (int) c.n.size() * 2 + (c.s.empty() && s.alphabet.empty() ? 0 : 4) + (s.use_rm ? 1 : 0);
    if (!nf) { s.gen(g, c); return; }
    int w = (int) g.below(nf);
    if (w < (int) c.d.size() * 2) { int i = w / 2; mut_dec(g, i < (int) s.dfmt.size() ? s.dfmt[i] : s.dfmt.empty() ? 128 : s.dfmt.back(), c.d[i]); continue; }
    w -= (int) c.d.size() * 2;
    if (w < (int) c.n.size() * 2) {
      auto &n = c.n[w / 2];
      switch (g.below(6)) { case 0: n = gen_int(g, 64); break; case 1: n += g.range(-2, 2); break; case 2: n = -n; break; case 3: n ^= (i128) 1 << g.below(64); break; case 4: n = g.range(-10, 10); break;
        default: if (cmp_n) { CmpRec r = cmp_ring[g.below(std::min(cmp_n, 512u))]; if ((int64_t) n == (int64_t) r.a || g.chance(1, 4)) n = (int64_t) r.b + g.range(-1, 1); } }
      continue;
    }
    w -= (int) c.n.size() * 2;
    if (w < 4 && (!c.s.empty() || !s.alphabet.empty())) {
      std::string &t = c.s; size_t L = t.size();
      auto rc = [&]() { return s.alphabet.empty() ? (char) g.next() : s.alphabet[g.below(s.alphabet.size())]; };
      switch (g.below(7)) {
        case 0: t.insert(t.begin() + g.below(L + 1), rc()); break;
        case 1: if (L) t.erase(t.begin() + g.below(L)); break;
        case 2: if (L) t[g.below(L)] = rc(); break;
        case 3: if (L) { size_t a = g.below(L), n = 1 + g.below(std::min<size_t>(L - a, 8)); t.insert(a, t.substr(a, n)); } break;
        case 4: if (L) { size_t a = g.below(L), n = 1 + g.below(std::min<size_t>(L - a, 8)); t.erase(a, n); } break;
        case 5: { size_t n = 1 + g.below(40); t.insert(g.below(L + 1), std::string(n, rc())); } break;
        case 6: if (cmp_n) { CmpRec r = cmp_ring[g.below(std::min(cmp_n, 512u))]; if (r.b < 256 && L) { size_t i = g.below(L); if (s.alphabet.empty() || s.alphabet.find((char) r.b) != std::string::npos) t[i] = (char) r.b; } } break;
      }
      if (t.size() > 20000) t.resize(20000);
      continue;
    }
    if (s.use_rm) c.rm = (int) g.below(5);
  }
}

// ---------------------------------------------------------------- shrinking
inline std::vector<u128> shrink_dec(int bits, u128 v) {
  std::vector<u128> r; const Fmt &f = fmt_of(bits); Num x = decode(bits, v);
  auto push = [&](Num n) { if (n.q < f.qmin || n.q > f.qmax) return; u128 e = encode(bits, n); if (e != v) r.push_back(e); };
  push(mk(false, 0, 0)); push(mk(false, 1, 0)); 
  if (!x.fin()) { Num y = x; y.c = 0; push(y); y.neg = false; push(y); if (!x.canon) { y = x; push(y); } return r; }
  if (!x.canon) { push(x); }
  if (x.neg) { Num y = x; y.neg = false; push(y); }
  if (x.q) { Num y = x; y.q = 0; push(y); y.q = x.q / 2; push(y); y.q = x.q + (x.q < 0 ? 1 : -1); push(y); y.q = x.q + (x.q < 0 ? 10 : -10); push(y); y = x; int k = std::min(f.p - ndigu(x.c), 0); (void) k; }
  if (x.c) {
    Num y = x; y.c = x.c / 10; push(y);
    y = x; y.c = x.c / 10; y.q = x.q + 1; push(y);
    y = x; y.c = 1; push(y);
    for (int i = 0; i < f.p; i++) { u128 w = p10u(i); u128 dg = x.c / w % 10; if (dg) { y = x; y.c = x.c - dg * w; push(y); if (dg > 1) { y = x; y.c = x.c - (dg - 1) * w; push(y); } } }
    int nd = ndigu(x.c); y = x; y.c = x.c % p10u(nd - 1); push(y); y = x; y.c = x.c / p10u(nd / 2); push(y); y = x; y.c = x.c / p10u(nd / 2); y.q += nd / 2; push(y);
    y = x; y.c = x.c - 1; push(y);
  }
  return r;
}
inline bool simpler(int bits, u128 a, u128 b) { // strict order used to stop cycles
  auto key = [&](u128 v) { Num n = decode(bits, v); int nz = 0; if (n.fin()) { u128 c = n.c; while (c) { nz += 1 + (int)(c % 10 > 1); c /= 10; } } return std::make_tuple(n.canon ? 0 : 1, n.fin() ? 0 : n.inf() ? 1 : n.k == QNaN ? 2 : 3, n.fin() ? nz + (n.q ? 1 : 0) + (int) n.neg : 0, n.fin() ? ndigu(n.c) : ndigu(n.c), n.fin() ? abs(n.q) : 0, n.c, (int) n.neg); };
  return key(a) < key(b);
}
inline size_t ncalls_of(const Sub &s, const Case &c) { return s.call_d ? c.d.size() / s.call_d : c.n.size() / s.call_n; }
inline bool replaying = false;
inline V run_check(const Sub &s, const Case &c, Out &o) { o = Out(); return s.check(c, o); }
inline Case shrink(const Sub &s, Case c, Out &o, const std::function<bool(const Case &, Out &)> &fails) {
  int budget = 4000; bool prog = true;
  auto attempt = [&](const Case &k) { if (budget-- <= 0) return false; Out t; if (fails(k, t)) { c = k; o = t; return true; } return false; };
  while (prog && budget > 0) {
    prog = false;
    if (!c.s.empty()) {
      for (size_t len = c.s.size(); len >= 1; len /= 2) for (size_t a = 0; a + len <= c.s.size();) { Case k = c; k.s.erase(a, len); if (attempt(k)) prog = true; else a += std::max<size_t>(1, len / 2); if (budget <= 0) break; }
      for (size_t a = 0; a < c.s.size(); a++) for (char r : {'0', '1'}) if (c.s[a] > '1' && c.s[a] <= '9') { Case k = c; k.s[a] = r; if (attempt(k)) { prog = true; break; } }
    }
    if (s.call_n) for (size_t k = ncalls_of(s, c); k--;) { // drop a call of a history
      Case t = c; if ((k + 1) * s.call_d <= t.d.size() && (k + 1) * s.call_n <= t.n.size()) { t.d.erase(t.d.begin() + k * s.call_d, t.d.begin() + (k + 1) * s.call_d); t.n.erase(t.n.begin() + k * s.call_n, t.n.begin() + (k + 1) * s.call_n); if (attempt(t)) prog = true; } }
    for (size_t i = 0; i < c.d.size(); i++) { int f = i < s.dfmt.size() ? s.dfmt[i] : s.dfmt.empty() ? 128 : s.dfmt.back(); bool again = true; while (again && budget > 0) { again = false; for (u128 v : shrink_dec(f, c.d[i])) { if (!simpler(f, v, c.d[i])) continue; Case k = c; k.d[i] = v; if (attempt(k)) { prog = again = true; break; } } } }
    for (size_t i = 0; i < c.n.size(); i++) { bool again = true; while (again && budget > 0) { again = false; i128 v = c.n[i]; i128 cand[] = {0, 1, v / 2, v / 10, v - (v > 0 ? 1 : v < 0 ? -1 : 0)}; auto ab = [](i128 x) { return x < 0 ? -(u128) x : (u128) x; }; for (i128 w : cand) { if (ab(w) >= ab(v)) continue; Case k = c; k.n[i] = w; if (attempt(k)) { prog = again = true; break; } } } }
    if (s.use_rm && c.rm) for (int r = 0; r < c.rm; r++) { Case k = c; k.rm = r; if (attempt(k)) { prog = true; break; } }
  }
  return c;
}

// ---------------------------------------------------------------- engine
struct Shared {
  std::atomic<uint64_t> beat[64];
  std::atomic<int> fail;              // a worker has reported
  std::atomic<uint64_t> evals, nontriv, distinct, skips;
  char cur[64][24000];                // current case of each worker: "sub\nser"
  char failrec[65536];
};
struct Prop {
  std::string id;
  std::vector<Sub> subs;
  std::string rule;
};

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
inline std::set<std::string> &known() { static std::set<std::string> k; return k; }

#ifdef FW_MAIN
struct WStat { std::map<std::string, uint64_t> labels, sube, subn, kf; std::map<std::string, std::string> kfx; std::vector<std::string> samples; uint64_t cov = 0, corpus = 0; };
static std::string wstat_ser(const WStat &w) {
  std::string r;
  for (auto &p : w.labels) r += "L\t" + p.first + "\t" + std::to_string(p.second) + "\n";
  for (auto &p : w.sube) r += "E\t" + p.first + "\t" + std::to_string(p.second) + "\n";
  for (auto &p : w.subn) r += "N\t" + p.first + "\t" + std::to_string(p.second) + "\n";
  for (auto &p : w.kf) r += "K\t" + p.first + "\t" + std::to_string(p.second) + "\n";
  for (auto &p : w.kfx) r += "X\t" + p.first + "\t" + jesc(p.second) + "\n";
  for (auto &s : w.samples) r += "S\t" + jesc(s) + "\n";
  r += "C\tcov\t" + std::to_string(w.cov) + "\nC\tcorpus\t" + std::to_string(w.corpus) + "\n";
  return r;
}

static int run_main(Prop &P, int argc, char **argv) {
  uint64_t seed = 1, cases = 200000, fixed_only = 0; int workers = 4; double cap = 600; bool cov = false; std::string out, kfile, replay, rsub, only; int hang = 30, survey = 0, crash_only = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10);
    else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--cap") cap = atof(nx().c_str());
    else if (a == "--cov") cov = true;
    else if (a == "--out") out = nx();
    else if (a == "--known") { std::ifstream f(nx()); std::string l; while (std::getline(f, l)) known().insert(l); }
    else if (a == "--replay") { rsub = nx(); replay = nx(); }
    else if (a == "--only") only = nx();
    else if (a == "--hang") hang = atoi(nx().c_str());
    else if (a == "--fixed-only") fixed_only = 1;
    else if (a == "--crash-only") crash_only = 1;
    else if (a == "--survey") survey = atoi(nx().c_str());
    else if (a == "--list") { for (auto &s : P.subs) puts(s.name.c_str()); return 0; }
  }
  // memory-safety runs: what a call returns is not judged
  if (crash_only) for (auto &s : P.subs) { auto f = s.check; s.check = [f](const Case &c, Out &o) { V v = f(c, o); if (v == FAIL) { o = Out(); v = OK; } return v; }; }
  const int survey_n = getenv("NEX") ? atoi(getenv("NEX")) : 3;
  static uint8_t covbuf[65536]; cov_map = covbuf;
  if (!rsub.empty()) {
    alarm(hang); replaying = true;
    for (auto &s : P.subs) if (s.name == rsub) { Case c = parse_case(replay); Out o; V v = run_check(s, c, o); if (v == FAIL && !(o.kf.size() && known().count(o.kf))) { printf("FAIL %s\n  case: %s\n", o.msg.c_str(), show_case(s, c).c_str()); return 1; } printf("%s %s %s\n", v == FAIL ? "KNOWN" : "PASS", o.kf.c_str(), show_case(s, c).c_str()); return 0; }
    fprintf(stderr, "no sub %s\n", rsub.c_str()); return 2;
  }
  if (!only.empty()) { std::vector<Sub> t; for (auto &s : P.subs) if (s.name.find(only) != std::string::npos) t.push_back(s); P.subs = t; }
  if (survey) { // development aid: failure rate of every sub-check
    for (auto &s : P.subs) {
      fflush(stdout); pid_t p = fork(); if (p) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) printf("  CRASH %s signal %d\n", s.name.c_str(), WTERMSIG(st)); continue; }
      alarm(100); Rng g(seed); uint64_t ev = 0, nf = 0, nt = 0, sk = 0; std::map<std::string, int> kfs, lb;
      auto go = [&](const Case &c) { Out o; V v = s.check(c, o); if (v == SKIP) { sk++; return; } ev++; if (o.label.size()) lb[o.label]++; if (v == OK) nt++; if (v == FAIL && o.kf.size()) { kfs[o.kf]++; return; } if (v == FAIL) { if (nf++ < (uint64_t) survey_n) { Out fo = o; Case k = shrink(s, c, fo, [&](const Case &q, Out &t) { return run_check(s, q, t) == FAIL && t.kf.empty(); }); printf("    %s: %s\n", show_case(s, k).c_str(), fo.msg.c_str()); } } };
      for (auto &c : s.fixed) go(c);
      for (int k = 0; k < survey; k++) { Case c; s.gen(g, c); if (s.use_rm) c.rm = (int) g.below(5); go(c); }
      printf("%-16s evals %llu nontriv %llu skip %llu FAIL %llu", s.name.c_str(), (unsigned long long) ev, (unsigned long long) nt, (unsigned long long) sk, (unsigned long long) nf);
      for (auto &k : kfs) printf(" kf:%s=%d", k.first.c_str(), k.second); if (getenv("LABELS")) for (auto &k : lb) printf(" %s=%d", k.first.c_str(), k.second); puts(""); fflush(stdout); _exit(0);
    }
    return 0;
  }
  Shared *sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const uint64_t BM = 1ULL << 31;
  std::atomic<uint8_t> *bm = (std::atomic<uint8_t> *) mmap(0, BM / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = now();
  long totw = 0; for (auto &s : P.subs) totw += s.weight;
  std::vector<pid_t> pids; std::vector<int> fds;
  fflush(stdout);
  for (int w = 0; w < workers; w++) {
    int pf[2]; if (pipe(pf)) abort();
    pid_t p = fork();
    if (p == 0) {
      close(pf[0]);
      WStat st; Rng g(hstr(P.id) ^ (seed * 0x9e3779b97f4a7c15ULL) ^ ((uint64_t) w << 40) ^ (cov ? 0x5555 : 0));
      uint64_t ev = 0, nt = 0, dis = 0, sk = 0; bool stop = false;
      auto flush = [&]() { sh->evals += ev; sh->nontriv += nt; sh->distinct += dis; sh->skips += sk; ev = nt = dis = sk = 0; };
      auto one = [&](const Sub &s, const Case &c, size_t idx) -> V {
        (void) idx;
        std::string sc = s.name + "\n" + ser(c);
        if (sc.size() < sizeof sh->cur[w]) memcpy(sh->cur[w], sc.c_str(), sc.size() + 1);
        sh->beat[w]++;
        Out o; if (cov) { memset(covbuf, 0, sizeof covbuf); cmp_n = 0; cov_on = true; }
        V v = s.check(c, o);
        cov_on = false;
        if (v == SKIP) { sk++; return v; }
        ev++; st.sube[s.name]++;
        if (!o.label.empty()) st.labels[o.label]++;
        if (v == FAIL) {
          if (!o.kf.empty() && known().count(o.kf)) { if (!st.kf[o.kf]++) st.kfx[o.kf] = show_case(s, c) + ": " + o.msg; v = OK; }
          else {
            if (int z = 0; sh->fail.compare_exchange_strong(z, 1)) {
              Out fo = o;
              Case sc2 = shrink(s, c, fo, [&](const Case &k, Out &t) { std::string q = s.name + "\n" + ser(k); if (q.size() < sizeof sh->cur[w]) memcpy(sh->cur[w], q.c_str(), q.size() + 1); sh->beat[w]++; V x = run_check(s, k, t); return x == FAIL && !(t.kf.size() && known().count(t.kf)); });
              std::string rec = s.name + "\n" + ser(sc2) + "\n" + jesc(show_case(s, sc2)) + "\n" + jesc(fo.msg) + "\n";
              if (rec.size() >= sizeof sh->failrec) rec.resize(sizeof sh->failrec - 1);
              memcpy(sh->failrec, rec.c_str(), rec.size() + 1);
              sh->fail = 2;
            }
            stop = true; return v;
          }
        }
        if (v == OK) {
          nt++; st.subn[s.name]++;
          uint64_t h = hstr(sc) % BM; uint8_t bit = 1 << (h & 7);
          if (!(bm[h >> 3].fetch_or(bit) & bit)) dis++;
          if (st.subn[s.name] == 3 + (uint64_t) w && st.samples.size() < 40) st.samples.push_back(show_case(s, c));
        }
        if ((ev & 1023) == 0) flush();
        return v;
      };
      // enumerated cases, split among workers
      for (auto &s : P.subs) { size_t i = 0; for (auto &c : s.fixed) { if ((int)(i++ % workers) == w) one(s, c, 0); if (stop || sh->fail) break; } if (stop || sh->fail) break; }
      if (!fixed_only) {
        uint8_t *seen = (uint8_t *) calloc(65536, 1);
        auto bucket = [](uint8_t c) -> uint8_t { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; };
        for (size_t si = 0; si < P.subs.size() && !stop && !sh->fail; si++) {
          auto &s = P.subs[(si + w * 7) % P.subs.size()];
          uint64_t n = std::max<uint64_t>(1, cases * s.weight / totw / workers);
          std::vector<Case> corpus;
          if (cov) memset(seen, 0, 65536);
          for (uint64_t k = 0; k < n && !stop; k++) {
            if ((k & 255) == 0 && (sh->fail || now() - t0 > cap)) { if (!sh->fail) st.labels["(stopped by time cap)"]++; break; }
            Case c;
            if (cov && !corpus.empty() && !g.chance(1, 5)) { c = corpus[g.chance(1, 3) ? corpus.size() - 1 - g.below(std::min<size_t>(corpus.size(), 8)) : g.below(corpus.size())]; mutate(g, s, c); }
            else { s.gen(g, c); if (s.use_rm) c.rm = (int) g.below(5); }
            one(s, c, si);
            if (cov) { bool nw = false; for (int i = 0; i < 8192; i++) { uint64_t q; memcpy(&q, covbuf + i * 8, 8); if (q) for (int j = 0; j < 8; j++) { uint8_t b = bucket(covbuf[i * 8 + j]); if (b & ~seen[i * 8 + j]) { if (!seen[i * 8 + j]) st.cov++; seen[i * 8 + j] |= b; nw = true; } } } if (nw && corpus.size() < 5000) { corpus.push_back(c); st.corpus++; } }
          }
        }
      }
      flush();
      std::string r = wstat_ser(st);
      size_t o = 0; while (o < r.size()) { ssize_t k = write(pf[1], r.data() + o, r.size() - o); if (k <= 0) break; o += k; }
      _exit(0);
    }
    close(pf[1]); pids.push_back(p); fds.push_back(pf[0]);
  }
  // collect: read pipes with hang detection
  std::vector<std::string> bufs(workers); std::vector<bool> done(workers, false); std::vector<uint64_t> lb(workers, 0); std::vector<double> lt(workers, now());
  std::string crash; int crashw = -1;
  for (int w = 0; w < workers; w++) { int fl = 1; (void) fl; }
  int left = workers;
  while (left > 0) {
    fd_set fs; FD_ZERO(&fs); int mx = -1; for (int w = 0; w < workers; w++) if (!done[w]) { FD_SET(fds[w], &fs); mx = std::max(mx, fds[w]); }
    struct timeval tv = {0, 200000};
    int k = select(mx + 1, &fs, 0, 0, &tv);
    for (int w = 0; w < workers; w++) if (!done[w]) {
      if (k > 0 && FD_ISSET(fds[w], &fs)) { char b[65536]; ssize_t n = read(fds[w], b, sizeof b); if (n > 0) bufs[w].append(b, n); else { done[w] = true; left--; close(fds[w]); int stt; waitpid(pids[w], &stt, 0); if (WIFSIGNALED(stt) || (WIFEXITED(stt) && WEXITSTATUS(stt))) { if (crash.empty()) { crash = WIFSIGNALED(stt) ? "killed by signal " + std::to_string(WTERMSIG(stt)) + " (" + strsignal(WTERMSIG(stt)) + ")" : "process exited with status " + std::to_string(WEXITSTATUS(stt)); crashw = w; } } } }
      uint64_t bt = sh->beat[w]; if (bt != lb[w]) { lb[w] = bt; lt[w] = now(); }
      else if (!done[w] && now() - lt[w] > hang && bufs[w].empty()) { kill(pids[w], SIGKILL); if (crash.empty()) { crash = "no return within " + std::to_string(hang) + " s"; crashw = w; } lt[w] = now(); }
    }
    if (!crash.empty() && !sh->fail) sh->fail = 3;
  }
  std::map<std::string, uint64_t> labels, sube, subn, kf; std::map<std::string, std::string> kfx; std::vector<std::string> samples; uint64_t cv = 0, co = 0;
  for (auto &b : bufs) { std::istringstream is(b); std::string l; while (std::getline(is, l)) { std::vector<std::string> p; std::istringstream ls(l); std::string t; while (std::getline(ls, t, '\t')) p.push_back(t); if (p.size() < 2) continue;
      if (p[0] == "L") labels[p[1]] += stoull(p[2]); else if (p[0] == "E") sube[p[1]] += stoull(p[2]); else if (p[0] == "N") subn[p[1]] += stoull(p[2]); else if (p[0] == "K") kf[p[1]] += stoull(p[2]); else if (p[0] == "X") { if (!kfx.count(p[1])) kfx[p[1]] = p[2]; } else if (p[0] == "S") samples.push_back(p[1]); else if (p[0] == "C") { uint64_t v = stoull(p[2]); if (p[1] == "cov") cv = std::max(cv, v); else co += v; } } }
  std::string f_sub, f_case, f_show, f_msg;
  if (sh->fail == 1 && crash.empty()) crash = "a failure was met but not recorded", crashw = 0; // cannot happen; never pass silently
  if (sh->fail == 2) { std::istringstream is(sh->failrec); std::getline(is, f_sub); std::getline(is, f_case); std::getline(is, f_show); std::getline(is, f_msg); }
  else if (!crash.empty()) { std::istringstream is(sh->cur[crashw]); std::getline(is, f_sub); std::getline(is, f_case); f_msg = crash; for (auto &s : P.subs) if (s.name == f_sub) f_show = jesc(show_case(s, parse_case(f_case))); }
  std::ostringstream js;
  js << "{\"evaluations\":" << sh->evals << ",\"nontrivial\":" << sh->nontriv << ",\"distinct\":" << sh->distinct << ",\"skipped\":" << sh->skips << ",\"workers\":" << workers << ",\"wall\":" << now() - t0 << ",\"cov_edges\":" << cv << ",\"corpus\":" << co << ",\"rule\":\"" << jesc(P.rule) << "\"";
  auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) { js << ",\"" << n << "\":{"; bool f = true; for (auto &p : m) { js << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } js << "}"; };
  mp("labels", labels); mp("per_sub", sube); mp("per_sub_nontrivial", subn); mp("known", kf);
  js << ",\"known_examples\":{"; { bool f = true; for (auto &p : kfx) { js << (f ? "" : ",") << "\"" << p.first << "\":\"" << p.second << "\""; f = false; } } js << "}";
  js << ",\"samples\":["; for (size_t i = 0; i < samples.size() && i < 60; i++) js << (i ? "," : "") << "\"" << samples[i] << "\""; js << "]";
  if (!f_sub.empty()) js << ",\"failure\":{\"sub\":\"" << f_sub << "\",\"case\":\"" << f_case << "\",\"show\":\"" << f_show << "\",\"msg\":\"" << f_msg << "\",\"crash\":" << (sh->fail == 2 ? "false" : "true") << "}";
  else if (!crash.empty()) js << ",\"error\":\"" << crash << "\"";
  js << "}\n";
  if (out.empty()) fputs(js.str().c_str(), stdout); else { std::ofstream o(out); o << js.str(); }
  return f_sub.empty() && crash.empty() ? 0 : 1;
}
#endif
} // namespace fw
