// Memory safety and termination: arbitrary bits and sizes against the address- and undefined-behaviour-sanitised build
#define FW_MAIN
#include "../h/calls.hpp"
#include <vector>
#include <memory>
using namespace fw;
static int N(const Case &c, size_t i, int lo, int hi) { i128 v = i < c.n.size() ? c.n[i] : 0; i128 m = hi - lo + 1; v = (v - lo) % m; if (v < 0) v += m; return lo + (int) v; }
// results may be anything; the sanitizers, the canaries and the watchdog decide
static V any_call(const Case &c, Out &o) { Call k = get_call(c, 0); Res r; run(k, r); o.label = k.op >= 0 ? "function" : "string conversion"; return OK; }
static std::string convspec(const Case &c, int b) {
  static const char *const fl[] = {"", "+", " ", "#", "0", "-", "'", "+#", "0'", "-+#", "0+ ", "I"}; static const char cv[] = "aAeEfFgG";
  std::string s = "%"; s += fl[(size_t) N(c, 0, 0, 11)]; i128 w = N(c, 1, -1, 12000), p = N(c, 2, -2, 12000); if (w >= 0) s += i2s(w); if (p == -2) s += "."; else if (p >= 0) s += "." + i2s(p);
  s += b == 32 ? "H" : b == 64 ? "D" : "DD"; s += cv[(size_t) N(c, 3, 0, 7)]; return s; }
static void gen_print(Rng &g, Case &c, int b) {
  u128 v = g.chance(1, 4) ? (u128) g.u() << 64 | g.u() : gen_dec(g, b); if (b == 32) v = (uint32_t) v; else if (b == 64) v = (uint64_t) v;
  auto len = [&](int lo) -> i128 { switch (g.below(6)) { case 0: case 1: return lo; case 2: return (i128) g.below(5); case 3: return (i128) g.below(80); case 4: return (i128) g.below(500); default: return g.chance(1, 4) ? (i128) g.below(12000) : (i128) g.below(1200); } };
  c.d = {v}; c.n = {(i128) g.below(12), len(-1), len(g.chance(1, 8) ? -2 : -1), (i128) g.below(8), g.chance(1, 3) ? (i128) g.below(60) : g.chance(1, 2) ? (i128) g.below(8000) : 0}; }
static V print_exact(const Case &c, Out &o, int b, int kind) { // a block of exactly n characters, and the right one for it all
  std::string f = convspec(c, b); size_t cap = (size_t) N(c, 4, 0, 20000); u128 v = c.d.empty() ? 0 : c.d[0]; if (b == 32) v = (uint32_t) v; else if (b == 64) v = (uint64_t) v; o.label = std::string(1, f.back());
  if (kind == 2) { // strfrom takes only %[.precision]conversion
    std::string g = "%"; i128 p = N(c, 2, -2, 12000); if (p >= 0) g += "." + i2s(p); g += f.back(); f = g; }
  if (kind == 1) {
    std::wstring w(f.begin(), f.end()); std::unique_ptr<wchar_t[]> m(new wchar_t[cap ? cap : 1]); int n = shim_swprintf(b, c.rm, m.get(), cap, w.c_str(), v);
    if (n >= 0 && (size_t) n >= cap) { o.msg = "swprintf of " + f + " into " + std::to_string(cap) + " wide characters returned " + std::to_string(n); return FAIL; }
    if (n >= 0 && wmemchr(m.get(), 0, (size_t) n + 1) != m.get() + n) { o.msg = "swprintf of " + f + " returned " + std::to_string(n) + ", which is not where its text ends"; return FAIL; }
    return OK; }
  auto call = [&](char *p, size_t n) { return kind == 2 ? shim_strfrom(b, c.rm, p, n, f.c_str(), v) : shim_snprintf(b, c.rm, p, n, f.c_str(), v); };
  std::unique_ptr<char[]> m(new char[cap ? cap : 1]); memset(m.get(), 'Z', cap ? cap : 1); int n = call(m.get(), cap);
  if (n < 0 || n > 40000) { o.msg = f + " returned " + std::to_string(n); return FAIL; }
  if (!cap && m[0] != 'Z') { o.msg = f + " wrote to a buffer of size 0"; return FAIL; }
  if (cap) { size_t want = std::min<size_t>(cap - 1, (size_t) n); if (memchr(m.get(), 0, cap) != m.get() + want) { o.msg = f + " returned " + std::to_string(n) + ", but a buffer of " + std::to_string(cap) + " is not terminated at " + std::to_string(want); return FAIL; } }
  std::unique_ptr<char[]> x(new char[(size_t) n + 1]); int k = call(x.get(), (size_t) n + 1); if (k != n || memchr(x.get(), 0, (size_t) n + 1) != x.get() + n) { o.msg = f + " into exactly " + std::to_string(n + 1) + " characters returned " + std::to_string(k); return FAIL; }
  return OK; }
static Sub print_sub(int b, int kind) { Sub s; s.name = nm(kind == 0 ? "snprintf" : kind == 1 ? "swprintf" : "strfrom", b); s.dfmt = {b}; s.use_rm = true; s.weight = kind == 1 ? 1 : 2; s.gen = [b](Rng &g, Case &c) { gen_print(g, c, b); }; s.check = [b, kind](const Case &c, Out &o) { return print_exact(c, o, b, kind); };
  s.show = [b, kind](const Case &c) { return nm(kind == 0 ? "snprintf" : kind == 1 ? "swprintf" : "strfrom", b) + "(" + convspec(c, b) + ") of " + str(decode(b, c.d.empty() ? 0 : c.d[0])) + " size " + i2s(N(c, 4, 0, 20000)); }; return s; }
static std::string soup(Rng &g) { // text: numbers, long runs, words and rubbish
  std::string s; int n = g.range(0, 6); static const char *const bits[] = {"inf", "INFINITY", "nan(", "nan", "0x1", "e+", "E-", "e999999999999", "e-99999", ".", "..", ",", "-", "+", " ", "\t\n", "(", ")", "_", "1", "9.99", "0", "\xff", "\xc3\xa9", "infinit", "i", "n", "nan(12", "nan()", "1e"};
  for (int i = 0; i < n; i++) switch (g.below(5)) { case 0: s += bits[g.below(sizeof bits / sizeof *bits)]; break; case 1: s += std::string(g.range(1, g.chance(1, 8) ? 6000 : 60), "0951"[g.below(4)]); break; case 2: { int m = g.range(1, 45); for (int j = 0; j < m; j++) s += (char) ('0' + g.below(10)); break; } case 3: s += bits[g.below(sizeof bits / sizeof *bits)]; break; default: if (g.chance(1, 3)) s += (char) g.range(1, 255); else s += "e" + std::to_string(g.range(-7000, 7000)); }
  return s; }
static V read_exact(const Case &c, Out &o, int b, bool wide) {
  std::string t = c.s; size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z); long used = 0; int err = 0, fl = 0;
  if (wide) { std::unique_ptr<wchar_t[]> m(new wchar_t[t.size() + 1]); for (size_t i = 0; i < t.size(); i++) { unsigned char ch = (unsigned char) t[i]; m[i] = ch < 128 ? ch : (wchar_t) (0x660 + ch * 977); } m[t.size()] = 0; shim_wcstod(b, c.rm, m.get(), &used, &err, &fl); }
  else { std::unique_ptr<char[]> m(new char[t.size() + 1]); memcpy(m.get(), t.c_str(), t.size() + 1); shim_strtod(b, c.rm, m.get(), &used, &err, &fl); }
  if (used < 0 || (size_t) used > t.size()) { o.msg = "the end pointer is " + std::to_string(used) + " characters into a string of " + std::to_string(t.size()); return FAIL; }
  o.label = used ? "number" : "no number"; return used ? OK : TRIVIAL; }
static Sub read_sub(int b, bool wide) { Sub s; s.name = nm(wide ? "wcstod" : "strtod", b); s.use_rm = true; s.weight = wide ? 1 : 2; s.alphabet = "0123456789.eE+-naifty()_ ,"; s.gen = [](Rng &g, Case &c) { c.s = soup(g); }; s.check = [b, wide](const Case &c, Out &o) { return read_exact(c, o, b, wide); };
  s.show = [b, wide](const Case &c) { return nm(wide ? "wcstod" : "strtod", b) + " of \"" + c.s.substr(0, 300) + "\" (" + std::to_string(c.s.size()) + " characters)"; }; return s; }
// ---- memory kept: every block a call allocates is freed again when it returns
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
static __thread bool armed; static __thread long live, made;
#ifndef __SANITIZE_ADDRESS__
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); if (armed && p) { live++; made++; } return p; }
void free(void *p) { if (armed && p) live--; __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (armed && p) { live++; made++; } return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (armed) { if (!q && p) { live++; made++; } else if (q && !n) live--; } return p; }
}
#endif
static long kept_once(const std::function<void()> &f) { live = 0; armed = true; f(); armed = false; return live; }
static V kept(Out &o, const std::function<void()> &f) {
  made = 0; long k = kept_once(f); bool any = made > 0;
  if (k > 0) { bool all = true; long n = 0; for (int i = 0; i < 6 && all; i++) { long r = kept_once(f); n += r; if (r <= 0) all = false; } if (all) { o.msg = std::to_string(n) + " blocks of memory are still allocated after 6 calls"; return FAIL; } }
  o.label += any ? ", allocates" : ""; return any ? OK : TRIVIAL; }
static char kb[200000]; static wchar_t kw[40000];
static V leak_call(const Case &c, Out &o) { Call k = get_call(c, 0); Res r; run(k, r); o.label = k.op >= 0 ? "function" : "string conversion"; return kept(o, [&] { run(k, r); }); }
static V leak_print(const Case &c, Out &o, int b, int kind) { std::string f = convspec(c, b); u128 v = c.d.empty() ? 0 : c.d[0]; if (b == 32) v = (uint32_t) v; else if (b == 64) v = (uint64_t) v; o.label = kind == 0 ? "print" : kind == 1 ? "wide print" : "strfrom"; std::wstring w(f.begin(), f.end());
  if (kind == 2) { std::string g = "%"; i128 p = N(c, 2, -2, 12000); if (p >= 0) g += "." + i2s(p); g += f.back(); f = g; } const char *fc = f.c_str(); const wchar_t *wc = w.c_str();
  return kept(o, [&] { if (kind == 0) shim_snprintf(b, c.rm, kb, sizeof kb, fc, v); else if (kind == 1) shim_swprintf(b, c.rm, kw, 40000, wc, v); else shim_strfrom(b, c.rm, kb, sizeof kb, fc, v); }); }
static V leak_read(const Case &c, Out &o, int b, bool wide) { std::string t = c.s; size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z); std::wstring w; for (unsigned char ch : t) w += (wchar_t) ch; long used; int e, fl; o.label = wide ? "wcstod" : "strtod";
  return kept(o, [&] { long *u = t.size() % 2 ? &used : 0; if (wide) shim_wcstod(b, c.rm, w.c_str(), u, &e, &fl); else shim_strtod(b, c.rm, t.c_str(), u, &e, &fl); }); }
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : ""; init_pool();
  Sub s; s.name = "calls"; s.weight = 12; s.check = any_call; s.show = show_calls;
  s.gen = [](Rng &g, Case &c) { gen_call(g, c); if (g.chance(1, 3)) for (u128 &v : c.d) v = (u128) g.u() << 64 | g.u(); if (g.chance(1, 6)) { static const i128 ext[] = {INT32_MIN, INT32_MAX, INT64_MIN, INT64_MAX, 0, -1, (i128) 1 << 126, -((i128) 1 << 126), 6144, -6176, 398, -398, 12345678}; c.n[2] = ext[g.below(13)]; } };
  P.subs.push_back(s);
  for (int b : {32, 64, 128}) { for (int k = 0; k < 3; k++) P.subs.push_back(print_sub(b, k)); P.subs.push_back(read_sub(b, false)); P.subs.push_back(read_sub(b, true)); }
  if (P.id == "kept") { turkish();
    for (Sub &s : P.subs) { int b = s.name.find("32") != std::string::npos ? 32 : s.name.find("64") != std::string::npos ? 64 : 128; std::string n = s.name;
      if (n == "calls") s.check = leak_call; else if (n[0] == 'w') s.check = [b](const Case &c, Out &o) { return leak_read(c, o, b, true); }; else if (n.find("strtod") == 0) s.check = [b](const Case &c, Out &o) { return leak_read(c, o, b, false); };
      else { int k = n.find("snprintf") == 0 ? 0 : n.find("swprintf") == 0 ? 1 : 2; s.check = [b, k](const Case &c, Out &o) { return leak_print(c, o, b, k); }; } } }
  return run_main(P, argc - 1, argv + 1);
}
