// C++ stream insertion and extraction of std::decimal types
#define FW_MAIN
#include "../h/util.hpp"
using namespace fw;
extern "C" { void *sx_open(const char *, size_t); void *sx_open_out(void); void sx_close(void *); int sx_getc(void *); void sx_putc(void *, int); void sx_clear(void *); int sx_get(void *, int, void *); int sx_put(void *, int, const void *, int, int, int, int); size_t sx_text(void *, char *, size_t); }
struct St { void *h; St(const std::string &t) : h(sx_open(t.data(), t.size())) {} St() : h(sx_open_out()) {} ~St() { sx_close(h); } std::string text() { std::string r(sx_text(h, nullptr, 0), 0); sx_text(h, &r[0], r.size()); return r; } };
static u128 get(St &s, int b, int &st) { u128 v = 0; st = sx_get(s.h, b, &v); return v; }
static const int MD(int b) { return b == 32 ? 7 : b == 64 ? 16 : 34; }
static const char *LM(int b) { return b == 32 ? "H" : b == 64 ? "D" : "DD"; }
static std::string as_printf(int b, int rm, int fl, int prec, u128 v) {
  bool up = fl & 4; std::string f = "%"; char conv = (fl & 3) == 3 ? 'a' : fl & 1 ? 'f' : fl & 2 ? 'e' : 'g'; if (up) conv -= 32;
  if ((fl & 3) != 3) f += "." + std::to_string(prec < 0 ? 6 : std::min(prec, MD(b)));
  f += LM(b); f += conv; std::string r(8000, 0); int n = shim_snprintf(b, rm, &r[0], r.size(), f.c_str(), v); r.resize(n < 0 ? 0 : n); return r;
}
static std::string pad(const std::string &t, int fl, int width, char fill) { if ((int) t.size() >= width) return t; std::string p(width - t.size(), fill); return fl & 8 ? t + p : p + t; }
static int N(const Case &c, size_t i, int lo, int hi) { i128 v = i < c.n.size() ? c.n[i] : 0; i128 m = hi - lo + 1; v = (v - lo) % m; if (v < 0) v += m; return lo + (int) v; }
static Sub out_sub(int b) {
  Sub s; s.name = nm("insert", b); s.dfmt = {b, b}; s.use_rm = true;
  s.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b), gen_dec(g, b)}; if (g.chance(1, 2)) { Num x = decode(b, c.d[0]); if (x.fin()) { x.q = -(int) g.range(-3, 12) - (g.chance(1, 2) ? ndigu(x.c) : 0); c.d[0] = clampq(b, x); } } c.n = {(i128) g.below(8), g.chance(1, 4) ? -1 : g.range(0, MD(b) + 6), g.chance(1, 2) ? 0 : g.range(0, 60), (i128) g.below(4), g.range(33, 126)}; if (g.chance(1, 40)) c.n[2] = g.range(60, 9000); };
  s.check = [b](const Case &c, Out &o) -> V {
    int fl = N(c, 0, 0, 7), prec = N(c, 1, -1, 60), width = N(c, 2, 0, 9999), adj = N(c, 3, 0, 3), fill = N(c, 4, 33, 126); fl |= adj ? 4 << adj : 0;
    St S; shim_setround(c.rm); u128 v = c.d[0], w = c.d.size() > 1 ? c.d[1] : v; int st = sx_put(S.h, b, &v, fl, prec, width, fill); sx_putc(S.h, '|'); int st2 = sx_put(S.h, b, &w, fl, prec, 0, fill);
    std::string t = S.text(), e = pad(as_printf(b, c.rm, fl, prec, v), fl, width, (char) fill) + "|" + as_printf(b, c.rm, fl, prec, w);
    o.label = std::string((fl & 3) == 3 ? "%a" : fl & 1 ? "%f" : fl & 2 ? "%e" : "%g") + (t.size() > 64 ? " long" : "");
    if (t != e) { o.msg = "stream holds \"" + t + "\", expected \"" + e + "\""; return FAIL; }
    if (st || st2) { o.msg = "stream state is " + std::to_string(st) + " after an insertion"; return FAIL; }
    return decode(b, v).fin() && decode(b, v).c ? OK : TRIVIAL; };
  return s;
}
static std::string numtext(Rng &g, const Fmt &f) {
  std::string t; if (g.chance(1, 3)) t += g.chance(2, 3) ? "-" : "+";
  if (g.chance(1, 12)) { static const char *const w[] = {"inf", "INF", "Infinity", "infinity", "nan", "NaN", "nan(12a_)", "nan()", "INFINITY"}; return t + w[g.below(9)]; }
  int nd = g.chance(1, 8) ? g.range(1, 200) : g.range(1, f.p + 3), pt = g.chance(1, 2) ? g.range(0, nd) : -1; for (int i = 0; i < nd; i++) { if (i == pt) t += '.'; t += (char) ('0' + (g.chance(1, 5) ? 0 : g.below(10))); } if (pt == nd) t += '.';
  if (g.chance(1, 2)) { t += g.chance(1, 2) ? 'e' : 'E'; if (g.chance(1, 2)) t += g.chance(1, 2) ? '-' : '+'; t += std::to_string(g.chance(1, 2) ? g.below(20) : g.below((uint64_t) f.emax + 30)); }
  return t;
}
// a sequence of well-formed numbers, each followed by white space, another delimiter or a sign; every number is read, and exactly its characters
static bool starts(const std::string &s, size_t i) { if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t k = i; while (k < s.size() && (isdigit((unsigned char) s[k]) || s[k] == '.') ) { if (isdigit((unsigned char) s[k])) return true; k++; if (k - i > 1) break; } return false; }
static size_t token(const std::string &s, size_t i) { // length of the number at i, 0 if there is none; strtod's grammar
  size_t k = i; if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
  auto word = [&](const char *w) { size_t n = strlen(w); if (k + n > s.size()) return false; for (size_t j = 0; j < n; j++) if ((s[k + j] | 32) != w[j]) return false; return true; };
  if (word("infinity")) return k + 8 - i; if (word("inf")) return k + 3 - i;
  if (word("nan")) { size_t j = k + 3; if (j < s.size() && s[j] == '(') { j++; while (j < s.size() && (isalnum((unsigned char) s[j]) || s[j] == '_')) j++; if (j < s.size() && s[j] == ')') return j + 1 - i; return k + 3 - i; } return k + 3 - i; }
  bool dig = false, pt = false; while (k < s.size() && (isdigit((unsigned char) s[k]) || (s[k] == '.' && !pt))) { if (s[k] == '.') pt = true; else dig = true; k++; } if (!dig) return 0;
  if (k < s.size() && (s[k] | 32) == 'e') { size_t j = k + 1; if (j < s.size() && (s[j] == '+' || s[j] == '-')) j++; if (j < s.size() && isdigit((unsigned char) s[j])) { while (j < s.size() && isdigit((unsigned char) s[j])) j++; k = j; } }
  return k - i;
}
static bool ambiguous(const std::string &s, size_t i, size_t n) { // a reader that looks one character ahead cannot tell that the number ends here
  if (i + n >= s.size()) return false; char c = s[i + n]; bool w = isalpha((unsigned char) s[i + n - 1]) || s[i + n - 1] == ')';
  if (w) return isalpha((unsigned char) c) || c == '(' || c == '_' || isdigit((unsigned char) c); return (c | 32) == 'e'; }
static Sub in_sub(int b) {
  const Fmt &f = fmt_of(b); Sub s; s.name = nm("extract", b); s.use_rm = true; s.alphabet = "0123456789.eE+- \n,;infa()";
  s.gen = [&f](Rng &g, Case &c) { int n = g.range(1, 6); for (int i = 0; i < n; i++) { if (g.chance(1, 6)) c.s += g.chance(1, 2) ? " " : "\t\n "; c.s += numtext(g, f); static const char *const dl[] = {" ", " ", " ", "\n", "\t", ",", ";", ":", "/", "|", " , ", "=", "#", ")", "_", "", "  "}; c.s += dl[g.below(17)]; } if (g.chance(1, 10)) c.s.insert(g.below(c.s.size() + 1), 1, "x,$% e.-+"[g.below(9)]); };
  s.check = [b](const Case &c, Out &o) -> V {
    St S(c.s); const std::string &t = c.s; size_t i = 0; int read = 0;
    for (int k = 0; k < 40; k++) {
      while (i < t.size() && strchr(" \t\n\v\f\r", t[i]) && t[i]) i++;
      size_t n = i < t.size() ? token(t, i) : 0;
      if (!n) { // nothing to read
        int st; if (i < t.size() && (starts(t, i) || isalpha((unsigned char) t[i]) || t[i] == '+' || t[i] == '-' || t[i] == '.' || !t[i])) return read > 1 ? OK : TRIVIAL; // a broken number
        get(S, b, st); if (!(st & 2)) { o.msg = "no failbit although no number follows"; return FAIL; }
        if (i >= t.size()) return read > 1 ? OK : TRIVIAL;
        sx_clear(S.h); int ch = sx_getc(S.h); if (ch != (unsigned char) t[i]) { o.msg = "after a failed read the next character is " + std::to_string(ch) + ", expected '" + t[i] + "'"; return FAIL; } i++; continue; }
      if (ambiguous(t, i, n)) return read > 1 ? OK : TRIVIAL;
      long used; int err, fl2; std::string w = t.substr(i, n); u128 e = shim_strtod(b, c.rm, w.c_str(), &used, &err, &fl2); if (used != (long) n) return SKIP;
      int st; shim_setround(c.rm); u128 v = get(S, b, st);
      if (v != e) { o.msg = "number " + std::to_string(read + 1) + ", \"" + w + "\", read as " + str(decode(b, v)) + ", expected " + str(decode(b, e)); return FAIL; }
      if (st & 6) { o.msg = "stream failed on \"" + w + "\""; return FAIL; }
      i += n; read++; o.label = std::to_string(std::min(read, 6)) + " numbers";
      if (i >= t.size()) { get(S, b, st); if (!(st & 2)) { o.msg = "no failbit at the end of the stream"; return FAIL; } return read > 1 ? OK : TRIVIAL; }
      if (strchr(" \t\n\v\f\r", t[i]) || t[i] == '+' || t[i] == '-' || t[i] == '.' || isdigit((unsigned char) t[i])) continue; // the next number follows at once
      int ch = sx_getc(S.h); if (ch != (unsigned char) t[i]) { o.msg = "after \"" + w + "\" the next character is " + std::to_string(ch) + ", expected '" + t[i] + "'"; return FAIL; } i++;
    }
    return OK; };
  s.show = [b](const Case &c) { return nm("extract", b) + " from \"" + c.s + "\" in FE_DEC_" + rm_name[c.rm]; };
  return s;
}
static Sub trip_sub(int b) {
  Sub s; s.name = nm("roundtrip", b); s.dfmt = {b, b, b}; s.use_rm = true;
  s.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b), gen_dec(g, b), gen_dec(g, b)}; c.n = {(i128) g.below(2)}; };
  s.check = [b](const Case &c, Out &o) -> V {
    St S; shim_setround(c.rm); for (u128 v : c.d) { sx_put(S.h, b, &v, 3 | (N(c, 0, 0, 1) ? 4 : 0), -1, 0, ' '); sx_putc(S.h, ' '); }
    for (size_t i = 0; i < c.d.size(); i++) { int st; u128 v = get(S, b, st); Num x = decode(b, c.d[i]), y = decode(b, v); if (st & 6) { o.msg = "stream failed on number " + std::to_string(i + 1) + " of \"" + S.text() + "\""; return FAIL; }
      if (x.nan() ? !y.nan() : v != encode(b, x)) { o.msg = "number " + std::to_string(i + 1) + " of \"" + S.text() + "\" read as " + str(y) + ", was " + str(x); return FAIL; } }
    return decode(b, c.d[0]).fin() ? OK : TRIVIAL; };
  return s;
}
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : "";
  for (int b : {32, 64, 128}) { P.subs.push_back(out_sub(b)); P.subs.push_back(in_sub(b)); P.subs.push_back(trip_sub(b)); }
  return run_main(P, argc - 1, argv + 1);
}
