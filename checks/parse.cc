// strtod / wcstod: correct rounding, syntax, end pointer, errno, wide = narrow
#define FW_MAIN
#include "../h/util.hpp"
#include <cctype>
using namespace fw;

struct Parsed { size_t used = 0; bool neg = false; int kind = 0 /* 0 none 1 number 2 inf 3 nan */; std::string digits; int q = 0; bool hugeexp = false; bool zero = true; };
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool ipre(const std::string &s, size_t i, const char *w) { for (; *w; w++, i++) if (i >= s.size() || lower((unsigned char) s[i]) != *w) return false; return true; }
// The subject sequence of C23 7.24.2.6 (decimal floating types) in the C locale.
static Parsed parse(const std::string &s) {
  Parsed r; size_t i = 0;
  while (i < s.size() && strchr(" \t\n\v\f\r", s[i]) && s[i]) i++;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) { r.neg = s[i] == '-'; i++; }
  if (ipre(s, i, "inf")) { r.kind = 2; r.used = i + (ipre(s, i, "infinity") ? 8 : 3); return r; }
  if (ipre(s, i, "nan")) { r.kind = 3; i += 3; r.used = i; if (i < s.size() && s[i] == '(') { size_t j = i + 1; while (j < s.size() && (isalnum((unsigned char) s[j]) || s[j] == '_')) j++; if (j < s.size() && s[j] == ')') r.used = j + 1; } return r; }
  std::string d; int nd = 0, frac = 0; bool pt = false;
  for (; i < s.size(); i++) { char c = s[i]; if (c >= '0' && c <= '9') { d += c; nd++; if (pt) frac++; } else if (c == '.' && !pt) pt = true; else break; }
  // a trailing point after digits belongs to the number; a lone point does not start one
  if (!nd) return r;
  r.kind = 1; r.used = i; long e = 0;
  if (i < s.size() && lower(s[i]) == 'e') { size_t j = i + 1; bool en = false; if (j < s.size() && (s[j] == '-' || s[j] == '+')) { en = s[j] == '-'; j++; }
    if (j < s.size() && isdigit((unsigned char) s[j])) { while (j < s.size() && isdigit((unsigned char) s[j])) { if (e < 100000000) e = e * 10 + (s[j] - '0'); j++; } if (en) e = -e; r.used = j; } }
  r.digits = d; r.q = (int) std::max(-400000000L, std::min(400000000L, e)) - frac;
  for (char c : d) if (c != '0') r.zero = false;
  return r;
}
static int adjusted(const Parsed &p) { size_t z = p.digits.find_first_not_of('0'); return p.q + (int) (p.digits.size() - z) - 1; }
// correctly rounded value
static Num value(const Fmt &f, const Parsed &p, int rm, int *fl, bool *fits) {
  *fits = true;
  if (p.kind == 2) return mkinf(p.neg);
  if (p.kind == 3) return mknan();
  std::string d = p.digits; size_t z = 0; while (z < d.size() && d[z] == '0') z++; d = d.substr(z);
  int q = p.q;
  if (d.empty()) { *fits = q >= f.qmin && q <= f.qmax; return mk(p.neg, 0, std::min(std::max(q, f.qmin), f.qmax)); }
  *fits = (int) d.size() <= f.p && q >= f.qmin && q <= f.qmax;
  bool st = false; if (d.size() > 90) { for (size_t i = 90; i < d.size(); i++) if (d[i] != '0') st = true; q += (int) d.size() - 90; d.resize(90); }
  q = std::min(std::max(q, -30000), 30000);
  Int c = 0; for (char ch : d) c = c * 10 + (ch - '0');
  return round_to(f, p.neg, c, q, st, rm, q, fl);
}
static std::string gen_digits(Rng &g, int n) { std::string s; int mode = (int) g.below(6); for (int i = 0; i < n; i++) { char c = '0' + (char) g.below(10); if (mode == 0) c = '9'; else if (mode == 1) c = '0'; else if (mode == 2) c = g.chance(1, 8) ? c : '0'; else if (mode == 3) c = g.chance(1, 8) ? c : '9'; s += c; } return s; }
static std::string gen_num(Rng &g, const Fmt &f, bool longs) { // a number, biased to rounding boundaries
  std::string d;
  if (g.chance(1, 30)) d = std::string(g.range(1, 5), '0');
  else {
    int n = g.chance(1, 3) ? f.p : g.range(1, f.p);
    u128 v = digits_pattern(g, n); d = u2s(v);
    if (g.chance(2, 5)) { // tail beyond the precision
      if ((int) d.size() < f.p && g.chance(3, 4)) d = gen_digits(g, f.p - (int) d.size()) + d;
      switch (g.below(6)) { case 0: d += "5"; break; case 1: d += "5" + std::string(g.range(0, longs ? 400 : 20), '0') + (g.chance(1, 2) ? "1" : ""); break; case 2: d += "4" + std::string(g.range(0, longs ? 400 : 20), '9'); break; case 3: d += std::string(g.range(0, longs ? 400 : 30), '0') + (g.chance(1, 2) ? "1" : "0"); break; case 4: d += gen_digits(g, g.range(1, longs ? 300 : 30)); break; default: d += gen_digits(g, g.range(1, 4)); }
    }
    if (g.chance(1, 6)) d = std::string(g.range(1, longs ? 300 : 12), '0') + d;
    if (g.chance(1, 8)) d += std::string(g.range(1, longs ? 500 : 12), '0');
  }
  // place the point, then choose the exponent so that the adjusted exponent is where we want it
  int n = (int) d.size(), pt = g.chance(1, 3) ? n : g.range(0, n); size_t nz = d.find_first_not_of('0'); int lead = nz == std::string::npos ? 0 : (int) nz;
  std::string s = d; bool point = false;
  if (pt < n || g.chance(1, 10)) { s.insert(pt, "."); point = true; if (pt == 0 && g.chance(2, 3)) s = "0" + s; }
  if (point && g.chance(1, 12)) { s.insert(s.find('.') + 1, std::string(g.range(1, longs ? 400 : 10), '0')); }
  int adj; // wanted exponent of the last digit
  bool want_exp = true; int q0 = -(int)(s.find('.') == std::string::npos ? 0 : s.size() - s.find('.') - 1);
  int sig = n - lead;
  switch (g.below(9)) {
    case 0: case 1: want_exp = false; adj = 0; break;
    case 2: adj = f.qmin - g.range(-3, 3) ; break;
    case 3: adj = f.qmin - sig + g.range(-2, 4); break;
    case 4: adj = f.qmax + f.p - sig + g.range(-3, 3); break;
    case 5: adj = g.range(f.qmin - f.p, f.qmax + f.p); break;
    case 6: adj = f.qmin - g.range(0, f.p + 2) - std::max(0, sig - f.p); break;
    case 7: adj = f.qmax - g.range(0, f.p); break;
    default: adj = q0 + g.range(-20, 20);
  }
  if (want_exp) { int e = adj - q0; if (g.chance(1, 25)) e = g.chance(1, 2) ? g.range(100000, 2000000000) : -g.range(100000, 2000000000); s += g.chance(1, 2) ? "e" : "E"; if (e < 0) { s += "-"; e = -e; } else if (g.chance(1, 3)) s += "+"; if (g.chance(1, 10)) s += std::string(g.range(1, 12), '0'); s += std::to_string(e); if (g.chance(1, 60)) s += gen_digits(g, g.range(1, 20)); }
  if (g.chance(1, 2)) s = (g.chance(3, 4) ? "-" : "+") + s;
  return s;
}
static const char AL[] = "0123456789012345678900000999955555eE+-..,infinityINFNANan()_xX \t\npP";
static std::string gen_syntax(Rng &g, const Fmt &f) {
  std::string s;
  static const char *piece[] = {"inf", "infinity", "INFINITY", "InF", "nan", "NAN", "nan(", "nan()", "nan(123)", "nan(a_9Z)", "nan(12", "infinit", "infin", "in", "na", ".", "..", "e", "e+", "E-", "1e", "1e+", "1.e5", ".5", ".e1", "0x10", "0x1p3", "+", "-", "+-1", "--1", "1,234", "0", "00", "0.", ".0", "0e", "0e5", "0.0e-7", "1 2", "1e5.5", "1e 5", "1.2.3", "\xa0""1", "1e00000000000000000005", "1_000", "0b1"};
  if (g.chance(1, 4)) s += std::string(g.range(1, 3), " \t\n\v\f\r"[g.below(6)]);
  switch (g.below(4)) {
    case 0: s += g.chance(1, 3) ? "-" : ""; s += piece[g.below(sizeof piece / sizeof *piece)]; break;
    case 1: s += gen_num(g, f, false); s += piece[g.below(sizeof piece / sizeof *piece)]; break;
    case 2: { int n = g.range(0, 12); while (n--) s += AL[g.below(sizeof AL - 1)]; break; }
    default: s += gen_num(g, f, false); { int k = g.range(1, 3); while (k-- && !s.empty()) { size_t i = g.below(s.size()); if (g.chance(1, 2)) s[i] = AL[g.below(sizeof AL - 1)]; else if (g.chance(1, 2)) s.insert(i, 1, AL[g.below(sizeof AL - 1)]); else s.erase(i, 1); } }
  }
  if (g.chance(1, 3)) s += AL[g.below(sizeof AL - 1)];
  return s;
}
static std::string cz(const std::string &s) { return s.substr(0, s.find('\0')); }
static V check_str(int b, const Case &c, Out &o, bool wide, bool syntax) {
  const Fmt &f = fmt_of(b); std::string s = cz(c.s); Parsed p = parse(s);
  int fl = 0; bool fits; long used; int err, flags; u128 r;
  u128 r0; int err0, flags0; bool both = !(s.size() % 4); // one string in four is also read with a null end pointer
  if (wide) { std::wstring w; for (unsigned char ch : s) w += (wchar_t) ch; r = shim_wcstod(b, c.rm, w.c_str(), &used, &err, &flags); if (both) r0 = shim_wcstod(b, c.rm, w.c_str(), 0, &err0, &flags0); }
  else { r = shim_strtod(b, c.rm, s.c_str(), &used, &err, &flags); if (both) r0 = shim_strtod(b, c.rm, s.c_str(), 0, &err0, &flags0); }
  if (both && (r0 != r || err0 != err)) { o.msg = "with a null end pointer gives " + str(decode(b, r0)) + " (errno " + std::to_string(err0) + ") instead of " + str(decode(b, r)) + " (errno " + std::to_string(err) + ")"; return FAIL; }
  if (used != (long) p.used) { o.msg = "end pointer at " + std::to_string(used) + ", expected " + std::to_string(p.used); return FAIL; }
  Num g = decode(b, r);
  if (p.kind == 0) { o.label = "no number"; if (!g.zero() || g.neg) { o.msg = "no conversion but result " + str(g); return FAIL; } return syntax ? OK : TRIVIAL; }
  Num e = value(f, p, c.rm, &fl, &fits);
  o.label = p.kind == 2 ? "infinity" : p.kind == 3 ? "nan" : p.zero ? "zero" : fl & FL_OVF ? "overflow" : fl & FL_UNF ? "underflow" : fl & FL_INX ? "rounded" : "exact";
  if (p.kind == 3) return want_nan(o, b, r) ? (syntax ? OK : TRIVIAL) : FAIL;
  if (fl & FL_OVF) { // HUGE_VAL, or the largest finite number in a directed mode
    Num h = mkinf(p.neg); if (!same_val(g, h) && !same_val(g, e)) { o.msg = "overflow gave " + str(g); return FAIL; }
    if (err != ERANGE) { o.msg = "overflow without ERANGE (errno " + std::to_string(err) + ")"; return FAIL; } return OK; }
  if (p.kind == 1 && !p.zero && p.q < f.qmin && adjusted(p) < f.emin && g.zero() && g.neg == p.neg) { if (err != ERANGE) { o.msg = "underflow to zero without ERANGE"; return FAIL; } return OK; } // flushing is allowed (and pinned by test-strtod)
  if (!want(o, b, r, e)) return FAIL;
  if (p.kind == 1 && fits && g.q != e.q) { o.msg = "quantum of " + str(g) + " differs from the one written, " + str(e); return FAIL; }
  if (fl & FL_UNF) { if (err != 0 && err != ERANGE) { o.msg = "errno " + std::to_string(err); return FAIL; } if (g.zero() && err != ERANGE) { o.msg = "underflow to zero without ERANGE"; return FAIL; } }
  else if (err) { o.msg = "errno " + std::to_string(err) + " set by an in-range conversion"; return FAIL; }
  if (r != encode(b, g)) { o.msg = "result is not canonical: " + hex(b, r); return FAIL; }
  return syntax ? (p.used < s.size() || p.kind != 1 ? OK : TRIVIAL) : p.zero ? TRIVIAL : OK;
}
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : "";
  if (P.id == "turkish") turkish();
  for (int b : {32, 64, 128}) { const Fmt &f = fmt_of(b);
    auto add = [&](const char *n, bool wide, bool syntax, int wt) { Sub s; s.name = nm(n, b); s.use_rm = true; s.weight = wt; s.alphabet = syntax ? AL : "0123456789012345678900009999555eE+-.";
      s.gen = [&f, syntax](Rng &g, Case &c) { c.s = syntax ? gen_syntax(g, f) : gen_num(g, f, g.chance(1, 4)); };
      s.check = [b, wide, syntax](const Case &c, Out &o) { return check_str(b, c, o, wide, syntax); };
      s.show = [n, b](const Case &c) { std::string t; char q[8]; for (unsigned char ch : c.s) if (ch < 32 || ch > 126) { snprintf(q, 8, "\\x%02x", ch); t += q; } else t += ch; return nm(n, b) + "(\"" + t + "\") in FE_DEC_" + rm_name[c.rm]; };
      P.subs.push_back(s); };
    if (P.id == "round") add("strtod", false, false, 1);
    if (P.id == "wide") { add("wcstod", true, false, 1); add("wcstod_syntax", true, true, 1); }
    if (P.id == "turkish") { add("wcstod_syntax", true, true, 1); add("strtod_syntax", false, true, 1); }
    if (P.id == "syntax") add("strtod_syntax", false, true, 1);
  }
  return run_main(P, argc - 1, argv + 1);
}
