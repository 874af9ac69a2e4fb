// printf family for decimals: digits, layout, count, strfrom, print -> parse
#define FW_MAIN
#include "../h/util.hpp"
#include <charconv>
#include <climits>
#include <clocale>
using namespace fw;

enum { F_MINUS = 1, F_PLUS = 2, F_SPACE = 4, F_ALT = 8, F_ZERO = 16, F_GROUP = 32 };
static const char CONV[] = "fegaFEGA";
// current locale; g_grp: the group sizes from the right, the last one repeats unless a 0 follows
static std::string g_point = ".", g_sep = ""; static std::vector<int> g_grp; static std::wstring g_wpoint = L".", g_wsep;
static bool g_loc = false;
struct Loc { const char *name, *point, *sep; std::vector<int> grp; locale_t h; };
static std::vector<Loc> g_locs;
static const Loc LOCS[] = { {"da_DK", ",", ".", {3}, 0}, {"fr_FR", ",", "\u202f", {3}, 0}, {"ps_AF", "\u066b", "\u066c", {3}, 0}, {"c0", ".", ",", {3, 2}, 0}, {"c1", "\u00b7", "_", {2, 3, 0}, 0}, {"c2", ".", "\u2019", {4, 1, 3}, 0} };
static std::wstring widen(const std::string &s) { std::wstring w; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : 2; wchar_t v = n == 0 ? c : n == 1 ? c & 31 : c & 15; for (i++; n--; i++) v = v << 6 | (s[i] & 63); w += v; } return w; }
static bool sep_before(size_t left) { // a separator before the digit that has left-1 digits after it
  size_t sum = 0; for (size_t i = 0;; i++) { int w = g_grp[i < g_grp.size() ? i : g_grp.size() - 1]; if (!w) return false; sum += w; if (left <= sum) return left == sum; } }
static void use_loc(i128 k) { if (g_locs.empty()) return; int i = (int) (k % (i128) g_locs.size()); if (i < 0) i += g_locs.size(); const Loc &l = g_locs[i]; g_loc = true; g_point = l.point; g_sep = l.sep; g_grp = l.grp; uselocale(l.h); }

// round the digit string D x 10^q so that the last kept digit weighs 10^to; returns the new digit string (maybe "")
static std::string round_at(const std::string &D, int q, int to, bool neg, int rm) {
  int drop = to - q; if (drop <= 0) return D + std::string(-drop, '0');
  std::string keep = drop >= (int) D.size() ? "" : D.substr(0, D.size() - drop);
  std::string lost = drop >= (int) D.size() ? std::string(std::min(drop - (int) D.size(), 5), '0') + D : D.substr(D.size() - drop);
  bool nz = lost.find_first_not_of('0') != std::string::npos; if (!nz) return keep;
  int half = lost[0] > '5' ? 1 : lost[0] < '5' ? -1 : lost.find_first_not_of('0', 1) == std::string::npos ? 0 : 1;
  bool odd = !keep.empty() && ((keep.back() - '0') & 1), up = false;
  switch (rm) { case RNE: up = half > 0 || (half == 0 && odd); break; case RZ: up = false; break; case RU: up = !neg; break; case RD: up = neg; break; case RNA: up = half >= 0; break; }
  if (!up) return keep;
  int i = (int) keep.size() - 1; for (; i >= 0 && keep[i] == '9'; i--) keep[i] = '0';
  if (i < 0) keep = "1" + keep; else keep[i]++;
  return keep;
}
static std::string strip0(const std::string &s) { size_t i = s.find_first_not_of('0'); return i == std::string::npos ? "" : s.substr(i); }
static std::string fixed_str(std::string d, int prec, bool alt, bool group) { // d: digits of value x 10^prec
  d = strip0(d); if ((int) d.size() <= prec) d = std::string(prec + 1 - d.size(), '0') + d;
  std::string ip = d.substr(0, d.size() - prec), fp = d.substr(d.size() - prec), o;
  for (size_t i = 0; i < ip.size(); i++) { o += ip[i]; size_t r = ip.size() - 1 - i; if (group && r && sep_before(r)) o += "\x01"; }
  if (prec || alt) o += "\x02"; return o + fp;
}
static std::string exp_str(int e, int mind, bool up) { std::string t = std::to_string(std::abs(e)); while ((int) t.size() < mind) t = "0" + t; return std::string(up ? "E" : "e") + (e < 0 ? "-" : "+") + t; }
// d: exactly 1+prec digits
static std::string sci_str(const std::string &d, int X, bool alt, int mind, bool up) { std::string o = d.substr(0, 1); if (d.size() > 1 || alt) o += "\x02"; return o + d.substr(1) + exp_str(X, mind, up); }
static void norm_e(const std::string &D, int q, int nd, bool neg, int rm, std::string &d, int &X) { // nd significant digits
  if (D.empty()) { d = std::string(nd, '0'); X = 0; return; }
  X = (int) D.size() + q - 1; d = round_at(D, q, X - nd + 1, neg, rm);
  if ((int) d.size() > nd) { d.pop_back(); X++; }
}
static std::string trim0(std::string s) { // remove trailing zeros of the fraction, then the point
  size_t e = s.find_first_of("eE"); std::string m = s.substr(0, e), x = e == std::string::npos ? "" : s.substr(e);
  if (m.find('\x02') != std::string::npos) { while (m.back() == '0') m.pop_back(); if (m.back() == '\x02') m.pop_back(); } return m + x; }
static std::string body(const Num &v, char conv, int prec, int flags, int rm) {
  bool up = conv < 'a', alt = flags & F_ALT, group = (flags & F_GROUP) && g_loc; char c = (char) (conv | 32);
  if (v.inf()) return up ? "INF" : "inf"; if (v.nan()) return up ? "NAN" : "nan";
  std::string D = v.c ? u2s(v.c) : ""; int q = v.q;
  if (c == 'f') { if (prec < 0) prec = 6; return fixed_str(round_at(D, q, -prec, v.neg, rm), prec, alt, group); }
  if (c == 'e') { if (prec < 0) prec = 6; std::string d; int X; norm_e(D, q, prec + 1, v.neg, rm, d, X); return sci_str(d, X, alt, 2, up); }
  if (c == 'g') {
    int P = prec < 0 ? 6 : prec ? prec : 1; std::string d; int X; norm_e(D, q, P, v.neg, rm, d, X);
    std::string r = P > X && X >= -4 ? fixed_str(round_at(D, q, -(P - 1 - X), v.neg, rm), P - 1 - X, alt, group) : sci_str(d, X, alt, 2, up);
    return alt ? r : trim0(r);
  }
  // %a (TS 18661-2): precision 0 (pinned by test-printf) acts as 1
  int n = D.empty() ? 1 : (int) D.size(); if (prec == 0) prec = 1;
  if (prec > 0 && prec < n) { int to = q + n - prec; D = round_at(D, q, to, v.neg, rm); if ((int) D.size() > prec) { D.pop_back(); to++; } q = to; n = prec; }
  if (D.empty()) D = "0";
  if (q <= 0 && q >= -(n + 5)) return fixed_str(D, -q, alt, group);
  return sci_str(D, q + n - 1, alt, 1, up);
}
static std::string render(const Num &v, char conv, int prec, int width, int flags, int rm) {
  std::string b = body(v, conv, prec, flags, rm), t; size_t len = 0;
  for (char ch : b) { if (ch == 1) t += g_sep; else if (ch == 2) t += g_point; else t += ch; len++; }
  std::string sg = v.neg ? "-" : flags & F_PLUS ? "+" : flags & F_SPACE ? " " : "";
  size_t pad = (int) (len + sg.size()) < width ? width - len - sg.size() : 0;
  if (flags & F_MINUS) return sg + t + std::string(pad, ' ');
  if ((flags & F_ZERO) && v.fin()) return sg + std::string(pad, '0') + t;
  return std::string(pad, ' ') + sg + t;
}
static std::string spec(const Case &c, int bits, bool len = true) {
  std::string s = "%"; int fl = (int) c.n[0], w = (int) c.n[1], p = (int) c.n[2];
  if (fl & F_MINUS) s += "-"; if (fl & F_PLUS) s += "+"; if (fl & F_SPACE) s += " "; if (fl & F_ALT) s += "#"; if (fl & F_ZERO) s += "0"; if (fl & F_GROUP) s += "'";
  if (w > 0) s += std::to_string(w); if (p >= 0) s += "." + std::to_string(p);
  if (len) s += bits == 32 ? "H" : bits == 64 ? "D" : "DD"; return s + CONV[(int) c.n[3]];
}
static void norm(Case &c, bool layout, bool strfrom) { // keep arguments in range after mutation
  auto m = [](i128 v, int n) { int r = (int) (v % n); return r < 0 ? r + n : r; };
  c.n[0] = layout && !strfrom ? m(c.n[0], g_loc ? 64 : 32) : 0; c.n[1] = layout && !strfrom ? m(c.n[1], 5000) : 0;
  if (c.n[2] < -1) c.n[2] = -1; c.n[2] = c.n[2] == -1 ? -1 : m(c.n[2], 5000); c.n[3] = m(c.n[3], 8);
  if (!g_locs.empty()) { if (c.n.size() < 5) c.n.push_back(0); c.n[4] = m(c.n[4], (int) g_locs.size()); use_loc(c.n[4]); }
}
static void gen(Rng &g, Case &c, int b, bool layout) {
  u128 v = gen_dec(g, b); Num x = decode(b, v); const Fmt &f = fmt_of(b);
  if (x.fin() && g.chance(1, 2)) { x.q = -g.range(0, f.p + 8); if (g.chance(1, 4)) x.q = g.range(-6, 10) - std::max(1, ndigu(x.c)); v = encode(b, x); }
  int n = x.fin() && x.c ? ndigu(x.c) : 1, X = n + x.q - 1, p; int cv = (int) g.below(8); char cc = (char) (CONV[cv] | 32);
  switch (g.below(4)) { case 0: p = -1; break; case 1: p = g.chance(1, 12) ? g.range(41, 4999) : g.range(0, 40); break;
    default: p = cc == 'f' ? -x.q - g.range(-1, n + 1) : cc == 'e' ? n - 1 - g.range(-1, n) : n - g.range(-1, n); if (p < 0 || p > 79) p = g.range(0, 8); }
  // make the dropped part a tie / nines more often
  if (x.fin() && x.c && p >= 0 && g.chance(1, 2)) { int keep = cc == 'f' ? n + x.q + p : cc == 'e' ? p + 1 : std::max(p, 1), drop = n - keep; if (drop > 0 && drop <= n && drop < 39) { u128 t = p10u(drop), hi = x.c / t; if (g.chance(1, 3) && hi) hi = p10u(keep > 0 ? std::min(keep, 34) : 0) - 1; u128 lo = g.chance(1, 2) ? t / 2 : g.chance(1, 2) ? t / 2 + 1 : g.chance(1, 2) ? t / 2 - (t > 1) : g.chance(1, 2) ? t - 1 : (u128) (t > 1); u128 cn = hi * t + lo; if (cn && cn < p10u(f.p)) { x.c = cn; v = encode(b, x); } } }
  (void) X;
  c.d = {v}; c.n = {0, 0, p, cv};
  if (layout) { c.n[0] = g.chance(1, 4) ? 0 : (i128) g.below(64); c.n[1] = g.chance(1, 4) ? 0 : g.chance(1, 8) ? g.range(1, g.chance(1, 6) ? 4999 : 299) : g.range(1, 50); }
}
static char buf[65536]; static wchar_t wbuf[65536];
static std::string vis(const std::string &s) { return s.size() > 120 ? s.substr(0, 60) + "..." + s.substr(s.size() - 55) + " (" + std::to_string(s.size()) + " chars)" : s; }
static V judge(Case &c, Out &o, int b, const std::string &got, int ret, int kind, bool layout) {
  Num x = decode(b, c.d[0]); char cv = CONV[(int) c.n[3]];
  std::string e = render(x, cv, (int) c.n[2], (int) c.n[1], (int) c.n[0], c.rm);
  o.label = std::string(1, (char) (cv | 32)) + " " + cls(x, b);
  if (got != e) { o.msg = "printed \"" + vis(got) + "\", expected \"" + vis(e) + "\""; return FAIL; }
  size_t len = kind == 1 ? widen(e).size() : e.size();
  if (kind != 2 && ret != (int) len) { o.msg = "returned " + std::to_string(ret) + " for " + std::to_string(len) + " characters"; return FAIL; }
  return layout ? (c.n[0] || c.n[1] || !x.fin() ? OK : TRIVIAL) : x.fin() && x.c ? OK : TRIVIAL;
}
static V check(const Case &c0, Out &o, int b, int kind, bool layout) {
  Case c = c0; norm(c, layout, kind == 2);
  if (kind == 0 && g_loc && g_point.size() + g_sep.size() > 2) c.n[1] = 0; // bytes or characters? no width for multi-byte separators
  if (kind == 0 || kind == 2) {
    std::string f = spec(c, b, kind == 0); memset(buf, 0x7e, 64);
    int r = kind == 0 ? shim_snprintf(b, c.rm, buf, sizeof buf, f.c_str(), c.d[0]) : shim_strfrom(b, c.rm, buf, sizeof buf, f.c_str(), c.d[0]);
    return judge(c, o, b, buf, r, kind == 2 ? 0 : kind, layout);
  }
  std::string f = spec(c, b); std::wstring wf(f.begin(), f.end());
  int r = shim_swprintf(b, c.rm, wbuf, 65536, wf.c_str(), c.d[0]); std::string g;
  if (r < 0) { o.msg = "swprintf returned " + std::to_string(r); return FAIL; }
  for (int i = 0; wbuf[i]; i++) { unsigned w = (unsigned) wbuf[i]; if (w < 128) g += (char) w; else if (w < 0x800) { g += (char) (0xc0 | w >> 6); g += (char) (0x80 | (w & 63)); } else { g += (char) (0xe0 | (w >> 12 & 15)); g += (char) (0x80 | (w >> 6 & 63)); g += (char) (0x80 | (w & 63)); } }
  return judge(c, o, b, g, r, 1, layout);
}
// truncation: C23 7.24.1.3: as snprintf
static V check_trunc(const Case &c0, Out &o, int b, bool strfrom) {
  Case c = c0; norm(c, true, strfrom); Num x = decode(b, c.d[0]);
  std::string e = render(x, CONV[(int) c.n[3]], (int) c.n[2], (int) c.n[1], (int) c.n[0], c.rm);
  size_t n = (size_t) ((uint64_t) c.n[4] % (e.size() + 4)); if (n > 65000) n = 65000; std::string f = spec(c, b, !strfrom);
  memset(buf, 0x7e, n + 64); int r = strfrom ? shim_strfrom(b, c.rm, buf, n, f.c_str(), c.d[0]) : shim_snprintf(b, c.rm, buf, n, f.c_str(), c.d[0]);
  o.label = n == 0 ? "n=0" : n <= e.size() ? "truncated" : "fits";
  if (r != (int) e.size()) { o.msg = "returned " + std::to_string(r) + ", expected the full length " + std::to_string(e.size()) + " (n = " + std::to_string(n) + ")"; return FAIL; }
  for (size_t i = n; i < n + 60; i++) if (buf[i] != 0x7e) { o.msg = "wrote beyond the " + std::to_string(n) + " bytes given"; return FAIL; }
  if (n) { std::string w = e.substr(0, n - 1); if (!memchr(buf, 0, n)) { o.msg = "not terminated within n = " + std::to_string(n); return FAIL; } if (w != buf) { o.msg = "wrote \"" + vis(buf) + "\", expected \"" + vis(w) + "\""; return FAIL; } }
  return n <= e.size() ? OK : TRIVIAL;
}
static V check_rt(const Case &c, Out &o, int b, int kind) {
  if (g_loc) use_loc(c.n[1]);
  Num x = decode(b, c.d[0]); const Fmt &f = fmt_of(b); u128 canon = encode(b, x); o.label = cls(x, b);
  std::string L = b == 32 ? "H" : b == 64 ? "D" : "DD"; long used; int err, fl; u128 back; int pm = (int) (c.n[0] % 5); if (pm < 0) pm += 5;
  std::string txt;
  if (kind == 3) { std::wstring wf = L"%" + std::wstring(L.begin(), L.end()) + L"a"; shim_swprintf(b, pm, wbuf, 65536, wf.c_str(), c.d[0]); back = shim_wcstod(b, c.rm, wbuf, &used, &err, &fl); for (int i = 0; wbuf[i]; i++) txt += wbuf[i] < 128 ? (char) wbuf[i] : '?'; }
  else {
    std::string s = kind == 0 ? "%" + L + "a" : kind == 5 ? "%" + L + "A" : kind == 1 ? "%." + std::to_string(f.p - 1) + L + "e" : kind == 2 ? "%." + std::to_string(x.fin() ? std::max(0, -x.q) : 0) + L + "f" : "%a";
    if (kind == 4) shim_strfrom(b, pm, buf, sizeof buf, s.c_str(), c.d[0]); else shim_snprintf(b, pm, buf, sizeof buf, s.c_str(), c.d[0]);
    txt = buf; back = shim_strtod(b, c.rm, buf, &used, &err, &fl);
  }
  Num y = decode(b, back);
  if (used != (long) txt.size()) { o.msg = "\"" + vis(txt) + "\" is read only up to character " + std::to_string(used); return FAIL; }
  if (x.nan()) { if (!y.nan()) { o.msg = "\"" + txt + "\" read as " + str(y); return FAIL; } return OK; }
  if ((kind == 1 || kind == 2) ) {
    // a subnormal printed with more digits than it has may be flushed (see C06)
    if (x.fin() && x.c && ndigu(x.c) + x.q - 1 < f.emin && y.zero() && y.neg == x.neg) return TRIVIAL;
    if (!same_val(x, y)) { o.msg = "\"" + vis(txt) + "\" read as " + str(y) + ", printed from " + str(x); return FAIL; }
  } else if (back != canon) { o.msg = "\"" + vis(txt) + "\" read as " + str(y) + ", printed from " + str(x); return FAIL; }
  return x.fin() && x.c ? OK : TRIVIAL;
}
// a call with many arguments: decimals of the three formats among int, double and string conversions
static const char MT[] = "DiQxLsLDQxDQiL"; // D 32, L 64, Q 128, i int, x double, s string
static const char *const MK[] = {"snprintf", "vsnprintf", "sprintf", "vsprintf", "asprintf", "fprintf", "dprintf", "swprintf", "fwprintf to memory", "fwprintf to a file"};
static const char *const LIT[] = {"", " ", "|", "%%", "abc", ", value=", "DD", "x%%H", "1.5"};
struct Mix { std::string f, e, s; u128 d[9]; int i[2]; double x[2]; int kind; int ndec; bool pos; };
static std::string padw(const std::string &t, int w, bool minus) { return (int) t.size() >= w ? t : minus ? t + std::string(w - t.size(), ' ') : std::string(w - t.size(), ' ') + t; }
// n: kind, positional, number of conversions, seed of the order, then 4 per conversion: flags, width, precision, conversion+literal
static Mix mix(const Case &c) {
  Mix m; auto at = [&](size_t k) { i128 v = k < c.n.size() ? c.n[k] : 0; return (int) ((v < 0 ? -v : v) % 100000); };
  m.kind = at(0) % 10; m.pos = at(1) & 1; int k = 1 + at(2) % 14; m.ndec = 0; Rng g((uint64_t) at(3) + 7);
  int bits[9] = {32, 128, 64, 64, 32, 128, 32, 128, 64}; for (int j = 0; j < 9; j++) m.d[j] = j < (int) c.d.size() ? c.d[j] : 0;
  m.i[0] = at(4) - 50000; m.i[1] = at(5) % 3 ? at(5) : INT_MIN + at(5); double ds[] = {0, 1, -1, 0.5, 1.0 / 3, -123456.789, 1e15, 9.5, 0.05, 2.5, 1e-7, -99.995}; m.x[0] = ds[at(6) % 12]; m.x[1] = ds[at(7) % 12]; m.s = std::string("some text").substr(0, at(8) % 10);
  std::vector<int> ord; for (int j = 0; j < k; j++) ord.push_back(j);
  if (m.pos) { for (int j = k - 1; j > 0; j--) std::swap(ord[j], ord[g.below(j + 1)]); for (int r = at(9) % 4; r > 0; r--) ord.insert(ord.begin() + g.below(ord.size() + 1), (int) g.below(k)); }
  for (size_t j = 0; j < ord.size(); j++) {
    int a = ord[j], fl = at(10 + 4 * j) % 32, w = at(11 + 4 * j) % 60, p = at(12 + 4 * j) % 30 - 1, cv = at(13 + 4 * j); const char *lit = LIT[cv / 8 % 9]; char t = MT[a], cc = CONV[cv % 8];
    for (const char *q = lit; *q; q++) { m.f += *q; if (q[0] == '%') { m.f += *++q; } m.e += *q; }
    m.f += "%"; if (m.pos) m.f += std::to_string(a + 1) + "$";
    if (t == 'i' || t == 's' || t == 'x') { fl &= F_MINUS; if (fl) m.f += "-"; if (w) m.f += std::to_string(w); }
    int dn = 0; for (int q = 0; q < a; q++) dn += MT[q] == 'D' || MT[q] == 'L' || MT[q] == 'Q';
    int xn = a > 4, in = a > 4;
    if (t == 'i') { m.f += "d"; m.e += padw(std::to_string(m.i[in]), w, fl); }
    else if (t == 's') { std::string v = m.s; if (p >= 0) { m.f += "." + std::to_string(p); v = v.substr(0, p); } m.f += "s"; m.e += padw(v, w, fl); }
    else if (t == 'x') { if (p < 0) p = 6; else m.f += "." + std::to_string(p); char cf = "feg"[cv % 3]; m.f += cf; char b[400]; auto r = std::to_chars(b, b + 400, m.x[xn], cf == 'f' ? std::chars_format::fixed : cf == 'e' ? std::chars_format::scientific : std::chars_format::general, p); m.e += padw(std::string(b, r.ptr), w, fl); }
    else { if (fl & F_MINUS) m.f += "-"; if (fl & F_PLUS) m.f += "+"; if (fl & F_SPACE) m.f += " "; if (fl & F_ALT) m.f += "#"; if (fl & F_ZERO) m.f += "0"; if (w) m.f += std::to_string(w); if (p >= 0) m.f += "." + std::to_string(p);
      m.f += bits[dn] == 32 ? "H" : bits[dn] == 64 ? "D" : "DD"; m.f += cc; m.ndec++; m.e += render(decode(bits[dn], m.d[dn]), cc, p, w, fl, c.rm); }
  }
  return m;
}
static char mbuf[200000];
static V check_mix(const Case &c, Out &o) {
  Mix m = mix(c); if (m.e.size() > 190000) return SKIP; memset(mbuf, 0x7e, 64);
  int r = shim_printf_mix(m.kind, c.rm, mbuf, sizeof mbuf, m.f.c_str(), m.d, m.i, m.x, m.s.c_str());
  o.label = std::string(MK[m.kind]) + (m.pos ? " %n$" : "");
  if (r != (int) m.e.size()) { o.msg = "\"" + m.f + "\" returned " + std::to_string(r) + ", expected " + std::to_string(m.e.size()); if (r < 0) return FAIL; }
  if (m.e != mbuf) { size_t k = 0; while (m.e[k] && m.e[k] == mbuf[k]) k++; o.msg = "\"" + m.f + "\" printed at character " + std::to_string(k) + " \"" + vis(mbuf + k) + "\", expected \"" + vis(m.e.substr(k)) + "\""; }
  return o.msg.size() ? FAIL : m.ndec > 1 ? OK : TRIVIAL;
}
// width and precision from int arguments: a negative width is a left adjustment, a negative precision none
static V check_star(const Case &c0, Out &o, int b) {
  Case c = c0; norm(c, true, false); int w = (int) c.n[1], p = (int) c.n[2], fl = (int) c.n[0], sw = c.n[4] & 1 ? -w : w, sp = p < 0 ? -1 - (int) (c.n[4] & 63) : p;
  std::string f = "%"; if (fl & F_MINUS) f += "-"; if (fl & F_PLUS) f += "+"; if (fl & F_SPACE) f += " "; if (fl & F_ALT) f += "#"; if (fl & F_ZERO) f += "0"; f += "*.*"; f += b == 32 ? "H" : b == 64 ? "D" : "DD"; f += CONV[(int) c.n[3]];
  if (sw < 0) fl |= F_MINUS; Num x = decode(b, c.d[0]); std::string e = render(x, CONV[(int) c.n[3]], p, w, fl, c.rm);
  int r = shim_snprintf_star(b, c.rm, mbuf, sizeof mbuf, f.c_str(), sw, sp, c.d[0]); o.label = sw < 0 ? "negative width" : sp < 0 ? "negative precision" : "plain";
  if (e != mbuf) { o.msg = "\"" + f + "\" with " + std::to_string(sw) + ", " + std::to_string(sp) + " printed \"" + vis(mbuf) + "\", expected \"" + vis(e) + "\""; return FAIL; }
  if (r != (int) e.size()) { o.msg = "\"" + f + "\" returned " + std::to_string(r) + " for " + std::to_string(e.size()) + " characters"; return FAIL; }
  return OK;
}
int main(int argc, char **argv) {
  Prop P; P.id = argc > 1 ? argv[1] : "";
  if (P.id == "locale") { // compile a grouping locale into a scratch directory
    char t[] = "/tmp/dfploc-XXXXXX"; if (!mkdtemp(t)) return 3;
    std::string d = t; int rc; setenv("LOCPATH", t, 1);
    for (Loc l : LOCS) {
      std::string src = l.name;
      if (l.name[0] == 'c') { src = d + "/" + l.name; FILE *f = fopen(src.c_str(), "w"); if (!f) return 3; fprintf(f, "comment_char %%\nescape_char /\nLC_NUMERIC\ndecimal_point \"%s\"\nthousands_sep \"%s\"\ngrouping ", l.point, l.sep); for (size_t i = 0; i < l.grp.size(); i++) fprintf(f, "%s%d", i ? ";" : "", l.grp[i] ? l.grp[i] : -1); fprintf(f, "\nEND LC_NUMERIC\n"); fclose(f); }
      std::string out = d + "/x_" + l.name + ".UTF-8"; rc = system(("localedef -c -i " + src + " -f UTF-8 " + out + " >/dev/null 2>&1").c_str());
      l.h = newlocale(LC_NUMERIC_MASK, ("x_" + std::string(l.name) + ".UTF-8").c_str(), 0);
      if (!l.h) { fprintf(stderr, "no locale %s\n", l.name); continue; }
      locale_t o = uselocale(l.h); struct lconv *lc = localeconv(); if (strcmp(lc->decimal_point, l.point) || strcmp(lc->thousands_sep, l.sep)) fprintf(stderr, "locale %s: point %s sep %s\n", l.name, lc->decimal_point, lc->thousands_sep); uselocale(o);
      g_locs.push_back(l);
    }
    rc = system(("rm -r " + d).c_str()); (void) rc;
    turkish(); use_loc(0);
  }
  for (int b : {32, 64, 128}) {
    auto add = [&](const char *n, bool layout, std::function<V(const Case &, Out &)> f, int wt = 1, bool trunc = false) { Sub s; s.name = nm(n, b); s.dfmt = {b}; s.use_rm = true; s.weight = wt; s.gen = [b, layout, trunc](Rng &g, Case &c) { gen(g, c, b, layout); if (trunc || g_loc) c.n.push_back((i128) g.below(1000)); if (g_loc && g.chance(1, 2)) c.n[0] |= F_GROUP; }; s.check = f; bool sf = strstr(n, "strfrom"), tr = trunc;
      s.show = [n, b, sf, layout, tr](const Case &c0) { Case c = c0; norm(c, layout, sf); std::string t = nm(n, b) + " \"" + spec(c, b, !sf) + "\" of " + str(decode(b, c.d[0])) + " in FE_DEC_" + rm_name[c.rm]; if (tr) t += " n=" + i2s(c.n[4]); else if (g_loc) t += std::string(" in locale ") + g_locs[(int) c.n[4]].name; return t; }; P.subs.push_back(s); };
    if (P.id == "digits") { add("snprintf", false, [b](const Case &c, Out &o) { return check(c, o, b, 0, false); }, 3); add("strfrom", false, [b](const Case &c, Out &o) { return check(c, o, b, 2, false); }, 2); }
    if (P.id == "layout" || P.id == "locale") { add("snprintf", true, [b](const Case &c, Out &o) { return check(c, o, b, 0, true); }, 3); add("swprintf", true, [b](const Case &c, Out &o) { return check(c, o, b, 1, true); }, 2); }
    if (P.id == "layout") { add("snprintf_n", true, [b](const Case &c, Out &o) { return check_trunc(c, o, b, false); }, 1, true); add("strfrom_n", true, [b](const Case &c, Out &o) { return check_trunc(c, o, b, true); }, 1, true); add("star", true, [b](const Case &c, Out &o) { return check_star(c, o, b); }, 1, true); }
    if (P.id == "trip" || P.id == "locale") { const char *nmz[] = {"rt_a", "rt_e", "rt_f", "rt_wide_a", "rt_strfrom_a", "rt_A"};
      for (int k = 0; k < 6; k++) { Sub s; s.name = nm(nmz[k], b); s.dfmt = {b}; s.use_rm = true; s.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; c.n = {(i128) g.below(5), (i128) g.below(60)}; }; s.check = [b, k](const Case &c, Out &o) { return check_rt(c, o, b, k); }; P.subs.push_back(s); } }
  }
  if (P.id == "layout") {
    Sub s; s.name = "mixed"; s.dfmt = {32, 128, 64, 64, 32, 128, 32, 128, 64}; s.use_rm = true; s.weight = 4;
    s.gen = [](Rng &g, Case &c) { c.d.clear(); for (int b : {32, 128, 64, 64, 32, 128, 32, 128, 64}) { Case t; gen(g, t, b, false); c.d.push_back(t.d[0]); }
      c.n.clear(); c.n.push_back((i128) g.below(10)); c.n.push_back((i128) g.below(2)); c.n.push_back(g.chance(1, 3) ? 13 : (i128) g.below(14)); for (int j = 0; j < 7; j++) c.n.push_back((i128) g.below(100000));
      for (int j = 0; j < 17; j++) { c.n.push_back(g.chance(1, 2) ? 0 : (i128) g.below(32)); c.n.push_back(g.chance(1, 2) ? 0 : (i128) g.below(60)); c.n.push_back(g.chance(1, 2) ? 0 : (i128) g.below(30)); c.n.push_back((i128) g.below(72)); } };
    s.check = check_mix; s.show = [](const Case &c) { Mix m = mix(c); return std::string(MK[m.kind]) + " \"" + m.f + "\" in FE_DEC_" + rm_name[c.rm]; }; P.subs.push_back(s);
  }
  return run_main(P, argc - 1, argv + 1);
}
