// The forms a decimal takes inside the library: BID and DPD encodings,
// decNumbers, text, digit groups (decodedN), digits and exponents.
#define FW_MAIN
#include "../h/util.hpp"
using namespace fw;
typedef ref::Int Int;
struct SNum { int32_t kind, neg, exp, nd; char d[1516]; };
extern "C" {
void sd_transcode(int fmt, int to_dpd, const void *in, void *out);
void sd_to_number(int fmt, const void *in, SNum *r);
void sd_from_number(int fmt, int round, const SNum *a, void *out, uint32_t *status);
void sd_from_string(int fmt, int round, const char *s, void *out, uint32_t *status);
void sd_to_string(int fmt, int eng, const void *in, char *out);
int sd_getexp(int fmt, const void *in);
int sd_numdigits(int fmt, const void *in);
void sd_setexp(int fmt, const void *in, int e, void *out);
void sd_leftjust(int fmt, const void *in, void *out);
void sd_setdigits(int fmt, const void *in, char *digits, void *out);
void shim_decoded(int fmt, u128 v, char *out);
}
static const int DROUND[5] = {3, 5, 0, 6, 2}; // RNE RZ RU RD RNA as decNumber's enum rounding
// ---- densely packed decimal, from the table in IEEE 754-2008 3.5.2
static unsigned declet(unsigned n) { // 0..999 to 10 bits
  unsigned x = n / 100, y = n / 10 % 10, z = n % 10;
  unsigned bcd = x & 7, fgh = y & 7, jkm = z & 7, d = x & 1, h = y & 1, m = z & 1, jk = z >> 1 & 3, fg = y >> 1 & 3;
  switch ((x >> 3) << 2 | (y >> 3) << 1 | z >> 3) {
    case 0: return bcd << 7 | fgh << 4 | jkm;
    case 1: return bcd << 7 | fgh << 4 | 8 | m;
    case 2: return bcd << 7 | jk << 5 | h << 4 | 10 | m;
    case 3: return bcd << 7 | 4 << 4 | h << 4 | 14 | m;
    case 4: return jk << 8 | d << 7 | fgh << 4 | 12 | m;
    case 5: return fg << 8 | d << 7 | 2 << 4 | h << 4 | 14 | m;
    case 6: return jk << 8 | d << 7 | h << 4 | 14 | m;
    default: return d << 7 | 6 << 4 | h << 4 | 14 | m;
  }
}
static unsigned undeclet(unsigned v) {
  unsigned p = v >> 7 & 7, q = v >> 4 & 7, r = v & 7, x = p, y = q, z = r, b0 = v & 1, b4 = v >> 4 & 1, b7 = v >> 7 & 1, b98 = v >> 8 & 3, b65 = v >> 5 & 3;
  if (v >> 3 & 1) switch (v >> 1 & 3) {
    case 0: z = 8 | b0; break;
    case 1: y = 8 | b4; z = b65 << 1 | b0; break;
    case 2: x = 8 | b7; z = b98 << 1 | b0; break;
    default: switch (b65) {
      case 0: x = 8 | b7; y = 8 | b4; z = b98 << 1 | b0; break;
      case 1: x = 8 | b7; y = b98 << 1 | b4; z = 8 | b0; break;
      case 2: y = 8 | b4; z = 8 | b0; break;
      default: x = 8 | b7; y = 8 | b4; z = 8 | b0; } }
  return x * 100 + y * 10 + z;
}
static int tbits(int b) { return b == 32 ? 20 : b == 64 ? 50 : 110; }
static u128 ones(int n) { return n >= 128 ? ~(u128) 0 : ((u128) 1 << n) - 1; }
static u128 dpd_encode(int b, const Num &n) {
  const Fmt &f = fmt_of(b); int t = tbits(b), w = b - 6 - t; u128 s = n.neg ? (u128) 1 << (b - 1) : 0, body = 0, c = n.c;
  for (int i = 0; i < t; i += 10) { body |= (u128) declet((unsigned) (c % 1000)) << i; c /= 1000; }
  if (n.k == INF) return s | (u128) 30 << (b - 6);
  if (n.nan()) return s | (u128) (n.k == SNaN ? 63 : 62) << (b - 7) | body;
  unsigned e = (unsigned) (n.q - f.qmin), top = (unsigned) c, comb = top < 8 ? (e >> w) << 3 | top : 24 | (e >> w) << 1 | (top & 1);
  return s | (u128) comb << (b - 6) | (u128) (e & (unsigned) ones(w)) << t | body;
}
static Num dpd_decode(int b, u128 v) {
  const Fmt &f = fmt_of(b); int t = tbits(b), w = b - 6 - t; Num n; n.neg = (v >> (b - 1)) & 1; unsigned comb = (unsigned) (v >> (b - 6)) & 31, e, top = 0;
  u128 c = 0; for (int i = t - 10; i >= 0; i -= 10) c = c * 1000 + undeclet((unsigned) (v >> i) & 1023);
  if (comb == 30) { n.k = INF; return n; }
  if (comb == 31) { n.k = (v >> (b - 7)) & 1 ? SNaN : QNaN; n.c = c; return n; }
  if (comb >> 3 == 3) { e = comb >> 1 & 3; top = 8 | (comb & 1); } else { e = comb >> 3; top = comb & 7; }
  n.c = c + top * p10u(f.p - 1); n.q = (int) (e << w | (unsigned) ((v >> t) & ones(w))) + f.qmin; return n;
}
static Num canon(Num n) { n.canon = true; return n; }
// ---- text of decNumber, scientific and engineering
static std::string sci(const Num &n, bool eng) {
  std::string s = n.neg ? "-" : "";
  if (n.k == INF) return s + "Infinity";
  if (n.nan()) return s + (n.k == SNaN ? "sNaN" : "NaN") + (n.c ? u2s(n.c) : "");
  std::string d = u2s(n.c); int nd = (int) d.size(), adj = n.q + nd - 1;
  if (n.q <= 0 && adj >= -6) { if (!n.q) return s + d; int pt = nd + n.q; if (pt <= 0) return s + "0." + std::string(-pt, '0') + d; return s + d.substr(0, pt) + "." + d.substr(pt); }
  int lead = 1, e = adj;
  if (eng) { int m = ((adj % 3) + 3) % 3; if (n.c) { lead = 1 + m; e = adj - m; if (nd < lead) d += std::string(lead - nd, '0'); }
    else { int r = ((n.q % 3) + 3) % 3, z = r ? 3 - r : 0; e = n.q + z; d = "0" + std::string(z, '0'); if (z) { if (e == 0) return s + "0." + std::string(z, '0'); return s + "0." + std::string(z, '0') + "E" + (e < 0 ? "-" : "+") + std::to_string(abs(e)); } } }
  s += d.substr(0, lead); if ((int) d.size() > lead) s += "." + d.substr(lead);
  if (e) s += std::string("E") + (e < 0 ? "-" : "+") + std::to_string(abs(e));
  return s;
}
static std::string groups(int b, const Num &n) { // decodedN
  const Fmt &f = fmt_of(b); u128 c = n.fin() ? n.c : 0; int q = n.fin() ? n.q : f.qmin; std::string d = u2s(c); d = std::string(f.p - d.size(), '0') + d; std::string s = n.neg ? "-" : "+"; s += d[0];
  for (int i = 1; i < f.p; i++) { if ((f.p - i) % 3 == 0) s += ','; s += d[i]; }
  return s + "E" + (q < 0 ? "-" : "+") + std::to_string(abs(q));
}
static std::string snum_str(const SNum &s) { std::string r = s.neg ? "-" : "+"; if (s.kind == 9) return "an ill-formed number"; std::string d(s.d, std::min(s.nd, 1515)); return r + (s.kind == 1 ? "inf" : s.kind == 2 ? "nan(" + d + ")" : s.kind == 3 ? "snan(" + d + ")" : d + "E" + std::to_string(s.exp)); }
static u128 call2(void (*fn)(int, int, const void *, void *), int b, int k, u128 v) { u128 r = 0; fn(b, k, &v, &r); return r; }

int main(int argc, char **argv) {
  Prop P; P.id = "decnum";
  for (int b : {32, 64, 128}) {
    const Fmt &f = fmt_of(b);
    auto gdec = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; };
    auto add = [&](const char *n, std::function<void(Rng &, Case &)> gen, std::function<V(const Case &, Out &, const Num &)> chk, bool rm = false) {
      Sub s; s.name = nm(n, b); s.dfmt = {b}; s.use_rm = rm; s.gen = gen;
      s.check = [b, chk](const Case &c, Out &o) { Num x = decode(b, c.d[0]); o.label = x.canon ? cls(x, b) : "noncanonical"; return chk(c, o, x); };
      P.subs.push_back(s); };
    // decodedN prints the digits in threes
    add("decoded", gdec, [b](const Case &c, Out &o, const Num &x) -> V {
      if (!x.canon) return SKIP; char t[100] = ""; shim_decoded(b, c.d[0], t); std::string e = groups(b, x);
      if (e != t) { o.msg = "text is " + std::string(t) + ", expected " + e; return FAIL; } return x.fin() && x.c ? OK : TRIVIAL; });
    // BID to DPD, and back
    add("todpd", gdec, [b](const Case &c, Out &o, const Num &x) -> V {
      if (!x.fin() && !x.canon) return SKIP;
      u128 r = call2(sd_transcode, b, 1, c.d[0]), e = dpd_encode(b, canon(x));
      if (x.nan()) { Num y = dpd_decode(b, r); if (y.k != x.k || y.neg != x.neg) { o.msg = "NaN becomes " + str(y); return FAIL; } return TRIVIAL; } // payloads are carried as bits
      if (r != e) { o.msg = "DPD " + hex(b, r) + " (" + str(dpd_decode(b, r)) + "), expected " + hex(b, e); return FAIL; }
      u128 back = call2(sd_transcode, b, 0, r), be = encode(b, canon(x));
      if (back != be) { o.msg = "back from DPD it is " + hex(b, back) + ", expected " + hex(b, be); return FAIL; }
      return x.fin() && x.c ? OK : TRIVIAL; });
    { Sub s; s.name = nm("frombits", b); s.dfmt = {b}; s.gen = [b](Rng &g, Case &c) { u128 v = ((u128) g.next() << 64 | g.next()) & ones(b); if (g.chance(1, 3)) { // sevens and eights, redundant declets
            for (int i = 0; i < tbits(b); i += 10) if (g.chance(1, 2)) { v &= ~((u128) 1023 << i); v |= (u128) (g.chance(1, 2) ? 0x6e | g.below(1024) : declet(888 + g.below(112))) << i; } } c.d = {v}; };
      s.show = [b](const Case &c) { return "DPD " + hex(b, c.d[0]) + " (" + str(dpd_decode(b, c.d[0])) + ")"; };
      s.check = [b](const Case &c, Out &o) -> V { Num n = dpd_decode(b, c.d[0]); o.label = cls(n, b); if (n.inf()) return SKIP; if (n.nan()) { u128 r = call2(sd_transcode, b, 0, c.d[0]); Num y = decode(b, r); if (y.k != n.k || y.neg != n.neg) { o.msg = "NaN becomes " + str(y); return FAIL; } return TRIVIAL; }
        u128 r = call2(sd_transcode, b, 0, c.d[0]), e = encode(b, n); if (r != e) { o.msg = "BID " + hex(b, r) + " (" + str(decode(b, r)) + "), expected " + hex(b, e); return FAIL; } return n.fin() && n.c ? OK : TRIVIAL; };
      P.subs.push_back(s); }
    // to decNumber, to text
    add("tonumber", gdec, [b](const Case &c, Out &o, const Num &x) -> V {
      static SNum s; sd_to_number(b, &c.d[0], &s); std::string d = u2s(x.c); bool ok = s.kind == (x.inf() ? 1 : x.k == QNaN ? 2 : x.k == SNaN ? 3 : 0) && s.neg == x.neg && (!x.fin() || (s.nd == (int) d.size() && d == std::string(s.d, s.nd))) && (!x.fin() || s.exp == x.q);
      if (!x.fin() && !x.canon) return SKIP;
      if (!ok) { o.msg = "decNumber is " + snum_str(s) + ", expected " + str(canon(x)); return FAIL; } return x.fin() && x.c ? OK : TRIVIAL; });
    add("totext", gdec, [b](const Case &c, Out &o, const Num &x) -> V {
      if (!x.fin() && !x.canon) return SKIP; char t[200] = ""; if (x.nan()) { sd_to_string(b, 0, &c.d[0], t); std::string e = sci(x, false), h = t; size_t k = e.find("NaN") + 3; if (h.compare(0, k, e, 0, k) || h.find_first_not_of("0123456789", k) != h.npos) { o.msg = "text is " + h + ", expected " + e; return FAIL; } return TRIVIAL; }
      for (int eng = 0; eng < 2; eng++) { std::string e = sci(x, eng); sd_to_string(b, eng, &c.d[0], t); if (e != t) { o.msg = std::string(eng ? "engineering" : "scientific") + " text is " + t + ", expected " + e; return FAIL; } }
      return x.fin() && x.c ? OK : TRIVIAL; });
    // from decNumbers and text of any length: one correct rounding
    for (int text = 0; text < 2; text++) { Sub s; s.name = nm(text ? "fromtext" : "fromnumber", b); s.use_rm = true; s.alphabet = "0123456789";
      s.gen = [b, &f](Rng &g, Case &c) { int n = g.chance(1, 2) ? g.range(1, f.p) : g.chance(1, 2) ? f.p + g.range(1, 3) : g.range(1, 70); std::string d;
        switch (g.below(5)) { case 0: d = std::string(n, '9'); break; case 1: d = "1" + std::string(n - 1, '0'); break; case 2: d = u2s(digits_pattern(g, std::min(n, 34))); break; default: for (int i = 0; i < n; i++) d += (char) ('0' + g.below(10)); }
        if (g.chance(1, 3)) { int k = g.range(1, f.p); while ((int) d.size() < k) d += '9'; d.resize(k); d += g.chance(1, 2) ? "5" : g.chance(1, 2) ? "4" : "49"; d += std::string(g.range(0, 20), g.chance(1, 2) ? '0' : '9'); if (g.chance(1, 3)) d += '1'; }
        if (g.chance(1, 20)) d = std::string("0");
        c.s = d; int nd = (int) d.size(), e; switch (g.below(5)) { case 0: e = f.emax - nd + 1 + g.range(-3, 3); break; case 1: e = f.qmin + g.range(-nd - 2, 3); break; case 2: e = f.emin - nd + 1 + g.range(-2, 3); break; case 3: e = g.range(f.qmin - f.p, f.qmax + f.p); break; default: e = g.range(-f.p, f.p); }
        c.n = {(i128) e, (i128) g.below(2)}; };
      s.show = [](const Case &c) { return std::string(c.n.size() > 1 && c.n[1] ? "-" : "+") + c.s + "E" + (c.n.empty() ? "?" : i2s(c.n[0])); };
      s.check = [b, text, &f](const Case &c, Out &o) -> V {
        if (c.n.size() < 2 || c.s.empty() || c.s.size() > 75 || c.n[0] > 10000 || c.n[0] < -10000) return SKIP; for (char ch : c.s) if (ch < '0' || ch > '9') return SKIP;
        int q = (int) c.n[0]; bool neg = c.n[1] & 1; Int C = 0; for (char ch : c.s) C = C * 10 + (ch - '0'); uint32_t st = 0; u128 r = 0; int fl = 0;
        std::string d = c.s; size_t z = d.find_first_not_of('0'); d = z == std::string::npos ? "0" : d.substr(z);
        if (text) { std::string t = (neg ? "-" : "") + c.s + "E" + std::to_string(q); sd_from_string(b, DROUND[c.rm], t.c_str(), &r, &st); }
        else { static SNum s; memset(&s, 0, sizeof s); s.neg = neg; s.exp = q; s.nd = (int) d.size(); memcpy(s.d, d.data(), d.size()); sd_from_number(b, DROUND[c.rm], &s, &r, &st); }
        Num e = C == 0 ? mk(neg, 0, std::min(std::max(q, f.qmin), f.qmax)) : ref::round_to(f, neg, C, q, false, c.rm, q, &fl);
        u128 eb = encode(b, e); o.label = C == 0 ? "zero" : fl & ref::FL_OVF ? "overflow" : fl & ref::FL_UNF ? "underflow" : fl & ref::FL_INX ? "rounded" : "exact";
        if (r != eb) { o.msg = "result " + hex(b, r) + " (" + str(decode(b, r)) + "), expected " + str(e); return FAIL; }
        bool ginx = st & 0x20, gov = st & 0x200; if (ginx != !!(fl & ref::FL_INX) || gov != !!(fl & ref::FL_OVF)) { char t[80]; sprintf(t, "conditions 0x%x, inexact %d and overflow %d expected", st, !!(fl & ref::FL_INX), !!(fl & ref::FL_OVF)); o.msg = t; return FAIL; }
        return C != 0 ? OK : TRIVIAL; };
      P.subs.push_back(s); }
    // exponents and digits
    add("exponent", [b, &f](Rng &g, Case &c) { c.d = {gen_dec(g, b)}; c.n = {(i128) g.range(f.qmin, f.qmax)}; }, [b, &f](const Case &c, Out &o, const Num &x) -> V {
      if (!x.fin() || !x.canon) return SKIP; int e = sd_getexp(b, &c.d[0]); if (e != x.q) { o.msg = "exponent " + std::to_string(e); return FAIL; }
      if (c.n.empty() || c.n[0] < f.qmin || c.n[0] > f.qmax) return SKIP;
      u128 r = 0; sd_setexp(b, &c.d[0], (int) c.n[0], &r); Num w = x; w.q = (int) c.n[0]; if (r != encode(b, w)) { o.msg = "with the exponent set it is " + str(decode(b, r)) + ", expected " + str(w); return FAIL; }
      return x.c ? OK : TRIVIAL; });
    add("digits", gdec, [b](const Case &c, Out &o, const Num &x) -> V {
      if (!x.fin() || !x.canon) return SKIP; int n = sd_numdigits(b, &c.d[0]), e = std::max(1, ndigu(x.c)); if (n != e) { o.msg = std::to_string(n) + " digits, expected " + std::to_string(e); return FAIL; }
      return x.c ? OK : TRIVIAL; });
    add("justify", gdec, [b, &f](const Case &c, Out &o, const Num &x) -> V {
      if (!x.fin() || !x.canon || !x.c) return SKIP; u128 r = 0; sd_leftjust(b, &c.d[0], &r); int k = std::min(f.p - ndigu(x.c), x.q - f.qmin); Num e = x; e.c *= p10u(k); e.q -= k;
      if (r != encode(b, e)) { o.msg = "left justified it is " + str(decode(b, r)) + ", expected " + str(e); return FAIL; } return k ? OK : TRIVIAL; });
    if (b < 128) { Sub s; s.name = nm("setdigits", b); s.dfmt = {b, b}; s.gen = [b](Rng &g, Case &c) { c.d = {gen_dec(g, b), gen_dec(g, b)}; };
      s.check = [b](const Case &c, Out &o) -> V { Num x = decode(b, c.d[0]), y = decode(b, c.d[1]); if (!x.fin() || !y.fin() || !x.canon || !y.canon) return SKIP; std::string d = u2s(y.c); char t[64]; strcpy(t, d.c_str()); u128 r = 0; sd_setdigits(b, &c.d[0], t, &r); Num e = x; e.c = y.c; if (r != encode(b, e)) { o.msg = "with digits " + d + " it is " + str(decode(b, r)) + ", expected " + str(e); return FAIL; } return y.c ? OK : TRIVIAL; };
      P.subs.push_back(s); }
  }
  return run_main(P, argc - 1, argv + 1);
}
