#pragma once
#include "fw.hpp"
#include <fenv.h>
#include <locale.h>
#include <stdlib.h>
namespace fw {
inline thread_local SRes last_call; // of this thread, for the checks of floating exceptions
inline SRes call(int op, int rm, u128 a = 0, u128 b = 0, u128 c = 0, i128 i = 0) { SArgs A; memset(&A, 0, sizeof A); SRes R; A.a[0] = a; A.a[1] = b; A.a[2] = c; A.i = i; shim_call(op, rm, &A, &R); last_call = R; return R; }
inline std::string nm(const char *n, int bits) { return std::string(n) + std::to_string(bits); }
// exact value equality including sign of zero; on mismatch fills o.msg
inline bool want(Out &o, int bits, u128 got, const Num &e, bool quantum = false, const char *what = "result") {
  Num g = decode(bits, got);
  if (!same_val(e, g)) { o.msg = std::string(what) + " is " + str(g) + ", expected " + str(e); return false; }
  if (quantum && e.fin() && e.q != g.q) { o.msg = std::string(what) + " has the wrong quantum: " + str(g) + ", expected " + str(e); return false; }
  return true;
}
inline bool want_nan(Out &o, int bits, u128 got) { Num g = decode(bits, got); if (!g.nan()) { o.msg = "result is " + str(g) + ", expected a NaN"; return false; } return true; }
inline Sub unary(const char *n, int bits, std::function<V(const Case &, Out &, int op, const Num &x)> f, bool rm = true) {
  Sub s; s.name = nm(n, bits); s.dfmt = {bits}; s.use_rm = rm; int op = shim_find(n, bits);
  s.gen = [bits](Rng &g, Case &c) { c.d = {gen_dec(g, bits)}; };
  s.check = [f, op, bits](const Case &c, Out &o) { return f(c, o, op, decode(bits, c.d[0])); };
  return s;
}
inline Sub binary(const char *n, int bits, std::function<V(const Case &, Out &, int op, const Num &x, const Num &y)> f, bool rm = true) {
  Sub s; s.name = nm(n, bits); s.dfmt = {bits, bits}; s.use_rm = rm; int op = shim_find(n, bits);
  s.gen = [bits](Rng &g, Case &c) { u128 x = gen_dec(g, bits); c.d = {x, gen_rel(g, bits, x)}; if (g.chance(1, 2)) std::swap(c.d[0], c.d[1]); };
  s.check = [f, op, bits](const Case &c, Out &o) { return f(c, o, op, decode(bits, c.d[0]), decode(bits, c.d[1])); };
  return s;
}
inline const char *cls(const Num &x, int bits) {
  if (x.nan()) return "nan"; if (x.inf()) return "inf"; if (!x.c) return "zero";
  return ndigu(x.c) + x.q - 1 < fmt_of(bits).emin ? "subnormal" : x.q >= 0 ? "integer" : ndigu(x.c) + x.q <= 0 ? "below1" : "mixed";
}
// ---- floating exceptions agree with the result
inline std::string flag_names(int f) { std::string s; if (f & FE_INVALID) s += " invalid"; if (f & FE_DIVBYZERO) s += " divbyzero"; if (f & FE_OVERFLOW) s += " overflow"; if (f & FE_UNDERFLOW) s += " underflow"; if (f & FE_INEXACT) s += " inexact"; return s.empty() ? "nothing" : s.substr(1); }
inline V flag_verdict(const std::string &base, const std::vector<int> &df, const Case &c, Out &o, bool dec_result) {
  SRes R = last_call; int b = df[0]; std::string lab = o.label; o.msg.clear(); o.kf.clear();
  bool snan = false, nan = false, fin = true; for (size_t i = 0; i < df.size(); i++) { Num n = decode(df[i], c.d[i]); snan |= n.k == SNaN; nan |= n.nan(); fin &= n.fin(); }
  if (snan) { o.label = "signalling nan"; return TRIVIAL; }
  auto is = [&](const char *n) { return base == n; };
  Num r = decode(b, R.r[0]); int want = 0, care = FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW;
  bool ilog = is("ilogb") || is("llogb");
  if (is("lround") || is("llround") || is("lrint") || is("llrint")) { if (lab == "out of range") want = FE_INVALID; }
  else if (dec_result && r.nan() && !nan) want = FE_INVALID;
  else if (dec_result && r.inf() && fin) want = lab == "pole" || (is("logb")) ? FE_DIVBYZERO : FE_OVERFLOW;
  else if (ilog && !(fin && decode(b, c.d[0]).c)) care &= ~FE_INVALID; // not pinned down for zeros, infinities and NaNs
  else if (dec_result && lab == "overflow") { if (is("ldexp") || is("scalbn") || is("scalbln") || is("fdim") || is("nextafter") || is("nexttoward")) want = FE_OVERFLOW; else care &= ~FE_OVERFLOW; } // the largest finite number, in a directed mode
  if (want == FE_OVERFLOW && (is("nextup") || is("nextdown"))) want = 0;
  if (is("rint") || is("lrint") || is("llrint")) { if (want != FE_INVALID) care |= FE_INEXACT; if (lab == "inexact") want |= FE_INEXACT; }
  if (is("nearbyint") || is("ceil") || is("floor") || is("trunc") || is("round") || is("roundeven")) care |= FE_INEXACT;
  if (is("fabs") || is("copysign") || is("neg") || is("logb") || is("frexp") || is("fmax") || is("fmin") || is("samequantum") || is("quantum") || is("llquantexp") || base.compare(0, 2, "is") == 0 || base.find("signbit") != std::string::npos || base.find("classify") != std::string::npos) care |= FE_INEXACT | FE_UNDERFLOW;
  if (is("ldexp")) { care |= FE_UNDERFLOW; if (lab == "underflow") want |= FE_UNDERFLOW; }
  o.label = want ? flag_names(want) : nan ? "nothing (nan operand)" : "nothing";
  if ((R.flags & care) != want) { o.msg = "raises " + flag_names(R.flags & care) + ", expected " + flag_names(want) + (dec_result ? " with the result " + str(r) : ""); return FAIL; }
  return want || !nan ? OK : TRIVIAL;
}
inline void flag_mode(Prop &P) {
  for (auto &s : P.subs) { auto f = s.check; auto df = s.dfmt; if (df.empty()) continue; std::string base = s.name.substr(0, s.name.find(':')); base.resize(base.size() - std::to_string(df[0]).size());
    bool dec = true; try { dec = shim_ops[shim_find(base.c_str(), df[0])].sig[0] == 'd'; } catch (...) { }
    s.check = [f, df, base, dec](const Case &c, Out &o) -> V {
      memset(&last_call, 0, sizeof last_call); V v = f(c, o); bool snan = false; for (size_t i = 0; i < df.size(); i++) snan |= decode(df[i], c.d[i]).k == SNaN;
      if (v == FAIL && !(o.kf.empty())) { o.label = "known finding elsewhere"; o.kf.clear(); o.msg.clear(); return TRIVIAL; }
      v = flag_verdict(base, df, c, o, dec); if (v == FAIL) return v;
      if (c.rm && (c.rm + (unsigned) c.d[0]) % 3) return v; // the second call for a part of the cases only
      Out o2; shim_set_preset(FE_ALL_EXCEPT); f(c, o2); shim_set_preset(0);
      if ((last_call.flags & FE_ALL_EXCEPT) != FE_ALL_EXCEPT) { o.msg = "clears exceptions raised before the call: " + flag_names(FE_ALL_EXCEPT & ~last_call.flags); return FAIL; }
      return v; }; }
}
// A global LC_CTYPE in which the lower case of I is not i; compiled in a scratch directory, which is removed.
inline bool turkish() {
  char t[] = "/tmp/dfptr-XXXXXX"; if (!mkdtemp(t)) return false; std::string d = t; const char *old = getenv("LOCPATH"); std::string o = old ? old : "";
  int rc = system(("localedef -c -i tr_TR -f UTF-8 " + d + "/x_tr_TR.UTF-8 >/dev/null 2>&1").c_str());
  setenv("LOCPATH", t, 1); bool ok = setlocale(LC_CTYPE, "x_tr_TR.UTF-8"); if (!ok) fprintf(stderr, "no Turkish locale\n");
  if (old) setenv("LOCPATH", o.c_str(), 1); else unsetenv("LOCPATH");
  rc = system(("rm -r " + d).c_str()); (void) rc; return ok;
}
} // namespace fw
