// The C++ stream operators of <decimal/decimal>, behind a C interface
#include <float.h>
#include <decimal/decimal>
#include <sstream>
#include <cstring>
#define API extern "C" __attribute__((visibility("default")))
struct Stream { std::stringstream s; };
API void *sx_open(const char *text, size_t n) { Stream *p = new Stream; p->s.str(std::string(text, n)); return p; }
API void *sx_open_out(void) { return new Stream; }
API void sx_close(void *h) { delete (Stream *) h; }
API int sx_getc(void *h) { return ((Stream *) h)->s.get(); }
API void sx_putc(void *h, int c) { ((Stream *) h)->s.put((char) c); }
API void sx_clear(void *h) { ((Stream *) h)->s.clear(); }
// 1 eof, 2 fail, 4 bad
static int state(std::ios &s) { return (s.eof() ? 1 : 0) | (s.rdstate() & std::ios::failbit ? 2 : 0) | (s.bad() ? 4 : 0); }
API int sx_get(void *h, int fmt, void *bits) {
  std::stringstream &s = ((Stream *) h)->s;
  if (fmt == 32) { std::decimal::decimal32 d(7); s >> d; auto v = d.__getval(); memcpy(bits, &v, 4); }
  else if (fmt == 64) { std::decimal::decimal64 d(7); s >> d; auto v = d.__getval(); memcpy(bits, &v, 8); }
  else { std::decimal::decimal128 d(7); s >> d; auto v = d.__getval(); memcpy(bits, &v, 16); }
  return state(s);
}
// fl: 1 fixed, 2 scientific, 4 uppercase, 8 left, 16 right, 32 internal; prec < 0: the default
API int sx_put(void *h, int fmt, const void *bits, int fl, int prec, int width, int fill) {
  std::stringstream &s = ((Stream *) h)->s;
  s.unsetf(std::ios::floatfield | std::ios::adjustfield | std::ios::uppercase);
  if (fl & 1) s.setf(std::ios::fixed);
  if (fl & 2) s.setf(std::ios::scientific);
  if (fl & 4) s.setf(std::ios::uppercase);
  if (fl & 8) s.setf(std::ios::left); else if (fl & 16) s.setf(std::ios::right); else if (fl & 32) s.setf(std::ios::internal);
  s.precision(prec < 0 ? 6 : prec); s.width(width); s.fill((char) fill);
  if (fmt == 32) { std::decimal::decimal32 d(0); std::decimal::decimal32::__decfloat32 v; memcpy(&v, bits, 4); d.__setval(v); s << d; }
  else if (fmt == 64) { std::decimal::decimal64 d(0); std::decimal::decimal64::__decfloat64 v; memcpy(&v, bits, 8); d.__setval(v); s << d; }
  else { std::decimal::decimal128 d(0); std::decimal::decimal128::__decfloat128 v; memcpy(&v, bits, 16); d.__setval(v); s << d; }
  return state(s) | (s.width() ? 8 : 0);
}
API size_t sx_text(void *h, char *out, size_t cap) { std::string t = ((Stream *) h)->s.str(); memcpy(out, t.data(), t.size() < cap ? t.size() : cap); return t.size(); }
