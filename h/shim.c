#define _GNU_SOURCE 1
#define __STDC_WANT_DEC_FP__ 1
#define __STDC_WANT_IEC_60559_DFP_EXT__ 1
#define __STDC_WANT_IEC_60559_BFP_EXT__ 1
#define __STDC_WANT_IEC_60559_TYPES_EXT__ 1
#include <fenv.h>
#include <float.h>
#include <math.h>
#include <stdlib.h>
#include <wchar.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include "shim.h"

static inline _Decimal32 get32 (u128 v) { uint32_t b = (uint32_t) v; _Decimal32 d; memcpy (&d, &b, 4); return d; }
static inline _Decimal64 get64 (u128 v) { uint64_t b = (uint64_t) v; _Decimal64 d; memcpy (&d, &b, 8); return d; }
static inline _Decimal128 get128 (u128 v) { _Decimal128 d; memcpy (&d, &v, 16); return d; }
static inline u128 put32 (_Decimal32 d) { uint32_t b; memcpy (&b, &d, 4); return b; }
static inline u128 put64 (_Decimal64 d) { uint64_t b; memcpy (&b, &d, 8); return b; }
static inline u128 put128 (_Decimal128 d) { u128 b; memcpy (&b, &d, 16); return b; }

#define D _Decimal32
#define N 32
#define SUF d32
#define GET get32
#define PUT put32
#define SENT 0x32ABCDEF
#include "shim_fmt.inc"
#undef D
#undef N
#undef SUF
#undef GET
#undef PUT
#undef SENT
#define D _Decimal64
#define N 64
#define SUF d64
#define GET get64
#define PUT put64
#define SENT 0x31ABCDEF01234567ULL
#include "shim_fmt.inc"
#undef D
#undef N
#undef SUF
#undef GET
#undef PUT
#undef SENT
#define D _Decimal128
#define N 128
#define SUF d128
#define GET get128
#define PUT put128
#define SENT ((((u128) 0x303fABCDEF012345ULL) << 64) | 0x1234567)
#include "shim_fmt.inc"

#define E3(name, sig) { #name, 32, sig, op_##name##32 }, { #name, 64, sig, op_##name##64 }, { #name, 128, sig, op_##name##128 },
#define U(f) E3(f,"d:d")
#define B(f) E3(f,"d:dd")
#define I(f) E3(f,"i:d")
#define IB(f) E3(f,"i:dd")
#define MI(f) E3(m_##f,"i:d")
const SOp shim_ops[] = {
#include "shim_list.inc"
  E3(add,"d:dd") E3(sub,"d:dd") E3(mul,"d:dd") E3(div,"d:dd") E3(neg,"d:d")
  E3(eq,"i:dd") E3(ne,"i:dd") E3(lt,"i:dd") E3(le,"i:dd") E3(gt,"i:dd") E3(ge,"i:dd") E3(unord,"i:dd")
  E3(fma,"d:ddd") E3(frexp,"di:d") E3(modf,"dd:d") E3(ldexp,"d:di") E3(scalbn,"d:di") E3(scalbln,"d:dl")
  E3(nexttoward,"d:dt") E3(to32,"s:d") E3(to64,"q:d") E3(to128,"t:d")
  E3(to_si,"i:d") E3(to_usi,"i:d") E3(to_di,"i:d") E3(to_udi,"i:d") E3(to_ti,"i:d") E3(to_uti,"i:d")
  E3(from_si,"d:i") E3(from_usi,"d:i") E3(from_di,"d:i") E3(from_udi,"d:i") E3(from_ti,"d:i") E3(from_uti,"d:i")
  E3(to_f,"b:d") E3(to_d,"b:d") E3(to_ld,"b:d") E3(to_f128,"x:d")
  E3(from_f,"d:b") E3(from_d,"d:b") E3(from_ld,"d:b") E3(from_f128,"d:x")
  E3(lgamma_r,"di:d") E3(nan,"d:s")
};
const int shim_nops = sizeof (shim_ops) / sizeof (shim_ops[0]);

int
shim_find (const char *name, int fmt)
{
  for (int i = 0; i < shim_nops; i++)
    if (shim_ops[i].fmt == fmt && !strcmp (shim_ops[i].name, name))
      return i;
  fprintf (stderr, "shim_find: no %s %d\n", name, fmt);
  abort ();
}

__thread int shim_last_rm, shim_last_brm;
static void after (void) { shim_last_rm = fe_dec_getround (); shim_last_brm = fegetround (); }
int shim_after_rm (void) { return shim_last_rm; }
int shim_after_brm (void) { return shim_last_brm; }

int shim_setround (int rm) { return fe_dec_setround (rm); }
int shim_getround (void) { return fe_dec_getround (); }

__thread int shim_preset; // exceptions that are already raised when a call starts
void shim_set_preset (int e) { shim_preset = e; }

__thread int shim_errno_in = 77; // errno when a call starts
void shim_set_errno (int e) { shim_errno_in = e; }
// 0: as it was; -1: cleared
static int errno_set (void) { return errno == shim_errno_in ? 0 : errno ? errno : -1; }

void
shim_call_fn (SFn fn, int rm, const SArgs *a, SRes *r)
{
  memset (r, 0, sizeof *r);
  fe_dec_setround (rm);
  feclearexcept (FE_ALL_EXCEPT);
  if (shim_preset)
    feraiseexcept (shim_preset);
  errno = shim_errno_in;
  fn (a, r);
  r->err = errno_set ();
  r->flags = fetestexcept (FE_ALL_EXCEPT);
  r->rm_after = fe_dec_getround ();
  r->brm_after = fegetround ();
  fe_dec_setround (0);
}

void shim_call (int op, int rm, const SArgs *a, SRes *r) { shim_call_fn (shim_ops[op].fn, rm, a, r); }

#define DISPATCH(call32, call64, call128) \
  switch (fmt) { case 32: call32; break; case 64: call64; break; default: call128; }

int
shim_snprintf (int fmt, int rm, char *out, size_t n, const char *conv, u128 v)
{
  int r;
  fe_dec_setround (rm);
  errno = shim_errno_in;
  DISPATCH (r = snprintf (out, n, conv, get32 (v)), r = snprintf (out, n, conv, get64 (v)), r = snprintf (out, n, conv, get128 (v)))
  after ();
  fe_dec_setround (0);
  return r;
}

int
shim_snprintf_star (int fmt, int rm, char *out, size_t n, const char *conv, int w, int p, u128 v)
{
  int r;
  fe_dec_setround (rm);
  errno = shim_errno_in;
  DISPATCH (r = snprintf (out, n, conv, w, p, get32 (v)), r = snprintf (out, n, conv, w, p, get64 (v)), r = snprintf (out, n, conv, w, p, get128 (v)))
  after ();
  fe_dec_setround (0);
  return r;
}

static int
vmix (int k, char *out, size_t n, const char *f, ...)
{
  va_list ap;
  int r;
  va_start (ap, f);
  r = k ? vsprintf (out, f, ap) : vsnprintf (out, n, f, ap);
  va_end (ap);
  return r;
}

static FILE *
mixfile (int *fd)
{
  static __thread int mfd = -1;
  if (mfd < 0)
    mfd = memfd_create ("mix", 0);
  if (mfd < 0 || ftruncate (mfd, 0) || lseek (mfd, 0, SEEK_SET))
    abort ();
  *fd = mfd;
  return fdopen (dup (mfd), "w");
}

#define MIXARGS get32 (d[0]), i[0], get128 (d[1]), x[0], get64 (d[2]), s, get64 (d[3]), get32 (d[4]), get128 (d[5]), x[1], get32 (d[6]), get128 (d[7]), i[1], get64 (d[8])

/* every printf entry point with 14 arguments of mixed types; wide output comes back as bytes (ASCII only) */
int
shim_printf_mix (int kind, int rm, char *out, size_t n, const char *f, const u128 *d, const int *i, const double *x, const char *s)
{
  int r = -2, fd;
  char *p = 0;
  wchar_t *wp = 0, wf[4096];
  size_t z = 0;
  FILE *fp;
  ssize_t got;
  if (kind >= 7)
    for (z = 0; (wf[z] = (unsigned char) f[z]); z++)
      if (z > 4090)
        abort ();
  fe_dec_setround (rm);
  errno = shim_errno_in;
  switch (kind)
    {
    case 0: r = snprintf (out, n, f, MIXARGS); break;
    case 1: r = vmix (0, out, n, f, MIXARGS); break;
    case 2: r = sprintf (out, f, MIXARGS); break;
    case 3: r = vmix (1, out, n, f, MIXARGS); break;
    case 4:
      r = asprintf (&p, f, MIXARGS);
      if (r >= 0) { strcpy (out, p); free (p); }
      break;
    case 5:
      fp = mixfile (&fd);
      r = fprintf (fp, f, MIXARGS);
      fclose (fp);
      got = pread (fd, out, n - 1, 0);
      out[got < 0 ? 0 : got] = 0;
      break;
    case 6:
      fclose (mixfile (&fd));
      r = dprintf (fd, f, MIXARGS);
      got = pread (fd, out, n - 1, 0);
      out[got < 0 ? 0 : got] = 0;
      break;
    case 7:
      wp = malloc (n * sizeof *wp);
      r = swprintf (wp, n, wf, MIXARGS);
      break;
    case 8:
      fp = open_wmemstream (&wp, &z);
      r = fwprintf (fp, wf, MIXARGS);
      fclose (fp);
      break;
    case 9:
      fp = mixfile (&fd);
      r = fwprintf (fp, wf, MIXARGS);
      fclose (fp);
      got = pread (fd, out, n - 1, 0);
      out[got < 0 ? 0 : got] = 0;
      break;
    }
  after ();
  if (wp)
    {
      for (z = 0; wp[z] && z + 1 < n; z++)
        out[z] = (char) wp[z];
      out[z] = 0;
      free (wp);
    }
  fe_dec_setround (0);
  return r;
}

int
shim_swprintf (int fmt, int rm, wchar_t *out, size_t n, const wchar_t *conv, u128 v)
{
  int r;
  fe_dec_setround (rm);
  errno = shim_errno_in;
  DISPATCH (r = swprintf (out, n, conv, get32 (v)), r = swprintf (out, n, conv, get64 (v)), r = swprintf (out, n, conv, get128 (v)))
  after ();
  fe_dec_setround (0);
  return r;
}

int
shim_strfrom (int fmt, int rm, char *out, size_t n, const char *conv, u128 v)
{
  int r;
  fe_dec_setround (rm);
  errno = shim_errno_in;
  DISPATCH (r = strfromd32 (out, n, conv, get32 (v)), r = strfromd64 (out, n, conv, get64 (v)), r = strfromd128 (out, n, conv, get128 (v)))
  after ();
  fe_dec_setround (0);
  return r;
}

u128
shim_strtod (int fmt, int rm, const char *s, long *consumed, int *err, int *flags)
{
  char *e = (char *) -1, **ep = consumed ? &e : 0; /* without consumed: a null end pointer */
  u128 r;
  fe_dec_setround (rm);
  feclearexcept (FE_ALL_EXCEPT);
  errno = shim_errno_in;
  DISPATCH (r = put32 (strtod32 (s, ep)), r = put64 (strtod64 (s, ep)), r = put128 (strtod128 (s, ep)))
  *err = errno_set ();
  *flags = fetestexcept (FE_ALL_EXCEPT);
  if (consumed)
    *consumed = e == (char *) -1 ? -99999 : e - s;
  after ();
  fe_dec_setround (0);
  return r;
}

u128
shim_wcstod (int fmt, int rm, const wchar_t *s, long *consumed, int *err, int *flags)
{
  wchar_t *e = (wchar_t *) -1, **ep = consumed ? &e : 0; /* without consumed: a null end pointer */
  u128 r;
  fe_dec_setround (rm);
  feclearexcept (FE_ALL_EXCEPT);
  errno = shim_errno_in;
  DISPATCH (r = put32 (wcstod32 (s, ep)), r = put64 (wcstod64 (s, ep)), r = put128 (wcstod128 (s, ep)))
  *err = errno_set ();
  *flags = fetestexcept (FE_ALL_EXCEPT);
  if (consumed)
    *consumed = e == (wchar_t *) -1 ? -99999 : e - s;
  after ();
  fe_dec_setround (0);
  return r;
}

extern void decoded32 (_Decimal32, char *);
extern void decoded64 (_Decimal64, char *);
extern void decoded128 (_Decimal128, char *);
void
shim_decoded (int fmt, u128 v, char *out)
{
  DISPATCH (decoded32 (get32 (v), out), decoded64 (get64 (v), out), decoded128 (get128 (v), out))
}
