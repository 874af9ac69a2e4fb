/* Uniform raw-bits calling interface to libdfp, shared by the C++ harnesses
   and (through ctypes) the Python ones.  */
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned __int128 u128;
typedef __int128 i128;

typedef struct
{
  u128 a[3];		/* decimal arguments, BID bit patterns */
  i128 i;		/* integer argument */
  long double ld;	/* binary argument */
} SArgs;

typedef struct
{
  u128 r[2];		/* decimal results */
  i128 n;		/* integer result */
  long double ld;	/* binary result */
  int flags;		/* FE_* raised by the call */
  int err;		/* errno after the call (0 before) */
  int rm_after;		/* fe_dec_getround() after the call */
  int brm_after;	/* fegetround() after the call */
} SRes;

typedef void (*SFn) (const SArgs *, SRes *);
typedef struct
{
  const char *name;
  int fmt;		/* 32, 64, 128 */
  const char *sig;	/* result:args, d = same format, s/q/t = 32/64/128,
			   i,l,L = int, long, long long ... */
  SFn fn;
} SOp;

extern const SOp shim_ops[];
extern const int shim_nops;
int shim_find (const char *name, int fmt);
void shim_call (int op, int rm, const SArgs *a, SRes *r);
void shim_call_fn (SFn fn, int rm, const SArgs *a, SRes *r);
int shim_setround (int rm);
int shim_getround (void);
/* decimal and binary rounding mode right after this thread's last printf, strfrom or strtod call */
void shim_set_errno (int);
void shim_set_preset (int e);
int shim_after_rm (void);
int shim_after_brm (void);
/* printf of a decimal: kind 0 snprintf, 1 swprintf (converted to bytes in
   out when all characters are ASCII). fmt is the full conversion.  */
int shim_snprintf (int fmt, int rm, char *out, size_t n, const char *conv, u128 v);
int shim_snprintf_star (int fmt, int rm, char *out, size_t n, const char *conv, int w, int p, u128 v);
int shim_printf_mix (int kind, int rm, char *out, size_t n, const char *f, const u128 *d, const int *i, const double *x, const char *s);
int shim_swprintf (int fmt, int rm, wchar_t *out, size_t n, const wchar_t *conv, u128 v);
int shim_strfrom (int fmt, int rm, char *out, size_t n, const char *conv, u128 v);
u128 shim_strtod (int fmt, int rm, const char *s, long *consumed, int *err, int *flags);
u128 shim_wcstod (int fmt, int rm, const wchar_t *s, long *consumed, int *err, int *flags);
void shim_decoded (int fmt, u128 v, char *out);
#ifdef __cplusplus
}
#endif
#endif
