/* Included once per format.  D: type, N: 32/64/128, GET/PUT.  */
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define X2(a,b) CAT(a,b)
#define FN(f) CAT(f,SUF)
#define OPN(f) CAT(CAT(op_,f),N)
#define A0 GET(A->a[0])
#define A1 GET(A->a[1])
#define A2 GET(A->a[2])
#define W(name) static void OPN(name) (const SArgs *A, SRes *R)
#define U(f) W(f) { R->r[0] = PUT (FN(f) (A0)); }
#define B(f) W(f) { R->r[0] = PUT (FN(f) (A0, A1)); }
#define I(f) W(f) { R->n = FN(f) (A0); }
#define IB(f) W(f) { R->n = FN(f) (A0, A1); }
#define MI(f) W(m_##f) { D x = A0; R->n = f (x); }
#include "shim_list.inc"
static void OPN(add) (const SArgs *A, SRes *R) { R->r[0] = PUT (A0 + A1); }
static void OPN(sub) (const SArgs *A, SRes *R) { R->r[0] = PUT (A0 - A1); }
static void OPN(mul) (const SArgs *A, SRes *R) { R->r[0] = PUT (A0 * A1); }
static void OPN(div) (const SArgs *A, SRes *R) { R->r[0] = PUT (A0 / A1); }
static void OPN(neg) (const SArgs *A, SRes *R) { R->r[0] = PUT (-A0); }
static void OPN(eq) (const SArgs *A, SRes *R) { R->n = A0 == A1; }
static void OPN(ne) (const SArgs *A, SRes *R) { R->n = A0 != A1; }
static void OPN(lt) (const SArgs *A, SRes *R) { R->n = A0 < A1; }
static void OPN(le) (const SArgs *A, SRes *R) { R->n = A0 <= A1; }
static void OPN(gt) (const SArgs *A, SRes *R) { R->n = A0 > A1; }
static void OPN(ge) (const SArgs *A, SRes *R) { R->n = A0 >= A1; }
static void OPN(unord) (const SArgs *A, SRes *R) { R->n = __builtin_isunordered (A0, A1); }
static void OPN(fma) (const SArgs *A, SRes *R) { R->r[0] = PUT (FN(fma) (A0, A1, A2)); }
static void OPN(frexp) (const SArgs *A, SRes *R) { int e = 0x5a5a5a5a; R->r[0] = PUT (FN(frexp) (A0, &e)); R->n = e; }
static void OPN(modf) (const SArgs *A, SRes *R) { D y = GET (SENT); R->r[0] = PUT (FN(modf) (A0, &y)); R->r[1] = PUT (y); }
static void OPN(ldexp) (const SArgs *A, SRes *R) { R->r[0] = PUT (FN(ldexp) (A0, (int) A->i)); }
static void OPN(scalbn) (const SArgs *A, SRes *R) { R->r[0] = PUT (FN(scalbn) (A0, (int) A->i)); }
static void OPN(scalbln) (const SArgs *A, SRes *R) { R->r[0] = PUT (FN(scalbln) (A0, (long) A->i)); }
static void OPN(nexttoward) (const SArgs *A, SRes *R) { R->r[0] = PUT (FN(nexttoward) (A0, get128 (A->a[1]))); }
static void OPN(to32) (const SArgs *A, SRes *R) { R->r[0] = put32 ((_Decimal32) A0); }
static void OPN(to64) (const SArgs *A, SRes *R) { R->r[0] = put64 ((_Decimal64) A0); }
static void OPN(to128) (const SArgs *A, SRes *R) { R->r[0] = put128 ((_Decimal128) A0); }
static void OPN(to_si) (const SArgs *A, SRes *R) { R->n = (int) A0; }
static void OPN(to_usi) (const SArgs *A, SRes *R) { R->n = (unsigned) A0; }
static void OPN(to_di) (const SArgs *A, SRes *R) { R->n = (long) A0; }
static void OPN(to_udi) (const SArgs *A, SRes *R) { R->n = (unsigned long) A0; }
static void OPN(to_ti) (const SArgs *A, SRes *R) { R->n = (i128) A0; }
static void OPN(to_uti) (const SArgs *A, SRes *R) { R->n = (i128) (u128) A0; }
static void OPN(from_si) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) (int) A->i); }
static void OPN(from_usi) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) (unsigned) A->i); }
static void OPN(from_di) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) (long) A->i); }
static void OPN(from_udi) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) (unsigned long) A->i); }
static void OPN(from_ti) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) A->i); }
static void OPN(from_uti) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) (u128) A->i); }
static void OPN(to_f) (const SArgs *A, SRes *R) { R->ld = (float) A0; }
static void OPN(to_d) (const SArgs *A, SRes *R) { R->ld = (double) A0; }
static void OPN(to_ld) (const SArgs *A, SRes *R) { R->ld = (long double) A0; }
static void OPN(to_f128) (const SArgs *A, SRes *R) { _Float128 f = (_Float128) A0; __builtin_memcpy (&R->r[0], &f, 16); }
static void OPN(from_f) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) (float) A->ld); }
static void OPN(from_d) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) (double) A->ld); }
static void OPN(from_ld) (const SArgs *A, SRes *R) { R->r[0] = PUT ((D) A->ld); }
static void OPN(from_f128) (const SArgs *A, SRes *R) { _Float128 f; __builtin_memcpy (&f, &A->a[0], 16); R->r[0] = PUT ((D) f); }
static void OPN(lgamma_r) (const SArgs *A, SRes *R) { R->r[0] = PUT (FN(lgamma) (A0)); R->n = signgam; }
static void OPN(nan) (const SArgs *A, SRes *R) { static char tag[64]; __builtin_memcpy (tag, A->a, 16); tag[16] = 0; R->r[0] = PUT (FN(nan) (tag)); }
#undef W
#undef U
#undef B
#undef I
#undef IB
#undef MI
#undef OPN
#undef FN
#undef CAT
#undef CAT_
#undef X2
#undef A0
#undef A1
#undef A2
