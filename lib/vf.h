/* Harness interface.  The same harness source is (a) lowered by clang to LLVM IR and
 * executed symbolically, where these functions are intercepted, and (b) compiled natively
 * against the same /repo sources to replay a solver counterexample. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
double vf_real(const char *name);                          /* any real */
double vf_range(const char *name, double lo, double hi);   /* lo <= x <= hi */
void vf_reals(const char *name, size_t n, double *x);
void vf_unit(const char *name, size_t n, double *x);       /* unit vector */
int64_t vf_int(const char *name, int64_t lo, int64_t hi);  /* symbolic integer */
size_t vf_pick(const char *name, size_t n);                /* structural choice, one path per value */
void vf_assume(int c);
void vf_assume_le(double a, double b);                     /* a <= b etc., without forking */
void vf_assume_lt(double a, double b);
void vf_assume_ne(double a, double b);
void vf_assume_eq(double a, double b);
void vf_eq(const char *label, double a, double b);
void vf_eqn(const char *label, size_t n, const double *a, const double *b);
void vf_near(const char *label, double a, double b, double tol);
void vf_le(const char *label, double a, double b);
void vf_true(const char *label, int c);
void vf_block(const char *label, const void *p, size_t n);  /* [p,p+n) lies inside one live object */
void vf_hint_root(double r);                                /* proof hint: r*r may be the argument of a square root (checked) */
void vf_reach(const char *label);
size_t vf_live(void);                                       /* number of live heap blocks (0 natively without the sanitizer) */
int vf_symbolic(void);
/* register a known factorisation for the LAPACK models (no effect natively) */
void vf_orc_svd(int m, int n, const double *A, const double *U, const double *S, const double *Vt);
void vf_orc_lls(int m, int n, int p, const double *A, const double *b, const double *x);
void vf_orc_qr(int m, int n, const double *A, const double *Q, const double *R, const double *junk);
void vf_orc_eev(int n, const double *A, const double *wr, const double *wi, const double *V);
void vf_orc_gees(int m, const double *H, const double *U);
#ifdef VF_CBMC
#define vf_true(l, c) __CPROVER_assert((c), l)
#define vf_reach(l) __CPROVER_assert(0, "VFREACH")
#endif
#ifdef __cplusplus
}
#endif
#endif
