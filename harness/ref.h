/* Textbook reference formulas, written from the mathematics and the public headers' conventions
 * (quaternion order x,y,z,w; matrices column-major).  Oracle side of the harnesses. */
#ifndef REF_H
#define REF_H
#include "vf.h"
#include <math.h>
#define RF static inline __attribute__((unused))
/* a checked (writable) result is spoilt afterwards, so that a later call on the same array must write all of it again;
 * KEEP before including this file turns that off, (vf_eqn)(...) does so for one check */
RF void vf_spoil_(size_t n, double *a) { for (size_t i = 0; i < n; i++) a[i] = 77.25 + (double)i; }
RF void vf_nospoil_(size_t n, const void *a) { (void)n; (void)a; }
#ifndef KEEP
#define vf_eqn(l, n, a, b) ((vf_eqn)(l, n, a, b), _Generic((a), double *: vf_spoil_, default: vf_nospoil_)(n, a))
#endif
RF void ref_qmul(const double *a, const double *b, double *c) {
    c[0] = a[3]*b[0] + a[0]*b[3] + a[1]*b[2] - a[2]*b[1];
    c[1] = a[3]*b[1] + a[1]*b[3] + a[2]*b[0] - a[0]*b[2];
    c[2] = a[3]*b[2] + a[2]*b[3] + a[0]*b[1] - a[1]*b[0];
    c[3] = a[3]*b[3] - a[0]*b[0] - a[1]*b[1] - a[2]*b[2];
}
RF void ref_qconj(const double *a, double *c) { c[0] = -a[0]; c[1] = -a[1]; c[2] = -a[2]; c[3] = a[3]; }
RF void ref_cross(const double *a, const double *b, double *c) {
    c[0] = a[1]*b[2] - a[2]*b[1]; c[1] = a[2]*b[0] - a[0]*b[2]; c[2] = a[0]*b[1] - a[1]*b[0];
}
RF double ref_dot(const double *a, const double *b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
RF void ref_qrot(const double *q, const double *v, double *p) {   /* q v q* */
    double x[4] = {v[0], v[1], v[2], 0}, t[4], c[4], r[4];
    ref_qmul(q, x, t); ref_qconj(q, c); ref_qmul(t, c, r);
    p[0] = r[0]; p[1] = r[1]; p[2] = r[2];
}
RF void ref_q2r(const double *q, double *R) {                     /* unit q */
    for (int j = 0; j < 3; j++) { double e[3] = {j == 0, j == 1, j == 2}; ref_qrot(q, e, R + 3*j); }
}
RF void ref_rmul(const double *A, const double *B, double *C) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        double s = 0; for (int k = 0; k < 3; k++) s += A[i + 3*k] * B[k + 3*j]; C[i + 3*j] = s; }
}
RF void ref_rt(const double *A, double *B) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) B[j + 3*i] = A[i + 3*j]; }
RF void ref_mv(const double *R, const double *v, double *p) {
    for (int i = 0; i < 3; i++) p[i] = R[i]*v[0] + R[i+3]*v[1] + R[i+6]*v[2];
}
RF void ref_tmv(const double *R, const double *v, double *p) {
    for (int i = 0; i < 3; i++) p[i] = R[3*i]*v[0] + R[3*i+1]*v[1] + R[3*i+2]*v[2];
}
/* axis (unit) and angle -> R, Rodrigues */
RF void ref_aa2r(const double *u, double th, double *R) {
    double s = sin(th), c = cos(th), K[9] = {0, u[2], -u[1], -u[2], 0, u[0], u[1], -u[0], 0};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        R[i + 3*j] = c * (i == j) + s * K[i + 3*j] + (1 - c) * u[i] * u[j];
}
RF void ref_aa2q(const double *u, double th, double *q) {
    double s = sin(th / 2); q[0] = s*u[0]; q[1] = s*u[1]; q[2] = s*u[2]; q[3] = cos(th / 2);
}
/* T: 3x4 column major [R|p] */
RF void ref_tmul(const double *A, const double *B, double *C) {
    ref_rmul(A, B, C); ref_mv(A, B + 9, C + 9); for (int i = 0; i < 3; i++) C[9+i] += A[9+i];
}
RF void ref_tinv(const double *A, double *B) {
    ref_rt(A, B); ref_tmv(A, A + 9, B + 9); for (int i = 0; i < 3; i++) B[9+i] = -B[9+i];
}
RF void ref_ttf(const double *T, const double *p, double *r) { ref_mv(T, p, r); for (int i = 0; i < 3; i++) r[i] += T[9+i]; }
RF void ref_qv2t(const double *q, const double *v, double *T) { ref_q2r(q, T); for (int i = 0; i < 3; i++) T[9+i] = v[i]; }
/* dual quaternion real[4], dual[4]: dual = 1/2 v q */
RF void ref_qv2d(const double *q, const double *v, double *S) {
    double x[4] = {v[0]/2, v[1]/2, v[2]/2, 0};
    for (int i = 0; i < 4; i++) S[i] = q[i];
    ref_qmul(x, q, S + 4);
}
RF void ref_dmul(const double *a, const double *b, double *c) {
    double t[4], u[4];
    ref_qmul(a, b, c); ref_qmul(a, b + 4, t); ref_qmul(a + 4, b, u);
    for (int i = 0; i < 4; i++) c[4+i] = t[i] + u[i];
}
RF void ref_dconj(const double *a, double *c) { ref_qconj(a, c); ref_qconj(a + 4, c + 4); }
/* same rotation: quaternions equal up to sign */
RF void ck_qsame(const char *l, const double *a, const double *b) {
    for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) vf_eq(l, a[i]*a[j], b[i]*b[j]);
}
/* same rigid transform: dual quaternions equal up to common sign */
RF void ck_dsame(const char *l, const double *a, const double *b) {
    for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) vf_eq(l, a[i]*a[j], b[i]*b[j]);
}
RF void ck_rot(const char *l, const double *q, const double *R) {  /* q and R describe the same rotation */
    double A[9]; ref_q2r(q, A); vf_eqn(l, 9, A, R);
}
RF void in_qv(const char *nq, const char *nv, double *q, double *v) { vf_unit(nq, 4, q); vf_reals(nv, 3, v); }
RF void in_rotmat(const char *n, double *R) { double q[4]; vf_unit(n, 4, q); ref_q2r(q, R); }
RF void in_tfmat(const char *n, const char *v, double *T) { in_rotmat(n, T); vf_reals(v, 3, T + 9); }
RF void cpy(size_t n, const double *a, double *b) { for (size_t i = 0; i < n; i++) b[i] = a[i]; }
#endif
