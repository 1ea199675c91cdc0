#include <complex.h>
#include "ref.h"
#include "amino.h"
#include "amino/tf/planar.h"
/* P08: planar rotations and transforms (complex numbers, 2x2 and 2x3 matrices). */
static aa_tf_cmplx C(double t) { return AA_TF_CMPLX(cos(t), sin(t)); }
#define X AA_TF_VEC2_X
#define Y AA_TF_VEC2_Y
static void in_c(const char *n, aa_tf_cmplx *c, double *R) { double x[2]; vf_unit(n, 2, x); *c = AA_TF_CMPLX(x[0], x[1]); R[0] = x[0]; R[1] = x[1]; R[2] = -x[1]; R[3] = x[0]; }
static void m2(const double *A, const double *B, double *R) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) R[i+2*j] = A[i]*B[2*j] + A[i+2]*B[2*j+1]; }
static void a2(const double *R, double x, double y, double *r) { r[0] = R[0]*x + R[2]*y; r[1] = R[1]*x + R[3]*y; }
static void ckc(const char *l, aa_tf_cmplx c, const double *R) { vf_eq(l, AA_TF_CMPLX_REAL(c), R[0]); vf_eq(l, AA_TF_CMPLX_IMAG(c), R[1]); vf_eq(l, -AA_TF_CMPLX_IMAG(c), R[2]); vf_eq(l, AA_TF_CMPLX_REAL(c), R[3]); }
static void ckv(const char *l, aa_tf_vec2 v, const double *r) { vf_eq(l, X(v), r[0]); vf_eq(l, Y(v), r[1]); }
void h_rot(void) {
    aa_tf_cmplx a, b; double A[4], B[4], R[4], M[4], r[2], v[2]; in_c("a", &a, A); in_c("b", &b, B); vf_reals("v", 2, v);
    aa_tf_vec2 p = AA_TF_VEC2(v[0], v[1]);
    m2(A, B, M);
    ckc("cmul", aa_tf_cmul(a, b), M); aa_tf_rotmatp_mul(A, B, R); vf_eqn("rotmatp_mul", 4, R, M);
    a2(A, v[0], v[1], r); ckv("crot", aa_tf_crot(a, p), r); ckv("rotmatp_rot", aa_tf_rotmatp_rot(A, p), r);
    double T[4] = {A[0], A[2], A[1], A[3]}; ckc("cconj", aa_tf_cconj(a), T); aa_tf_rotmatp_inv2(A, R); vf_eqn("rotmatp_inv2", 4, R, T);
    aa_tf_cmplx2rotmatp(a, R); vf_eqn("cmplx2rotmatp", 4, R, A); ckc("rotmatp2cmplx", aa_tf_rotmatp2cmplx(A), A);
}
void h_angle(void) {
    double t = vf_range("t", -3.1, 3.1), R[4], E[4] = {cos(t), sin(t), -sin(t), cos(t)};
    ckc("angle2cmplx", aa_tf_angle2cmplx(t), E); ckc("cpexp", aa_tf_cpexp(t), E);
    aa_tf_angle2rotmatp(t, R); vf_eqn("angle2rotmatp", 4, R, E); aa_tf_rotmatp_pexp(t, R); vf_eqn("rotmatp_pexp", 4, R, E);
    vf_eq("cmplx2angle", aa_tf_cmplx2angle(C(t)), t); vf_eq("culn", aa_tf_culn(C(t)), t);
    vf_eq("rotmatp2angle", aa_tf_rotmatp2angle(E), t); vf_eq("rotmatp_uln", aa_tf_rotmatp_uln(E), t);
}
void h_tf(void) {
    aa_tf_cmplx a, b, c; double A[6], B[6], R[6], M[6], r[2], v[2], e[2]; in_c("a", &a, A); in_c("b", &b, B); vf_reals("av", 2, A+4); vf_reals("bv", 2, B+4); vf_reals("p", 2, v);
    aa_tf_vec2 p = AA_TF_VEC2(v[0], v[1]), av = AA_TF_VEC2(A[4], A[5]), bv = AA_TF_VEC2(B[4], B[5]), w;
    a2(A, v[0], v[1], r); r[0] += A[4]; r[1] += A[5];
    ckv("cv_tf", aa_tf_cv_tf(a, av, p), r); ckv("tfmatp_tf", aa_tf_tfmatp_tf(A, p), r);
    m2(A, B, M); a2(A, B[4], B[5], M+4); M[4] += A[4]; M[5] += A[5];
    aa_tf_cv_mul(a, av, b, bv, &c, &w); ckc("cv_mul c", c, M); ckv("cv_mul v", w, M+4);
    aa_tf_tfmatp_mul(A, B, R); vf_eqn("tfmatp_mul", 6, R, M);
    double Ti[6] = {A[0], A[2], A[1], A[3]}; a2(Ti, -A[4], -A[5], Ti+4);
    aa_tf_cv_inv(a, av, &c, &w); ckc("cv_inv c", c, Ti); ckv("cv_inv v", w, Ti+4);
    aa_tf_tfmatp_inv2(A, R); vf_eqn("tfmatp_inv2", 6, R, Ti);
    aa_tf_cv2tfmatp(a, av, R); vf_eqn("cv2tfmatp", 6, R, A);
    aa_tf_tfmatp2cv(A, &c, &w); ckc("tfmatp2cv c", c, A); ckv("tfmatp2cv v", w, A+4);
}
