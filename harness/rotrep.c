#include "ref.h"
#include "amino.h"
/* P02: rotation matrix / quaternion / axis-angle / rotation vector describe the same rotation */
void h_q2r(void) {
    double q[4], R[9], A[9];
    vf_unit("q", 4, q);
    aa_tf_quat2rotmat(q, R); ref_q2r(q, A);
    vf_eqn("quat2rotmat", 9, R, A);
}
void h_r2q(void) {     /* every branch of the trace/diagonal selection */
    double q[4], R[9], p[4];
    vf_unit("q", 4, q); ref_q2r(q, R);
    aa_tf_rotmat2quat(R, p);
    ck_qsame("rotmat2quat", p, q);
}
static void in_1par(double *R) {      /* rotations about three rational axes, any angle */
    size_t k = vf_pick("axis", 3);
    double u[3] = {k == 0 ? 1./3 : k == 1 ? 2./7 : 0, k == 0 ? 2./3 : k == 1 ? -3./7 : 0, k == 0 ? -2./3 : k == 1 ? 6./7 : 1};
    ref_aa2r(u, vf_range("th", -3.1, 3.1), R);
}
void h_isrot(void) {
    double R[9]; in_1par(R);
    vf_true("isrotmat accepts rotations", aa_tf_isrotmat(R));
}
static void neg(size_t w) {  /* improper / scaled matrices are rejected */
    double R[9], a[3] = {1./3, 2./3, -2./3};
    ref_aa2r(a, vf_range("th", -3.1, 3.1), R);
    if (w == 0) for (int i = 0; i < 9; i++) R[i] *= 1.5;
    else if (w == 1) for (int i = 0; i < 3; i++) R[i] = -R[i];           /* reflection */
    else for (int i = 0; i < 3; i++) { R[i] *= 1.25; R[3+i] /= 1.25; }   /* det 1, not orthogonal */
    vf_true("isrotmat rejects", !aa_tf_isrotmat(R));
}
// vf: h_isrot_neg0 max_viol=1
// vf: h_isrot_neg1 max_viol=1
// vf: h_isrot_neg2 max_viol=1
void h_isrot_neg0(void) { neg(0); }
void h_isrot_neg1(void) { neg(1); }
void h_isrot_neg2(void) { neg(2); }
void h_aa2q(void) {
    double a[4], q[4], r[4], R[9], A[9];
    vf_unit("u", 3, a); a[3] = vf_range("th", -6.3, 6.3);
    ref_aa2q(a, a[3], r);
    aa_tf_axang2quat(a, q); vf_eqn("axang2quat", 4, q, r);
    aa_tf_axang2quat2(a, a[3], q); (vf_eqn)("axang2quat2", 4, q, r);
    ref_aa2r(a, a[3], A);
    aa_tf_axang2rotmat(a, R); vf_eqn("axang2rotmat", 9, R, A);
    aa_tf_axang2rotmat2(a, a[3], R); vf_eqn("axang2rotmat2", 9, R, A);
    aa_tf_rotmat_exp_aa(a, R); vf_eqn("rotmat_exp_aa", 9, R, A);
    ck_rot("axang quat~rotmat", q, A);
}
void h_q2aa(void) {
    double q[4], a[4], r[4];
    vf_unit("q", 4, q);
    aa_tf_quat2axang(q, a);
    ref_aa2q(a, a[3], r);
    ck_qsame("quat2axang", r, q);
}
void h_aa2rv(void) {
    double a[4], v[3];
    vf_unit("u", 3, a); a[3] = vf_range("th", 0.01, 3.1);
    aa_tf_axang2rotvec(a, v);
    for (int i = 0; i < 3; i++) vf_eq("axang2rotvec", v[i], a[i] * a[3]);
    double b[4]; aa_tf_rotvec2axang(v, b);
    vf_eqn("rotvec2axang", 4, b, a);
}
static void in_rv(double *u, double *th, double *v, double lo, double hi) {
    vf_unit("u", 3, u); *th = vf_range("th", lo, hi);
    for (int i = 0; i < 3; i++) v[i] = u[i] * *th;
}
void h_rv2q(void) {
    double u[3], th, v[3], q[4], r[4];
    in_rv(u, &th, v, 0.001, 6.2);
    ref_aa2q(u, th, r);
    aa_tf_rotvec2quat(v, q); vf_eqn("rotvec2quat", 4, q, r);
}
void h_rv2r(void) {
    double u[3], th, v[3], R[9], A[9];
    in_rv(u, &th, v, 0.001, 6.2);
    ref_aa2r(u, th, A);
    aa_tf_rotvec2rotmat(v, R); vf_eqn("rotvec2rotmat", 9, R, A);
    aa_tf_rotmat_expv(v, R); vf_eqn("rotmat_expv", 9, R, A);
}
void h_q2rv(void) {     /* quat2rotvec keeps q's hemisphere: angle in (0, 2pi) */
    double u[3], th, v[3], q[4], w[3];
    in_rv(u, &th, v, 0.001, 6.2);
    ref_aa2q(u, th, q);
    aa_tf_quat2rotvec(q, w); vf_eqn("quat2rotvec", 3, w, v);
}
/* w is a rotation vector of the rotation (u, th): same axis line, angle equal modulo 2 pi */
static void ck_rv(const char *l, const double *w, const double *u, double th) {
    double s = w[0]*u[0] + w[1]*u[1] + w[2]*u[2];
    for (int i = 0; i < 3; i++) vf_near(l, w[i], s*u[i], 1e-7);
    vf_near(l, cos(s), cos(th), 1e-7); vf_near(l, sin(s), sin(th), 1e-7);
}
// vf: h_r2rv tc=20000
void h_r2rv(void) {
    double u[3], th, v[3], R[9], w[3];
    in_rv(u, &th, v, 0.001, 3.13);
    ref_aa2r(u, th, R);
    aa_tf_rotmat_lnv(R, w); ck_rv("rotmat_lnv", w, u, th);
}
void h_r2aa(void) {
    double u[3], th, v[3], R[9], w[3];
    in_rv(u, &th, v, 0.001, 3.0);
    vf_assume_lt(-0.995, cos(th));
    ref_aa2r(u, th, R);
    aa_tf_rotmat2rotvec(R, w); vf_eqn("rotmat2rotvec", 3, w, v);
    double a[4]; aa_tf_rotmat2axang(R, a); vf_eqn("rotmat2axang", 3, a, u); vf_eq("rotmat2axang angle", a[3], th);
}
void h_sincos(void) {
    double u[3], R[9], s, c; vf_unit("u", 3, u); double th = vf_range("th", 0, 3.14159);
    ref_aa2r(u, th, R);
    aa_tf_rotmat_sincos(R, &s, &c);
    vf_eq("rotmat_sincos c", c, cos(th)); vf_eq("rotmat_sincos s", s, sin(th));
}
/* angle exactly pi: the singular branch */
void h_pi(void) {
    double w[3], R[9];
    static const double U[9][3] = {{1,0,0},{0,1,0},{0,0,1},{.6,.8,0},{0,-.6,.8},{-.8,0,.6},{2./7,-3./7,6./7},{-6./7,2./7,3./7},{3./7,6./7,-2./7}};
    const double *u = U[vf_pick("axis", 9)];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i+3*j] = 2*u[i]*u[j] - (i == j);
    aa_tf_rotmat_lnv(R, w);
    for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++)
        vf_near("lnv at pi", w[i]*w[j], M_PI*M_PI*u[i]*u[j], 1e-6);
}
void h_pi_q(void) {
    double u[3], R[9], q[4], A[9];
    vf_unit("u", 3, u);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i+3*j] = 2*u[i]*u[j] - (i == j);
    aa_tf_rotmat2quat(R, q); ref_q2r(q, A); vf_eqn("rotmat2quat at pi", 9, A, R);
}
/* just below pi */
// vf: h_nearpi taylor=1
void h_nearpi(void) {
    double u[3] = {2./7, -3./7, 6./7}, R[9], w[3]; size_t k = vf_pick("axis", 3);
    if (k == 1) { u[0] = -6./7; u[1] = 2./7; u[2] = 3./7; }
    if (k == 2) { u[0] = 3./7; u[1] = 6./7; u[2] = -2./7; }
    double d = vf_range("d", 1e-6, 0.05);
    ref_aa2r(u, M_PI - d, R);
    aa_tf_rotmat_lnv(R, w);
    ck_rv("lnv near pi", w, u, M_PI - d);
}
/* small angles: series branches agree with the exact function to rounding */
#define SMALL(u, th, v, hi) double u[3] = {1./3, -2./3, 2./3}, v[3]; double th = vf_range("th", 1e-12, hi); \
    for (int i = 0; i < 3; i++) v[i] = th * u[i];
// vf: h_small_q taylor=1 atomK=2
void h_small_q(void) {
    SMALL(u, th, v, 1e-2) double q[4], r[4];
    ref_aa2q(u, th, r);
    aa_tf_rotvec2quat(v, q);
    for (int i = 0; i < 4; i++) vf_near("small rotvec2quat", q[i], r[i], 1e-13);
}
// vf: h_small_r taylor=1 atomK=1
void h_small_r(void) {
    SMALL(u, th, v, 1e-3) double R[9], A[9];
    ref_aa2r(u, th, A);
    aa_tf_rotmat_expv(v, R);
    for (int i = 0; i < 9; i++) vf_near("small rotmat_expv", R[i], A[i], 1e-13);
}
// vf: h_small_lnq taylor=1
void h_small_lnq(void) {
    SMALL(u, th, v, 1e-2) double q[4], w[3];
    ref_aa2q(u, th, q);
    aa_tf_quat2rotvec(q, w);
    for (int i = 0; i < 3; i++) vf_near("small quat2rotvec", w[i], v[i], 1e-13);
}
// vf: h_small_lnr taylor=1
void h_small_lnr(void) {
    SMALL(u, th, v, 1e-3) double R[9], w[3];
    ref_aa2r(u, th, R);
    aa_tf_rotmat_lnv(R, w);
    for (int i = 0; i < 3; i++) vf_near("small rotmat_lnv", w[i], v[i], 1e-13);
}
void h_identity(void) {
    double q[4] = {0,0,0,1}, R[9], w[3], z[3] = {0,0,0}, a[4], I[9] = {1,0,0,0,1,0,0,0,1}, p[4];
    aa_tf_quat2rotvec(q, w); vf_eqn("log 1", 3, w, z);
    aa_tf_rotmat_lnv(I, w); vf_eqn("log I", 3, w, z);
    aa_tf_rotvec2quat(z, p); vf_eqn("exp 0", 4, p, q);
    aa_tf_rotmat_expv(z, R); vf_eqn("expv 0", 9, R, I);
    aa_tf_quat2axang(q, a); vf_eq("angle 0", a[3], 0);
    aa_tf_rotmat2axang(I, a); vf_eq("axang of I", a[3], 0);
    /* -1 is also the identity rotation: its rotation vector must be a rotation of 0 mod 2pi */
    double m[4] = {0,0,0,-1}; aa_tf_quat2rotvec(m, w);
    double n2 = w[0]*w[0]+w[1]*w[1]+w[2]*w[2];
    vf_true("log(-1) finite", n2 < 1e6);
}
void h_axes(void) {
    double q[4], R[9], A[9], r[4], a[4]; double th = vf_real("th");
    size_t k = vf_pick("axis", 3);
    double u[3] = {k == 0, k == 1, k == 2};
    ref_aa2r(u, th, A); ref_aa2q(u, th, r);
    if (k == 0) { aa_tf_xangle2rotmat(th, R); aa_tf_xangle2quat(th, q); aa_tf_xangle2axang(th, a); }
    else if (k == 1) { aa_tf_yangle2rotmat(th, R); aa_tf_yangle2quat(th, q); aa_tf_yangle2axang(th, a); }
    else { aa_tf_zangle2rotmat(th, R); aa_tf_zangle2quat(th, q); aa_tf_zangle2axang(th, a); }
    vf_eqn("rotmat", 9, R, A); vf_eqn("quat", 4, q, r); vf_eqn("axis", 3, a, u); vf_eq("angle", a[3], th);
}
void h_axang_rot(void) {
    double a[4], p[3], r[3], A[9], s[3];
    vf_unit("u", 3, a); a[3] = vf_range("th", -6.3, 6.3); vf_reals("p", 3, p);
    aa_tf_axang_rot(a, p, r); ref_aa2r(a, a[3], A); ref_mv(A, p, s);
    vf_eqn("axang_rot", 3, r, s);
}
void h_axang_misc(void) {
    double a[4]; double x = vf_real("x"), y = vf_real("y"), z = vf_real("z"), th = vf_range("th", 0.1, 3);
    double n2 = x*x + y*y + z*z; vf_assume_lt(1e-2, n2);
    aa_tf_axang_make(x, y, z, th, a);
    double n = sqrt(n2);
    vf_eq("make x", a[0]*n, x); vf_eq("make y", a[1]*n, y); vf_eq("make z", a[2]*n, z); vf_eq("make th", a[3], th);
    double b[4] = {x, y, z, th}; aa_tf_axang_normalize(b);
    vf_eqn("normalize dir", 3, b, a);
}
void h_permute(void) {   /* 2 k pi shifts describe the same rotation */
    double u[3], v[3], p[3], q[4], r[4]; double th;
    in_rv(u, &th, v, 0.1, 3.0);
    int k = (int)vf_pick("k", 5) - 2;
    aa_tf_rotvec_permute(v, k, p);
    for (int i = 0; i < 3; i++) vf_eq("rotvec_permute", p[i], u[i] * (th + 2*k*M_PI));
    double a[4] = {u[0], u[1], u[2], th}, b[4];
    aa_tf_axang_permute(a, k, b);
    ref_aa2q(b, b[3], q); ref_aa2q(u, th, r); ck_qsame("axang_permute", q, r);
}
void h_near(void) {     /* rotvec_near returns an equivalent vector no farther from the goal */
    double u[3], v[3], p[3], n[3]; double th;
    in_rv(u, &th, v, 0.2, 3.0);
    double g = vf_range("g", -9, 9); for (int i = 0; i < 3; i++) n[i] = g * u[i];
    aa_tf_rotvec_near(v, n, p);
    double s = p[0]*u[0] + p[1]*u[1] + p[2]*u[2];        /* p = s u */
    for (int i = 0; i < 3; i++) vf_eq("parallel", p[i], s*u[i]);
    double c1 = cos(s), s1 = sin(s);
    vf_eq("same rotation c", c1, cos(th)); vf_eq("same rotation s", s1, sin(th));
    vf_le("closest", (s-g)*(s-g), M_PI*M_PI + 1e-6);
}
void h_rot_ops(void) {
    double A[9], B[9], C[9], R[9], p[3], r[3], s[3];
    in_rotmat("a", A); in_rotmat("b", B); vf_reals("p", 3, p);
    ref_rmul(A, B, R);
    aa_tf_rotmat_mul(A, B, C); vf_eqn("rotmat_mul", 9, C, R);
    aa_tf_9mul(A, B, C); vf_eqn("9mul", 9, C, R);
    ref_mv(A, p, s);
    aa_tf_rotmat_rot(A, p, r); vf_eqn("rotmat_rot", 3, r, s);
    aa_tf_9rot(A, p, r); vf_eqn("9rot", 3, r, s);
    aa_tf_9(A, p, r); vf_eqn("9", 3, r, s);
    double T[9]; ref_rt(A, T);
    aa_tf_rotmat_inv2(A, C); vf_eqn("inv2", 9, C, T);
    cpy(9, A, C); aa_tf_rotmat_inv1(C); vf_eqn("inv1", 9, C, T);
    double Bt[9]; ref_rt(B, Bt); ref_rmul(A, Bt, R);
    aa_tf_9rel(A, B, C); vf_eqn("9rel = A B^T", 9, C, R);
}
void h_rot_hom(void) {     /* quat2rotmat is a homomorphism on the real code */
    double a[4], b[4], c[4], A[9], B[9], C[9], D[9];
    vf_unit("a", 4, a); vf_unit("b", 4, b);
    aa_tf_qmul(a, b, c);
    aa_tf_quat2rotmat(a, A); aa_tf_quat2rotmat(b, B); aa_tf_quat2rotmat(c, C);
    aa_tf_rotmat_mul(A, B, D); vf_eqn("R(ab)=R(a)R(b)", 9, C, D);
}
