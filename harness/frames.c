#include "ref.h"
#include "amino.h"
#include "amino/mat.h"
void aa_tf_skew_sym(const double *, double *);
void aa_tf_relx(size_t, const double *, const double *, size_t, const double *, size_t, double *, size_t);
/* P11: frames built from geometric data. */
static void frame(double *R, double *x, double *y, double *z) { in_rotmat("R", R); cpy(3, R, x); cpy(3, R+3, y); cpy(3, R+6, z); }
static void vecs(double lo, double hi) {          /* u = a x, v = b (cos th x + sin th y): the rotation turns by th about z */
    double R[9], x[3], y[3], z[3], u[3], v[3], q[4], E[4]; frame(R, x, y, z);
    double a = vf_range("a", 1e-3, 1e3), b = vf_range("b", 1e-3, 1e3), th = 2 * vf_range("th/2", lo/2, hi/2);
    for (int i = 0; i < 3; i++) { u[i] = a*x[i]; v[i] = b*(cos(th)*x[i] + sin(th)*y[i]); }
    aa_tf_vecs2quat(u, v, q); ref_aa2q(z, th, E); vf_eqn("vecs2quat", 4, q, E);
}
void h_vecs_acute(void) { vecs(1e-3, 1.57); }
void h_vecs_obtuse(void) { vecs(1.58, 3.1); }
void h_vecs_par(void) {
    double u[3], v[3], q[4], E[4] = {0,0,0,1}; vf_unit("u", 3, u); double a = vf_range("a", 1e-3, 1e3), b = vf_range("b", 1e-3, 1e3);
    for (int i = 0; i < 3; i++) { v[i] = b*u[i]; u[i] *= a; }
    aa_tf_vecs2quat(u, v, q); ck_qsame("vecs2quat parallel", q, E);
}
void h_vecs_anti(void) {
    double w[3], u[3], v[3], q[4], r[3]; vf_unit("u", 3, w); double a = vf_range("a", 1e-3, 1e3), b = vf_range("b", 1e-3, 1e3);
    for (int i = 0; i < 3; i++) { v[i] = -b*w[i]; u[i] = a*w[i]; }
    aa_tf_vecs2quat(u, v, q); ref_qrot(q, w, r);
    for (int i = 0; i < 3; i++) vf_eq("vecs2quat antiparallel", r[i], -w[i]);
    vf_eq("vecs2quat antiparallel unit", q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3], 1);
}
void h_axes(void) {
    double R[9], x[3], y[3], z[3], M[9]; frame(R, x, y, z); double a = vf_range("a", 1e-3, 1e3), b = vf_range("b", 1e-3, 1e3);
    double X[3], Y[3], Z[3];
    for (int i = 0; i < 3; i++) { X[i] = a*x[i]; Y[i] = b*y[i]; Z[i] = b*z[i]; } aa_tf_rotmat_xy(X, Y, M); vf_eqn("rotmat_xy", 9, M, R);
    for (int i = 0; i < 3; i++) { Y[i] = a*y[i]; } aa_tf_rotmat_yz(Y, Z, M); vf_eqn("rotmat_yz", 9, M, R);
    for (int i = 0; i < 3; i++) { X[i] = a*x[i]; } aa_tf_rotmat_zx(Z, X, M); vf_eqn("rotmat_zx", 9, M, R);
}
static double look(double *R, double *eye, double *tgt, double *up) {
    double x[3], y[3], z[3]; frame(R, x, y, z); vf_reals("eye", 3, eye);
    double s = vf_range("s", 1e-3, 1e3), c1 = vf_range("c1", 1e-3, 1e3), c2 = vf_range("c2", -1e3, 1e3);
    for (int i = 0; i < 3; i++) { tgt[i] = eye[i] - s*z[i]; up[i] = c1*y[i] + c2*z[i]; }
    return s;
}
void h_look(void) {
    double R[9], e[3], t[3], u[3], M[12]; look(R, e, t, u);
    aa_tf_rotmat_mzlook(e, t, u, M); vf_eqn("rotmat_mzlook", 9, M, R);
    aa_tf_tfmat_mzlook(e, t, u, M); vf_eqn("tfmat_mzlook R", 9, M, R); vf_eqn("tfmat_mzlook v", 3, M+9, e);
}
void h_look_q(void) {
    double R[9], e[3], t[3], u[3], q[4], v[3], E[7]; look(R, e, t, u);
    switch (vf_pick("f", 3)) {
    case 0: aa_tf_qmzlook(e, t, u, q); ck_rot("qmzlook", q, R); break;
    case 1: aa_tf_qv_mzlook(e, t, u, q, v); ck_rot("qv_mzlook q", q, R); vf_eqn("qv_mzlook v", 3, v, e); break;
    case 2: aa_tf_qutr_mzlook(e, t, u, E); ck_rot("qutr_mzlook q", E, R); vf_eqn("qutr_mzlook v", 3, E+4, e); break;
    }
}
/* orthonormalization: x direction kept, y kept in the half plane of the given y; identity on rotations */
void h_normalize(void) {
    double R[9], x[3], y[3], z[3], M[12], v[3]; frame(R, x, y, z); vf_reals("v", 3, v);
    double a = vf_range("a", 1e-3, 1e3), b = vf_range("b", 1e-3, 1e3), c = vf_range("c", -1e3, 1e3);
    for (int i = 0; i < 3; i++) { M[i] = a*x[i]; M[3+i] = b*y[i] + c*x[i]; M[6+i] = vf_real("junk"); M[9+i] = v[i]; }
    double N[12]; cpy(12, M, N);
    aa_tf_rotmat_normalize(N); vf_eqn("rotmat_normalize", 9, N, R);
    aa_tf_tfmat_normalize(M); vf_eqn("tfmat_normalize R", 9, M, R); vf_eqn("tfmat_normalize v", 3, M+9, v);
}
void h_proj(void) {
    double a[3], b[3], p[3], o[3], c[3]; vf_reals("a", 3, a); vf_reals("b", 3, b); vf_assume_lt(0, ref_dot(b, b));
    aa_tf_proj(a, b, p); aa_tf_proj_orth(a, b, o);
    double k = ref_dot(a, b);
    for (int i = 0; i < 3; i++) { vf_eq("proj", p[i]*ref_dot(b, b), k*b[i]); vf_eq("proj+orth", p[i] + o[i], a[i]); }
    vf_eq("orth perpendicular", ref_dot(o, b), 0); ref_cross(p, b, c); for (int i = 0; i < 3; i++) vf_eq("proj parallel", c[i], 0);
}
void h_skew(void) {
    double u[3], w[3], r[3], e[3], R[9]; vf_reals("u", 3, u); vf_reals("w", 3, w); double a = vf_real("a"), b = vf_real("b");
    ref_cross(u, w, e);
    aa_tf_skew_sym(u, R); ref_mv(R, w, r); vf_eqn("skew_sym", 3, r, e);
    double f[3], g[3]; ref_cross(u, e, f); for (int i = 0; i < 3; i++) g[i] = w[i] + a*e[i] + b*f[i];
    aa_tf_skewsym_scal2(a, b, u, R); ref_mv(R, w, r); vf_eqn("skewsym_scal2", 3, r, g);
    double au[3], bu[3]; for (int i = 0; i < 3; i++) { au[i] = a*u[i]; bu[i] = b*u[i]; }
    aa_tf_skewsym_scal_c(u, au, bu, R); ref_mv(R, w, r); vf_eqn("skewsym_scal_c", 3, r, g);
    double L[9+6], K[9+6]; struct aa_dmat ML, MR;
    size_t ld = 3 + vf_pick("ld", 3);
    aa_dmat_view(&ML, 3, 3, L, ld); aa_dmat_view(&MR, 3, 3, K, ld);
    aa_tf_cross_mat_l(u, &ML); aa_tf_cross_mat_r(u, &MR);
    for (int i = 0; i < 3; i++) {
        vf_eq("cross_mat_l", L[i]*w[0] + L[i+ld]*w[1] + L[i+2*ld]*w[2], e[i]);
        vf_eq("cross_mat_r", K[i]*w[0] + K[i+ld]*w[1] + K[i+2*ld]*w[2], -e[i]);
    }
    aa_tf_cross(u, w, r); vf_eqn("cross", 3, r, e);
    vf_eq("vdot", aa_tf_vdot(u, w), ref_dot(u, w));
}
void h_davenport(void) {
    size_t n = vf_pick("n", 4), ld = 4 + vf_pick("ld", 2); double w[3], q[15], M[16], N[16], v[4], s = 0, t = 0;
    vf_reals("w", 3, w); vf_reals("q", 15, q); vf_reals("v", 4, v);
    aa_tf_quat_davenport_matrix(n, w, q, ld, M);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { s = 0; for (size_t k = 0; k < n; k++) s += w[k]*q[k*ld+i]*q[k*ld+j]; N[i+4*j] = s; }
    vf_eqn("davenport_matrix", 16, M, N);
}
void h_relx(void) {
    size_t n = 1 + vf_pick("n", 4), lx = 3 + vf_pick("lx", 2), ly = 3 + vf_pick("ly", 2); double R[9], X[20], Y[20], Z[20], m[3] = {0,0,0}, r[3];
    vf_reals("R", 9, R); vf_reals("X", 20, X); vf_reals("Y", 20, Y);
    aa_tf_relx(n, R, X, lx, Y, ly, Z, 4);
    for (size_t j = 0; j < n; j++) { double e[3]; ref_mv(R, X + lx*j, e); for (int i = 0; i < 3; i++) { e[i] = Y[ly*j+i] - e[i]; m[i] += e[i] / (double)n; } vf_eqn("relx", 3, Z + 4*j, e); }
    aa_tf_relx_mean(n, R, X, lx, Y, ly, r); vf_eqn("relx_mean", 3, r, m);
}
static double med(size_t n, double *x) {
    for (size_t i = 0; i < n; i++) for (size_t j = i+1; j < n; j++) if (x[j] < x[i]) { double t = x[i]; x[i] = x[j]; x[j] = t; }
    return n % 2 ? x[n/2] : (x[n/2] + x[n/2-1]) / 2;
}
void h_relx_median(void) {
    size_t n = 1 + vf_pick("n", 4); double R[9] = {1,0,0, 0,1,0, 0,0,1}, X[12], Y[12], Z[4], r[3], y[4], x[4];
    vf_reals("X", n, x); vf_reals("Y", n, y);
    for (size_t j = 0; j < 12; j++) X[j] = Y[j] = 0;
    for (size_t j = 0; j < n; j++) { X[3*j+1] = x[j]; Y[3*j+1] = y[j]; Z[j] = y[j] - x[j]; }
    aa_tf_relx_median(n, R, X, 3, Y, 3, r);
    vf_eq("relx_median", r[1], med(n, Z)); vf_eq("relx_median x", r[0], 0); vf_eq("relx_median z", r[2], 0);
}
void h_chainv(void) {
    double A[12], B[12], C[12], D[12], T[12], E[12], F[12]; vf_reals("A", 12, A); vf_reals("B", 12, B); vf_reals("C", 12, C); vf_reals("D", 12, D);
    aa_tf_v9mul(T, A, B, NULL); ref_rmul(A, B, E); vf_eqn("v9mul 2", 9, T, E);
    aa_tf_v9mul(T, A, B, C, NULL); ref_rmul(E, C, F); vf_eqn("v9mul 3", 9, T, F);
    aa_tf_v9mul(T, A, B, C, D, NULL); ref_rmul(F, D, E); vf_eqn("v9mul 4", 9, T, E);
    aa_tf_v12chain(T, A, B, NULL); ref_tmul(A, B, E); vf_eqn("v12chain 2", 12, T, E);
    aa_tf_v12chain(T, A, B, C, NULL); ref_tmul(E, C, F); vf_eqn("v12chain 3", 12, T, F);
    aa_tf_v12chain(T, A, B, C, D, NULL); ref_tmul(F, D, E); vf_eqn("v12chain 4", 12, T, E);
}
void h_vnorm(void) {
    double u[3], v[3], w[3]; vf_unit("u", 3, u); double a = vf_range("a", 1e-3, 1e3);
    for (int i = 0; i < 3; i++) v[i] = a*u[i];
    vf_eq("vnorm", aa_tf_vnorm(v), a); cpy(3, v, w); aa_tf_vnormalize(w); vf_eqn("vnormalize", 3, w, u);
}
