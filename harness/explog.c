#include "ref.h"
#include "amino.h"
/* P04: exponential and logarithm are mutually inverse and agree across representations. */
AA_API void aa_tf_qpexp(const double q[3], double r[4]);
AA_API void aa_tf_qexp_n(const double q[4], double r[4]);
AA_API void aa_tf_qpow(const double q[4], double a, double r[4]);
/* SE(3) exponential of the twist (p, th*u), Rodrigues form */
static void ref_exp6(const double *u, double th, const double *p, double *T) {
    double s = sin(th), c = cos(th), s2 = sin(th/2), b = vf_symbolic() ? (1-c)/th : 2*s2*s2/th,
        a = vf_symbolic() || th > 0.05 ? (th - s)/th : th*th/6*(1 - th*th/20*(1 - th*th/42*(1 - th*th/72))), K[9] = {0, u[2], -u[1], -u[2], 0, u[0], u[1], -u[0], 0}, V[9];
    ref_aa2r(u, th, T);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        V[i+3*j] = (i == j)*s/th + b * K[i+3*j] + a * u[i]*u[j];
    ref_mv(V, p, T+9);
}
static void in_tw(double *u, double *th, double *p, double lo, double hi) {
    vf_unit("u", 3, u); *th = vf_range("th", lo, hi); vf_reals("p", 3, p);
}
void h_qexp(void) {
    double u[3], q[4], r[4], e[4]; vf_unit("u", 3, u); double th = vf_range("th", 0.01, 3.1), w = vf_range("w", -3, 3);
    ref_aa2q(u, 2*th, r); for (int i = 0; i < 4; i++) r[i] *= exp(w);
    for (int i = 0; i < 3; i++) q[i] = u[i]*th; q[3] = w;
    aa_tf_qexp(q, e); vf_eqn("qexp", 4, e, r);
    aa_tf_qexp_n(q, e); vf_eqn("qexp_n", 4, e, r);
    ref_aa2q(u, 2*th, r);
    aa_tf_qpexp(q, e); vf_eqn("qpexp", 4, e, r);
}
void h_qln(void) {      /* ln of s exp(th u) is (th u, log s) */
    double u[3], q[4], l[4]; vf_unit("u", 3, u); double th = vf_range("th", 0.01, 3.1), s = vf_range("s", 0.1, 10);
    ref_aa2q(u, 2*th, q); for (int i = 0; i < 4; i++) q[i] *= s;
    aa_tf_qln(q, l);
    for (int i = 0; i < 3; i++) vf_eq("qln v", l[i], th*u[i]);
    vf_eq("qln w", l[3], log(s));
}
void h_qexpln(void) {   /* exp(ln q) = q on the real code, unit q including w < 0 */
    double q[4], l[4], e[4]; vf_unit("q", 4, q);
    double vv = q[0]*q[0] + q[1]*q[1] + q[2]*q[2]; vf_assume_lt(1e-4, vv);
    aa_tf_qln(q, l); vf_near("ln of unit is pure", l[3], 0, 1e-9); aa_tf_qexp(l, e); vf_eqn("exp(ln q)", 4, e, q);
}
void h_qln_neg(void) {  /* negative real axis */
    double q[4] = {0, 0, 0, 0}, l[4], e[4]; double s = vf_range("s", 0.1, 10); q[3] = -s;
    aa_tf_qln(q, l); aa_tf_qexp(l, e);
    for (int i = 0; i < 4; i++) vf_near("exp(ln(-s))", e[i], q[i], 1e-9);
}
void h_qpow(void) {
    double u[3], q[4], r[4], p[4]; vf_unit("u", 3, u); double th = vf_range("th", 0.1, 3.0);
    size_t k = vf_pick("k", 4); double a = k == 0 ? 2 : k == 1 ? 0.5 : k == 2 ? -1 : 3;
    ref_aa2q(u, 2*th, q); ref_aa2q(u, 2*a*th, r);
    aa_tf_qpow(q, a, p); vf_eqn("qpow", 4, p, r);
}
void h_exp6(void) {     /* all representations: twist/2 is the argument of the (dual) quaternion exponential */
    double u[3], th, p[3], T[12], M[12], w[6], h[6], E[7], S[8], D[8], A[12];
    in_tw(u, &th, p, 0.02, 6.2); ref_exp6(u, th, p, T);
    for (int i = 0; i < 3; i++) { w[i] = p[i]; w[3+i] = th*u[i]; }
    for (int i = 0; i < 6; i++) h[i] = w[i]/2;
    aa_tf_tfmat_expv(w, M); vf_eqn("tfmat_expv", 12, M, T);
    aa_tf_qutr_expv(h, E); ref_qv2t(E, E+4, A); vf_eqn("qutr_expv", 12, A, T);
    double q[4], v[3]; aa_tf_qv_expv(h+3, h, q, v); ref_qv2t(q, v, A); vf_eqn("qv_expv", 12, A, T);
    aa_tf_pure2duqu(h, S); aa_tf_duqu_exp(S, D);
    aa_tf_duqu2tfmat(D, A); vf_eqn("duqu_exp", 12, A, T);
    vf_eqn("duqu_exp real = quat exp", 4, D, E);
}
void h_duqu_exp_s(void) {   /* scalar part multiplies by the dual number exp(w + eps d) = e^w (1 + eps d) */
    double u[3], th, p[3], h[6], S[8], D[8], F[8];
    in_tw(u, &th, p, 0.02, 3.0);
    for (int i = 0; i < 3; i++) { h[i] = p[i]; h[3+i] = th*u[i]; }
    double d = vf_real("d"), w = vf_pick("w0", 2) ? vf_range("w", 0.1, 2) : -vf_range("w", 0.1, 2);
    aa_tf_pure2duqu(h, S); aa_tf_duqu_exp(S, D);
    S[3] = w; S[7] = d; aa_tf_duqu_exp(S, F);
    for (int i = 0; i < 4; i++) { vf_eq("real scaled", F[i], exp(w)*D[i]); vf_eq("dual scaled", F[4+i], exp(w)*(D[4+i] + d*D[i])); }
}
void h_ln6_q(void) {    /* log inverts exp for rotation angle in (0, 2pi): half-angle below pi */
    double u[3], th, p[3], T[12], h[6], E[7], S[8], L[8], l[6], q[4];
    in_tw(u, &th, p, 0.02, 6.2); ref_exp6(u, th, p, T); ref_aa2q(u, th, q);
    for (int i = 0; i < 3; i++) { h[i] = p[i]/2; h[3+i] = th*u[i]/2; }
    cpy(4, q, E); cpy(3, T+9, E+4);
    aa_tf_qutr_lnv(E, l); vf_eqn("qutr_lnv", 6, l, h);
    double a[3], b[3]; aa_tf_qv_lnv(q, T+9, a, b); vf_eqn("qv_lnv w", 3, a, h+3); vf_eqn("qv_lnv v", 3, b, h);
    ref_qv2d(q, T+9, S);
    aa_tf_duqu_lnv(S, l); vf_eqn("duqu_lnv", 6, l, h);
    aa_tf_duqu_ln(S, L); vf_eqn("duqu_ln real", 3, L, h+3); vf_eqn("duqu_ln dual", 3, L+4, h); vf_near("duqu_ln real w", L[3], 0, 1e-9); vf_eq("duqu_ln dual w", L[7], 0);
}
void h_ln6_T(void) {
    double u[3], th, p[3], T[12], l[6];
    in_tw(u, &th, p, 0.02, 3.0); vf_assume_lt(-0.98, cos(th)); ref_exp6(u, th, p, T);
    aa_tf_tfmat_lnv(T, l);
    for (int i = 0; i < 3; i++) { vf_eq("tfmat_lnv w", l[3+i], th*u[i]); vf_eq("tfmat_lnv v", l[i], p[i]); }
}
/* near pi the matrix logarithm may return the equivalent rotation vector: exp of it is checked instead */
void h_ln6_Tpi(void) {
    double T[12], l[6], p[3], A[12]; vf_reals("p", 3, p);
    static const double U[6][3] = {{1,0,0},{0,-1,0},{0,0,1},{2./7,-3./7,6./7},{-6./7,2./7,3./7},{3./7,6./7,-2./7}};
    const double *u = U[vf_pick("axis", 6)];
    double d = vf_range("d", 0.0, 0.02);
    ref_aa2r(u, M_PI - d, T); cpy(3, p, T+9);
    aa_tf_tfmat_lnv(T, l);
    double s = l[3]*u[0] + l[4]*u[1] + l[5]*u[2];
    for (int i = 0; i < 3; i++) vf_near("axis", l[3+i], s*u[i], 1e-7);
    ref_exp6(u, s, l, A);
    for (int i = 0; i < 12; i++) vf_near("exp(tfmat_lnv) near pi", A[i], T[i], 1e-6);
}
void h_duqu_ln_s(void) {   /* ln of (s + eps t) * exp: adds log s and t/s to the scalar parts */
    double u[3], th, p[3], T[12], S[8], L[8], M[8], q[4], F[8];
    in_tw(u, &th, p, 0.02, 6.0); ref_aa2q(u, th, q); ref_qv2d(q, p, S);
    double s = vf_range("s", 0.2, 5), t = vf_real("t");
    aa_tf_duqu_ln(S, L);
    for (int i = 0; i < 4; i++) { F[i] = s*S[i]; F[4+i] = s*S[4+i] + t*S[i]; }
    aa_tf_duqu_ln(F, M);
    for (int i = 0; i < 3; i++) { vf_eq("real v", M[i], L[i]); vf_eq("dual v", M[4+i], L[4+i]); }
    vf_eq("real w", M[3], log(s)); vf_eq("dual w", M[7]*s, t);
}
/* ---- small angles: the series branches, one fixed direction, four fixed translations, angle symbolic */
#define SM(u, th, h, hi, np) double u[3] = {1./3, -2./3, 2./3}, h[6]; double th = vf_range("th", 1e-10, hi); \
    static const double PP[4][3] = {{1.5,-0.75,0.5},{1,0,0},{0,-1,0},{0,0,2}}; \
    const double *p_ = PP[vf_pick("p", np)]; h[0] = p_[0]; h[1] = p_[1]; h[2] = p_[2]; for (int i = 0; i < 3; i++) h[3+i] = th*u[i];
static void ck_small(const char *l, const double *A, const double *T) { for (int i = 0; i < 12; i++) vf_near(l, A[i], T[i], 1e-11); }
/* V p with series-free reference scaled by th */
// vf: h_small_T taylor=1 atomK=2
void h_small_T(void) {
    SM(u, th, w, 1e-4, 4) double T[12], A[12]; ref_exp6(u, th, w, T);
    aa_tf_tfmat_expv(w, A); ck_small("small tfmat_expv", A, T);
}
// vf: h_small_E taylor=1 atomK=2 tc=16000
void h_small_E(void) {
    SM(u, th, w, 5e-4, 1) double T[12], A[12], h[6], E[7]; ref_exp6(u, th, w, T);
    for (int i = 0; i < 6; i++) h[i] = w[i]/2;
    aa_tf_qutr_expv(h, E); ref_qv2t(E, E+4, A); ck_small("small qutr_expv", A, T);
}
// vf: h_small_S taylor=1 atomK=2
void h_small_S(void) {
    SM(u, th, w, 1e-7, 4) double T[12], A[12], h[6], S[8], D[8]; ref_exp6(u, th, w, T);
    for (int i = 0; i < 6; i++) h[i] = w[i]/2;
    aa_tf_pure2duqu(h, S); aa_tf_duqu_exp(S, D); ref_qv2t(D, w, A);
    double v[3]; aa_tf_duqu_trans(D, v); for (int i = 0; i < 3; i++) A[9+i] = v[i];
    ck_small("small duqu_exp", A, T);
}
// vf: h_small_lnE taylor=1 atomK=2
void h_small_lnE(void) {
    SM(u, th, w, 1e-7, 2) double T[12], E[7], l[6], S[8]; ref_exp6(u, th, w, T); ref_aa2q(u, th, E); cpy(3, T+9, E+4);
    aa_tf_qutr_lnv(E, l); for (int i = 0; i < 6; i++) vf_near("small qutr_lnv", l[i], w[i]/2, 1e-11);
    ref_qv2d(E, E+4, S); aa_tf_duqu_lnv(S, l); for (int i = 0; i < 6; i++) vf_near("small duqu_lnv", l[i], w[i]/2, 1e-11);
}
// vf: h_small_lnT taylor=1 atomK=2 tier=thorough
void h_small_lnT(void) {
    SM(u, th, w, 1e-8, 4) double T[12], l[6]; ref_exp6(u, th, w, T);
    aa_tf_tfmat_lnv(T, l); for (int i = 0; i < 6; i++) vf_near("small tfmat_lnv", l[i], w[i], 1e-9);
}
// vf: h_small_q taylor=1
void h_small_q(void) {
    double u[3] = {1./3, -2./3, 2./3}, q[4], r[4], e[4], l[4]; double th = vf_range("th", 1e-10, 1e-3);
    for (int i = 0; i < 3; i++) q[i] = th*u[i]; q[3] = 0;
    ref_aa2q(u, 2*th, r);
    aa_tf_qexp(q, e); for (int i = 0; i < 4; i++) vf_near("small qexp", e[i], r[i], 1e-13);
    aa_tf_qpexp(q, e); for (int i = 0; i < 4; i++) vf_near("small qpexp", e[i], r[i], 1e-13);
    aa_tf_qln(r, l); for (int i = 0; i < 3; i++) vf_near("small qln", l[i], q[i], 1e-13);
}
void h_zero(void) {
    double z[6] = {0}, E[7], T[12], S[8] = {0}, D[8], l[6], p[3]; vf_reals("p", 3, p);
    double x[6] = {p[0]/2, p[1]/2, p[2]/2, 0, 0, 0}, y[6] = {p[0], p[1], p[2], 0, 0, 0}, I[12] = {1,0,0,0,1,0,0,0,1, p[0], p[1], p[2]}, A[12];
    aa_tf_qutr_expv(x, E); ref_qv2t(E, E+4, A); vf_eqn("qutr_expv translation", 12, A, I);
    aa_tf_tfmat_expv(y, A); vf_eqn("tfmat_expv translation", 12, A, I);
    aa_tf_tfmat_lnv(I, l); vf_eqn("tfmat_lnv translation", 6, l, y);
    aa_tf_qutr_lnv(E, l); vf_eqn("qutr_lnv translation", 6, l, x);
    aa_tf_pure2duqu(x, S); aa_tf_duqu_exp(S, D); aa_tf_duqu_lnv(D, l); vf_eqn("duqu exp ln translation", 6, l, x);
    aa_tf_duqu2tfmat(D, A); vf_eqn("duqu_exp translation", 12, A, I);
}
/* rotation by a full turn, q = -1: the logarithm must at least be a number and exp must give the transform back.
 * (recorded as a known finding: the unit logarithms divide by sin(phi) = 0) */
static void ck_m1(const char *l, const double *h, const double *p) {
    double E[7], A[12], I[12] = {1,0,0,0,1,0,0,0,1, p[0], p[1], p[2]};
    aa_tf_qutr_expv(h, E); ref_qv2t(E, E+4, A);
    for (int i = 0; i < 12; i++) vf_near(l, A[i], I[i], 1e-6);
}
void h_ln_m1_qutr(void) { double E[7] = {0,0,0,-1,0,0,0}, l[6]; E[4] = vf_range("p", 0.5, 2); aa_tf_qutr_lnv(E, l); ck_m1("qutr_lnv at -1", l, E+4); }
void h_ln_m1_duqu(void) { double E[7] = {0,0,0,-1,0,0,0}, S[8], l[6]; E[4] = vf_range("p", 0.5, 2); ref_qv2d(E, E+4, S); aa_tf_duqu_lnv(S, l); ck_m1("duqu_lnv at -1", l, E+4); }
// vf: h_small_qln_s taylor=1
void h_small_qln_s(void) {   /* small-angle branch of ln for non-unit quaternions */
    double u[3] = {1./3, -2./3, 2./3}, r[4], l[4]; double th = vf_range("th", 1e-10, 1e-3), s = vf_pick("s", 2) ? 4 : 0.5;
    ref_aa2q(u, 2*th, r); for (int i = 0; i < 4; i++) r[i] *= s;
    aa_tf_qln(r, l); for (int i = 0; i < 3; i++) vf_near("small qln scaled", l[i], th*u[i], 1e-11);
    vf_near("log |q|", exp(l[3]), s, 1e-9);
}
