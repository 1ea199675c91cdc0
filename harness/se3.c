#include "ref.h"
#include "amino.h"
/* P03: SE(3) composition, inverse, relative transform and point action agree in every representation.
 * The reference object is the 3x4 matrix [R|p]. */
#define QV(q,v,n) double q[4], v[3]; in_qv(n "q", n "v", q, v);
static void t2(const double *q, const double *v, double *T) { ref_qv2t(q, v, T); }
static void ckq(const char *l, const double *q, const double *v, const double *T) {  /* quat+vec is T */
    double A[12]; ref_qv2t(q, v, A); vf_eqn(l, 12, A, T);
}
static void ckd(const char *l, const double *S, const double *q, const double *v) {  /* dual quat is (q,v) up to sign */
    double D[8]; ref_qv2d(q, v, D); ck_dsame(l, S, D);
}
void h_qv_chain(void) {
    QV(q0, v0, "a") QV(q1, v1, "b") double T0[12], T1[12], T[12], q[4], v[3];
    t2(q0, v0, T0); t2(q1, v1, T1); ref_tmul(T0, T1, T);
    aa_tf_qv_chain(q0, v0, q1, v1, q, v); ckq("qv_chain", q, v, T);
    double A[7], B[7], C[7]; cpy(4, q0, A); cpy(3, v0, A+4); cpy(4, q1, B); cpy(3, v1, B+4);
    aa_tf_qutr_mul(A, B, C); ckq("qutr_mul", C, C+4, T);
    aa_tf_qutr_mulnorm(A, B, C); ckq("qutr_mulnorm", C, C+4, T);
}
void h_qv_inv(void) {
    QV(q0, v0, "a") double T0[12], T[12], q[4], v[3];
    t2(q0, v0, T0); ref_tinv(T0, T);
    aa_tf_qv_conj(q0, v0, q, v); ckq("qv_conj", q, v, T);
    double A[7], C[7]; cpy(4, q0, A); cpy(3, v0, A+4);
    aa_tf_qutr_conj(A, C); ckq("qutr_conj", C, C+4, T);
}
void h_qutr_rel(void) {
    QV(q0, v0, "a") QV(q1, v1, "b") double T0[12], T1[12], I[12], T[12], A[7], B[7], C[7];
    t2(q0, v0, T0); t2(q1, v1, T1); cpy(4, q0, A); cpy(3, v0, A+4); cpy(4, q1, B); cpy(3, v1, B+4);
    ref_tinv(T0, I); ref_tmul(I, T1, T); aa_tf_qutr_cmul(A, B, C); ckq("qutr_cmul", C, C+4, T);
    ref_tinv(T1, I); ref_tmul(T0, I, T); aa_tf_qutr_mulc(A, B, C); ckq("qutr_mulc", C, C+4, T);
}
void h_action(void) {
    QV(q, v, "a") double p[3], r[4], s[3], T[12], S[8], E[7];
    vf_reals("p", 3, p); t2(q, v, T); ref_ttf(T, p, s);
    aa_tf_tf_qv(q, v, p, r); vf_eqn("tf_qv", 3, r, s);
    cpy(4, q, E); cpy(3, v, E+4);
    aa_tf_qutr_tf(E, p, r); vf_eqn("qutr_tf", 3, r, s);
    aa_tf_12(T, p, r); vf_eqn("12", 3, r, s);
    aa_tf_93(T, T+9, p, r); vf_eqn("93", 3, r, s);
    aa_tf_tfmat_tf(T, p, r); vf_eqn("tfmat_tf", 3, r, s);
    aa_tf_tfmat2_tf(T, T+9, p, r); vf_eqn("tfmat2_tf", 3, r, s);
    ref_qv2d(q, v, S);
    aa_tf_tf_duqu(S, p, r); vf_eqn("tf_duqu", 3, r, s);
    aa_tf_duqu_tf(S, p, r); vf_eqn("duqu_tf", 3, r, s);
    for (int i = 0; i < 8; i++) S[i] = -S[i];
    aa_tf_tf_duqu(S, p, r); vf_eqn("tf_duqu(-S)", 3, r, s);
}
void h_tfmat_mul(void) {
    double A[12], B[12], R[12], C[12]; vf_reals("A", 12, A); vf_reals("B", 12, B);
    ref_tmul(A, B, R);            /* holds for any affine matrices */
    aa_tf_tfmat_mul(A, B, C); vf_eqn("tfmat_mul", 12, C, R);
    aa_tf_12chain(A, B, C); vf_eqn("12chain", 12, C, R);
    aa_tf_93chain(A, A+9, B, B+9, C, C+9); vf_eqn("93chain", 12, C, R);
    aa_tf_tfmat2_mul(A, A+9, B, B+9, C, C+9); vf_eqn("tfmat2_mul", 12, C, R);
}
void h_tfmat_inv(void) {
    double A[12], R[12], C[12]; in_tfmat("q", "v", A); ref_tinv(A, R);
    aa_tf_tfmat_inv2(A, C); vf_eqn("tfmat_inv2", 12, C, R);
    aa_tf_12inv(A, C); vf_eqn("12inv", 12, C, R);
    aa_tf_93inv(A, A+9, C, C+9); vf_eqn("93inv", 12, C, R);
    cpy(12, A, C); aa_tf_tfmat_inv1(C); vf_eqn("tfmat_inv1", 12, C, R);
}
void h_tfmat_rel(void) {
    double A[12], B[12], I[12], R[12], C[12]; in_tfmat("aq", "av", A); in_tfmat("bq", "bv", B);
    ref_tinv(A, I); ref_tmul(I, B, R);
    aa_tf_12rel(A, B, C); vf_eqn("12rel", 12, C, R);
    aa_tf_93rel(A, A+9, B, B+9, C, C+9); vf_eqn("93rel", 12, C, R);
}
void h_tfmat_group(void) {   /* stated on the real code only: T * inv(T) = 1, associativity */
    double A[12], B[12], C[12], X[12], Y[12], Z[12], W[12]; in_tfmat("aq", "av", A);
    aa_tf_tfmat_inv2(A, X); aa_tf_tfmat_mul(A, X, Y); vf_eqn("T inv(T)", 12, Y, aa_tf_tfmat_ident);
    aa_tf_tfmat_mul(X, A, Y); vf_eqn("inv(T) T", 12, Y, aa_tf_tfmat_ident);
    vf_reals("B", 12, B); vf_reals("C", 12, C);
    aa_tf_tfmat_mul(A, B, X); aa_tf_tfmat_mul(X, C, Y); aa_tf_tfmat_mul(B, C, Z); aa_tf_tfmat_mul(A, Z, W);
    vf_eqn("assoc", 12, Y, W);
}
void h_duqu_mul(void) {      /* any dual quaternions */
    double A[8], B[8], C[8], R[8], X[8]; vf_reals("A", 8, A); vf_reals("B", 8, B);
    ref_dmul(A, B, R); aa_tf_duqu_mul(A, B, C); vf_eqn("duqu_mul", 8, C, R);
    ref_dconj(A, X); aa_tf_duqu_conj(A, C); vf_eqn("duqu_conj", 8, C, X);
    cpy(8, A, C); aa_tf_duqu_conj1(C); vf_eqn("duqu_conj1", 8, C, X);
    ref_dmul(X, B, R); aa_tf_duqu_cmul(A, B, C); vf_eqn("duqu_cmul", 8, C, R);
    ref_dconj(B, X); ref_dmul(A, X, R); aa_tf_duqu_mulc(A, B, C); vf_eqn("duqu_mulc", 8, C, R);
    double k = vf_real("k");
    for (int i = 0; i < 8; i++) R[i] = A[i] + B[i]; aa_tf_duqu_add(A, B, C); vf_eqn("duqu_add", 8, C, R);
    for (int i = 0; i < 8; i++) R[i] = A[i] - B[i]; aa_tf_duqu_sub(A, B, C); vf_eqn("duqu_sub", 8, C, R);
    for (int i = 0; i < 8; i++) R[i] = k*A[i]; aa_tf_duqu_smul(k, A, C); vf_eqn("duqu_smul", 8, C, R);
}
void h_duqu_mat(void) {
    double A[8], B[8], R[8], C[8], ML[64], MR[64]; vf_reals("A", 8, A); vf_reals("B", 8, B);
    aa_tf_duqu_matrix_l(A, ML, 8); aa_tf_duqu_matrix_r(A, MR, 8);
    ref_dmul(A, B, R);
    for (int i = 0; i < 8; i++) { C[i] = 0; for (int j = 0; j < 8; j++) C[i] += ML[i+8*j]*B[j]; }
    vf_eqn("duqu_matrix_l", 8, C, R);
    ref_dmul(B, A, R);
    for (int i = 0; i < 8; i++) { C[i] = 0; for (int j = 0; j < 8; j++) C[i] += MR[i+8*j]*B[j]; }
    vf_eqn("duqu_matrix_r", 8, C, R);
}
void h_duqu_rigid(void) {
    QV(q0, v0, "a") QV(q1, v1, "b") double T0[12], T1[12], T[12], A[8], B[8], C[8], M[12];
    t2(q0, v0, T0); t2(q1, v1, T1); ref_tmul(T0, T1, T);
    aa_tf_qv2duqu(q0, v0, A); aa_tf_qv2duqu(q1, v1, B);
    aa_tf_duqu_mul(A, B, C); aa_tf_duqu2tfmat(C, M); vf_eqn("duqu2tfmat(A B)", 12, M, T);
}
void h_conv(void) {
    QV(q, v, "a") double T[12], S[8], D[8], M[12], E[7], F[7], p[4], w[3];
    t2(q, v, T); ref_qv2d(q, v, D); cpy(4, q, E); cpy(3, v, E+4);
    aa_tf_qv2duqu(q, v, S); vf_eqn("qv2duqu", 8, S, D);
    aa_tf_qutr2duqu(E, S); vf_eqn("qutr2duqu", 8, S, D);
    aa_tf_qv2tfmat(q, v, M); vf_eqn("qv2tfmat", 12, M, T);
    aa_tf_qutr2tfmat(E, M); vf_eqn("qutr2tfmat", 12, M, T);
    aa_tf_duqu2tfmat(D, M); vf_eqn("duqu2tfmat", 12, M, T);
    aa_tf_duqu2qv(D, p, w); vf_eqn("duqu2qv q", 4, p, q); vf_eqn("duqu2qv v", 3, w, v);
    aa_tf_duqu2qutr(D, F); vf_eqn("duqu2qutr", 7, F, E);
    aa_tf_duqu_trans(D, w); vf_eqn("duqu_trans", 3, w, v);
}
void h_conv_t2(void) {     /* from matrices: every branch of the quaternion extraction */
    QV(q, v, "a") double T[12], E[7], p[4], w[3], S[8];
    t2(q, v, T);
    aa_tf_tfmat2qutr(T, E); ck_qsame("tfmat2qutr q", E, q); vf_eqn("tfmat2qutr v", 3, E+4, v);
    aa_tf_tfmat2duqu(T, S); ckd("tfmat2duqu", S, q, v);
}
void h_duqu_norm(void) {
    double S[8], R[8], n, d; vf_reals("S", 8, S);
    double r2 = S[0]*S[0]+S[1]*S[1]+S[2]*S[2]+S[3]*S[3]; vf_assume_lt(1e-3, r2);
    double rd = S[0]*S[4]+S[1]*S[5]+S[2]*S[6]+S[3]*S[7];
    aa_tf_duqu_norm(S, &n, &d);
    vf_eq("norm real", n*n, r2); vf_le("norm >= 0", 0, n); vf_eq("norm dual", d*n, rd);
    cpy(8, S, R); aa_tf_duqu_normalize(R);
    vf_eq("unit", R[0]*R[0]+R[1]*R[1]+R[2]*R[2]+R[3]*R[3], 1);
    for (int i = 0; i < 4; i++) vf_eq("direction", R[i]*n, S[i]);
}
void h_duqu_norm_unit(void) {     /* normalize leaves unit dual quaternions unchanged and keeps the transform */
    QV(q, v, "a") double S[8], R[8], n, d; ref_qv2d(q, v, S);
    aa_tf_duqu_norm(S, &n, &d); vf_eq("unit real", n, 1); vf_eq("unit dual", d, 0);
    cpy(8, S, R); aa_tf_duqu_normalize(R); (vf_eqn)("normalize unit", 8, R, S);
    aa_tf_duqu_minimize(R); ck_dsame("minimize same transform", R, S); vf_le("minimize w >= 0", 0, R[3]);
}
void h_xyz2duqu(void) {
    double q[4] = {0,0,0,1}, v[3], S[8], D[8]; vf_reals("v", 3, v);
    aa_tf_xyz2duqu(v[0], v[1], v[2], S);
    ref_qv2d(q, v, D); vf_eqn("xyz2duqu", 8, S, D);
}
void h_pure(void) {
    double v[6], S[8], w[6]; vf_reals("v", 6, v);
    aa_tf_pure2duqu(v, S); aa_tf_duqu2pure(S, w); vf_eqn("pure round trip", 6, w, v);
    vf_eq("real w", S[3], 0); vf_eq("dual w", S[7], 0);
    vf_eqn("real = rotational", 3, S, v+3); vf_eqn("dual = translational", 3, S+4, v);
}
void h_tfqv(void) {       /* duqu chain identity: (A*B) p = A (B p) on the real code */
    QV(q0, v0, "a") QV(q1, v1, "b") double A[7], B[7], C[7], p[3], x[3], y[3], z[3];
    vf_reals("p", 3, p); cpy(4, q0, A); cpy(3, v0, A+4); cpy(4, q1, B); cpy(3, v1, B+4);
    aa_tf_qutr_mul(A, B, C); aa_tf_qutr_tf(C, p, x); aa_tf_qutr_tf(B, p, y); aa_tf_qutr_tf(A, y, z);
    vf_eqn("(AB)p = A(Bp)", 3, x, z);
}
void h_duqu_vnorm(void) {   /* dual norm of the vector part */
    double S[8], n, d; vf_reals("S", 8, S); AA_API void aa_tf_duqu_vnorm(const double S[8], double *, double *);
    double r2 = S[0]*S[0]+S[1]*S[1]+S[2]*S[2]; vf_assume_lt(1e-3, r2);
    aa_tf_duqu_vnorm(S, &n, &d);
    vf_eq("vnorm real", n*n, r2); vf_le("vnorm >= 0", 0, n); vf_eq("vnorm dual", d*n, S[0]*S[4]+S[1]*S[5]+S[2]*S[6]);
}
