#include "ref.h"
#include "amino.h"
/* P13: dense vector / matrix functions of math.h, la.h */
#define N 4
void h_elementwise(void) {
    size_t n = vf_pick("n", N + 1); double a = vf_real("a"), x[N], y[N], r[N + 1], e[N], z[N + 1];
    vf_reals("x", N, x); vf_reals("y", N, y);
#define CHK(lab, call, expr) do { r[n] = 7; call; for (size_t i = 0; i < n; i++) { e[i] = expr; vf_eq(lab, r[i], e[i]); } vf_true(lab ": stays within n", r[n] == 7); } while (0)
#define INIT(v) for (size_t i = 0; i < n; i++) r[i] = v[i]
    CHK("sadd", aa_la_sadd(n, a, x, r), a + x[i]);
    CHK("smul", aa_la_smul(n, a, x, r), a * x[i]);
    CHK("ssub", aa_la_ssub(n, a, x, r), a - x[i]);
    CHK("vadd", aa_la_vadd(n, x, y, r), x[i] + y[i]);
    CHK("vsub", aa_la_vsub(n, x, y, r), x[i] - y[i]);
    CHK("vmul", aa_la_vmul(n, x, y, r), x[i] * y[i]);
    INIT(y); CHK("vinc", aa_la_vinc(n, x, r), x[i] + y[i]);
    INIT(x); CHK("sinc", aa_la_sinc(n, a, r), x[i] + a);
    INIT(x); CHK("scal", aa_la_scal(n, a, r), x[i] * a);
    INIT(y); CHK("axpy", aa_la_axpy(n, a, x, r), a * x[i] + y[i]);
    CHK("axpy3", aa_la_axpy3(n, a, x, y, r), a * x[i] + y[i]);
    CHK("lerp", aa_la_d_lerp(n, a, x, 1, y, 1, r, 1), x[i] + a * (y[i] - x[i]));
    for (size_t i = 0; i < n; i++) vf_assume_ne(y[i], 0);
    CHK("vdiv", aa_la_vdiv(n, x, y, r), x[i] / y[i]);
    CHK("sdiv", aa_la_sdiv(n, a, y, r), a / y[i]);
    (void)z;
}
void h_reduce(void) {
    size_t n = vf_pick("n", N + 1); double x[N + 1], y[N + 1], s = 0, d = 0, w = 0;
    vf_reals("x", N + 1, x); vf_reals("y", N + 1, y);
    for (size_t i = 0; i < n; i++) { s += x[i]*y[i]; d += x[i]*x[i]; w += (x[i]-y[i])*(x[i]-y[i]); }
    vf_eq("dot", aa_la_dot(n, x, y), s);
    double nn = aa_la_norm(n, x); vf_le("norm >= 0", 0, nn); vf_eq("norm^2", nn*nn, d);
    vf_eq("ssd", aa_la_ssd(n, x, y), w);
    double di = aa_la_dist(n, x, y); vf_le("dist >= 0", 0, di); vf_eq("dist^2", di*di, w);
}
void h_strided(void) {   /* increments and leading dimensions */
    size_t n = 1 + vf_pick("n", 3), i1 = 1 + vf_pick("i1", 3), i2 = 1 + vf_pick("i2", 2); double x[9], y[9], s = 0, r[9], u = vf_real("u");
    vf_reals("x", 9, x); vf_reals("y", 9, y);
    for (size_t i = 0; i < n; i++) s += (x[i*i1]-y[i*i2])*(x[i*i1]-y[i*i2]);
    vf_eq("d_ssd", aa_la_d_ssd(n, x, i1, y, i2), s);
    for (int i = 0; i < 9; i++) r[i] = 5;
    aa_la_d_lerp(n, u, x, i1, y, i2, r, 3);
    for (size_t i = 0; i < 9; i++) { if (i % 3 == 0 && i/3 < n) vf_eq("d_lerp", r[i], x[i/3*i1] + u*(y[i/3*i2] - x[i/3*i1])); else vf_true("d_lerp touches only its elements", r[i] == 5); }
}
void h_minmax(void) {
    size_t n = 1 + vf_pick("n", 3); double x[4]; vf_reals("x", 4, x); double lo = aa_la_min(n, x), hi = aa_la_max(n, x); int a = 0, b = 0;
    for (size_t i = 0; i < n; i++) { vf_le("min", lo, x[i]); vf_le("max", x[i], hi); a |= lo == x[i]; b |= hi == x[i]; }
    vf_true("min is an element", a); vf_true("max is an element", b);
}
void h_loc(void) {
    size_t n = 1 + vf_pick("n", 3), inc = 1 + vf_pick("inc", 2); double x[6]; vf_reals("x", 6, x);
    size_t i = aa_la_d_minloc(n, x, inc), j = aa_la_d_maxloc(n, x, inc); vf_true("in range", i < n && j < n);
    for (size_t k = 0; k < n; k++) { vf_le("minloc", x[i*inc], x[k*inc]); vf_le("maxloc", x[k*inc], x[j*inc]); }
    if (inc == 1) vf_true("fminloc / fmaxloc", aa_fminloc(n, x) == i && aa_fmaxloc(n, x) == j);
}
void h_matmax(void) {
    size_t m = 1 + vf_pick("m", 2), n = 1 + vf_pick("n", 2), ld = m + vf_pick("pad", 2), a, b; double x[6]; vf_reals("x", 6, x);
    double v = aa_la_d_mat_max(m, n, x, ld, &a, &b); vf_true("in range", a < m && b < n); vf_eq("value at location", v, x[a + b*ld]);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) vf_le("maximum", x[i + j*ld], v);
}
void h_cross(void) {
    double a[3], b[3], c[3], e[3]; vf_reals("a", 3, a); vf_reals("b", 3, b); aa_la_cross(a, b, c); ref_cross(a, b, e); vf_eqn("cross", 3, c, e);
}
void h_normalize(void) {
    size_t n = 1 + vf_pick("n", 4); double x[4], y[4], d = 0; vf_reals("x", 4, x); for (size_t i = 0; i < n; i++) { d += x[i]*x[i]; y[i] = x[i]; }
    vf_assume_lt(0, d); aa_la_normalize(n, y); double l = sqrt(d); for (size_t i = 0; i < n; i++) vf_eq("normalize", y[i] * l, x[i]);
}
void h_transpose(void) {
    size_t m = 1 + vf_pick("m", 3), n = 1 + vf_pick("n", 3); double A[12], B[16], x[12]; vf_reals("A", 12, A);
    aa_la_transpose2(m, n, A, B); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) vf_eq("transpose2", B[j + i*n], A[i + j*m]);
    for (size_t i = 0; i < 16; i++) B[i] = 3;
    aa_la_d_transpose(m, n, A, m + 1, B, n + 1); for (size_t i = 0; i < m; i++) for (size_t j = 0; j <= n; j++) if (j < n) vf_eq("d_transpose", B[j + i*(n+1)], A[i + j*(m+1)]); else if (i + 1 < m) vf_true("padding kept", B[j + i*(n+1)] == 3);
    for (int i = 0; i < 12; i++) x[i] = A[i];
    aa_la_transpose(n, x); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) vf_eq("transpose in place", x[j + i*n], A[i + j*n]);
}
void h_square(void) {
    size_t n = 1 + vf_pick("n", 3); double A[9], x[3], y[3], B[10], t = 0, w = 0, k = vf_real("k"), b[4]; vf_reals("A", 9, A); vf_reals("x", 3, x); vf_reals("y", 3, y);
    for (size_t i = 0; i < n; i++) { t += A[i + i*n]; for (size_t j = 0; j < n; j++) w += x[i]*A[i + j*n]*y[j]; }
    vf_eq("trace", aa_la_trace(n, A), t); vf_eq("wdot", aa_la_wdot(n, x, A, y), w);
    for (int i = 0; i < 9; i++) B[i] = A[i];
    B[9] = 4; aa_la_diag(n, B, k); for (size_t i = 0; i < n*n; i++) vf_eq("diag", B[i], i % (n+1) == 0 ? k : A[i]);
    B[n*n] = 4; aa_la_ident(n, B); for (size_t i = 0; i < n*n; i++) vf_eq("ident", B[i], i % (n+1) == 0); vf_true("ident within", B[n*n] == 4);
    size_t m = 1 + vf_pick("m", 3); b[m] = 9; aa_la_mvmul(m, n, A, x, b); for (size_t i = 0; i < m; i++) { double s = 0; for (size_t j = 0; j < n; j++) s += A[i + j*m]*x[j]; vf_eq("mvmul", b[i], s); } vf_true("mvmul within", b[m] == 9);
}
void h_det(void) {
    double A[9], v[3]; vf_reals("A", 9, A); ref_cross(A, A + 3, v); vf_eq("det3x3", aa_la_det3x3(A), ref_dot(v, A + 6));
}
/* ---- inverses */
static void inv_check(const char *l, size_t n, const double *A, size_t ld, const double *B) {
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += A[i + k*ld]*B[k + j*ld]; vf_eq(l, s, i == j); }
}
void h_inv2(void) {
    size_t n = 1 + vf_pick("n", 2); double A[4], B[4]; vf_reals("A", 4, A); for (int i = 0; i < 4; i++) B[i] = A[i];
    vf_assume_ne(n == 1 ? A[0] : A[0]*A[3] - A[1]*A[2], 0);
    vf_true("success", aa_la_inv(n, B) == 0); inv_check("A inv(A) = I", n, A, n, B);
}
void h_inv3(void) {   /* pivoting in every column */
    double P[9], B[9], a = vf_range("a", 0.5, 2), b = vf_range("b", -0.4, 0.4), c = vf_range("c", -0.4, 0.4), d = vf_range("d", 0.5, 2), e = vf_range("e", -1, 1), f = vf_range("f", 0.5, 2), g = vf_range("g", -1, 1), h = vf_range("h", -1, 1);
    double L[9] = {1, b, c, 0, 1, b/2, 0, 0, 1}, U[9] = {a, 0, 0, e, d, 0, g, h, f}, A[9]; static const int pm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    const int *p = pm[vf_pick("perm", 6)];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += L[i + 3*k]*U[k + 3*j]; A[p[i] + 3*j] = s; }
    for (int i = 0; i < 9; i++) B[i] = P[i] = A[i];
    vf_true("success", aa_la_inv(3, B) == 0); inv_check("A inv(A) = I (3)", 3, P, 3, B);
}
void h_inv_singular(void) {
    double A[4], k = vf_real("k"); vf_reals("A", 2, A); A[2] = k*A[0]; A[3] = k*A[1];
    vf_true("a singular matrix is reported", aa_la_inv(2, A) != 0);
}
static void dpinv_check(size_t m, size_t n, const double *A, double k, const double *As) {   /* As (A A' + k I) = A' */
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) {
        double s = k * As[i + j*n];
        for (size_t q = 0; q < m; q++) { double g = 0; for (size_t l = 0; l < n; l++) g += A[q + l*m]*A[j + l*m]; s += As[i + q*n]*g; }
        vf_eq("damped pseudo-inverse", s, A[j + i*m]);
    }
}
static const size_t dims[6][2] = {{1,1},{1,2},{2,1},{2,2},{2,3},{3,2}};
void h_dpinv(void) {
    const size_t *d = dims[vf_pick("d", 5)], m = d[0], n = d[1]; double A[6], S[6], k = vf_range("k", 1e-3, 10); vf_reals("A", 6, A);
    aa_la_dpinv(m, n, k, A, S); dpinv_check(m, n, A, k, S);
}
void h_dls(void) {
    const size_t *d = dims[vf_pick("d", 4)], m = d[0], n = d[1]; double A[6], S[6], k = vf_range("k", 1e-3, 10), b[3], x[3], xp[3], y[3], z[3]; vf_reals("A", 6, A); vf_reals("b", 3, b); vf_reals("xp", 3, xp);
    aa_la_dpinv(m, n, k, A, S); aa_la_dls(m, n, k, A, b, x); aa_la_xlsnp(m, n, A, S, b, xp, y); aa_la_dlsnp(m, n, k, A, b, xp, z);
    for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < m; j++) s += S[i + j*n]*b[j]; vf_eq("dls", x[i], s); }
    vf_eqn("dlsnp = xlsnp with the damped inverse", n, z, y);
}
void h_np(void) {
    const size_t *d = dims[vf_pick("d", 6)], m = d[0], n = d[1]; double A[6], S[6], B[10], b[3], xp[3], y[4]; vf_reals("A", 6, A); vf_reals("S", 6, S); vf_reals("b", 3, b); vf_reals("xp", 3, xp);
    B[n*n] = 6; aa_la_np(m, n, A, S, B); y[n] = 8; aa_la_xlsnp(m, n, A, S, b, xp, y); vf_true("within", B[n*n] == 6 && y[n] == 8);
    for (size_t i = 0; i < n; i++) { double e = xp[i]; for (size_t j = 0; j < m; j++) e += S[i + j*n]*b[j];
        for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < m; k++) s += S[i + k*n]*A[k + j*m]; vf_eq("null-space projection", B[i + j*n], s - (i == j)); e -= s*xp[j]; }
        vf_eq("least squares with null-space projection", y[i], e); }
}
/* ---- decompositions */
static void rot2(const char *n, double *R) { double u[2]; vf_unit(n, 2, u); R[0] = u[1]; R[1] = u[0]; R[2] = -u[0]; R[3] = u[1]; }
static double sA[16], sU[9], sV[9], sS[3];
static void mk_svd(size_t m, size_t n, size_t ld) {   /* A = U S Vt at leading dimension ld */
    double q[4];
    if (m == 2) rot2("u", sU); else if (m == 3) { vf_unit("qu", 4, q); ref_q2r(q, sU); } else sU[0] = vf_pick("su", 2) ? 1 : -1;
    if (n == 2) rot2("v", sV); else if (n == 3) { vf_unit("qv", 4, q); ref_q2r(q, sV); } else sV[0] = vf_pick("sv", 2) ? 1 : -1;
    size_t k = m < n ? m : n; sS[0] = vf_range("s0", 0, 10); if (k > 1) { sS[1] = vf_range("s1", 0, 10); vf_assume_le(sS[1], sS[0]); }
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < ld; i++) { double s = 0; if (i < m) for (size_t l = 0; l < k; l++) s += sU[i + l*m]*sS[l]*sV[l + j*n]; else s = 77; sA[i + j*ld] = s; }
}
static double tight[9];
static void reg_svd(size_t m, size_t n, size_t ld) { for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) tight[i + j*m] = sA[i + j*ld]; vf_orc_svd((int)m, (int)n, tight, sU, sS, sV); }
void h_svd(void) {
    const size_t *d = dims[vf_pick("d", 6)], m = d[0], n = d[1], ld = m + vf_pick("pad", 2), ldu = m + vf_pick("padu", 2), ldv = n + 1, k = m < n ? m : n; mk_svd(m, n, ld); reg_svd(m, n, ld);
    double U[12], V[12], S[3], W[3]; vf_true("svd succeeds", aa_la_d_svd(m, n, sA, ld, U, ldu, S, V, ldv) == 0);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t l = 0; l < k; l++) s += U[i + l*ldu]*S[l]*V[l + j*ldv]; vf_eq("A = U S V^T", s, sA[i + j*ld]); }
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { double s = 0; for (size_t l = 0; l < m; l++) s += U[l + i*ldu]*U[l + j*ldu]; vf_eq("U orthogonal", s, i == j); }
    vf_true("singular values only", aa_la_d_svd(m, n, sA, ld, NULL, 0, W, NULL, 0) == 0); for (size_t l = 0; l < k; l++) vf_eq("same singular values", W[l], S[l]);
}
static void sv_sum(const char *l, size_t m, size_t n, const double *f, const double *As, size_t ld) {   /* sum f_i v_i u_i^T */
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { double s = 0; for (size_t q = 0; q < (m < n ? m : n); q++) s += f[q]*sV[q + i*n]*sU[j + q*m]; vf_eq(l, As[i + j*ld], s); }
}
void h_dzdpinv(void) {
    const size_t *d = dims[vf_pick("d", 6)], m = d[0], n = d[1], k = m < n ? m : n; mk_svd(m, n, m); reg_svd(m, n, m);
    double s2 = vf_range("s2", 1e-4, 4), S[7], f[2]; S[n*m] = 5; aa_la_dzdpinv(m, n, s2, sA, S);
    for (size_t i = 0; i < k; i++) f[i] = sS[i]*sS[i] > s2 ? sS[i]/(sS[i]*sS[i]) : sS[i]/s2;
    sv_sum("dead-zone damped pseudo-inverse", m, n, f, S, n); vf_true("within", S[n*m] == 5);
}
void h_lls(void) {   /* consistent full-column-rank system: the solution is returned, for any leading dimension */
    static const size_t dm[3][2] = {{2,2},{3,2},{2,1}}; const size_t *d = dm[vf_pick("d", 3)], m = d[0], n = d[1], p = 1 + vf_pick("p", 2), lda = m + vf_pick("pad", 2), ldb = m + vf_pick("padb", 2), ldx = n + vf_pick("padx", 2);
    double A[8], X[4], b[8], x[6], tA[6], tb[6]; vf_reals("A", 8, A); vf_reals("X", 4, X);
    if (n == 2) { double g = A[0]*A[lda+1] - A[1]*A[lda]; vf_assume_lt(0.1, g*g); } else vf_assume_lt(0.1, A[0]*A[0]);
    for (size_t c = 0; c < p; c++) for (size_t i = 0; i < m; i++) { double s = 0; for (size_t j = 0; j < n; j++) s += A[i + j*lda]*X[j + c*n]; b[i + c*ldb] = tb[i + c*m] = s; }
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) tA[i + j*m] = A[i + j*lda];
    vf_orc_lls((int)m, (int)n, (int)p, tA, tb, X);
    vf_true("lls succeeds", aa_la_d_lls(m, n, p, A, lda, b, ldb, x, ldx) == 0);
    for (size_t c = 0; c < p; c++) for (size_t j = 0; j < n; j++) vf_eq("lls solution", x[j + c*ldx], X[j + c*n]);
    if (lda == m && ldb == m) { aa_la_lls(m, n, p, A, b, x); for (size_t c = 0; c < p; c++) for (size_t j = 0; j < n; j++) vf_eq("lls (contiguous) solution", x[j + c*n], X[j + c*n]); }
}
void h_qr(void) {
    static const size_t dm[3][2] = {{2,2},{3,2},{2,3}}; const size_t *d = dm[vf_pick("d", 3)], m = d[0], n = d[1], ld = m + vf_pick("pad", 2), ldq = m + vf_pick("padq", 2), ldr = m + vf_pick("padr", 2); double Q[9], R[9] = {0}, A[12], J[9] = {0}, q[4], o[12], r[12], tA[9];
    if (m == 2) rot2("q", Q); else { vf_unit("q", 4, q); ref_q2r(q, Q); }
    double v[6]; vf_reals("r", 6, v); int z = 0; for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) { if (i <= j) R[i + j*m] = v[z++]; else J[i + j*m] = 0.37 + (double)(i + j*m); }
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < ld; i++) { double s = 77; if (i < m) { s = 0; for (size_t k = 0; k < m; k++) s += Q[i + k*m]*R[k + j*m]; tA[i + j*m] = s; } A[i + j*ld] = s; }
    vf_orc_qr((int)m, (int)n, tA, Q, R, J);
    vf_true("qr succeeds", aa_la_d_qr(m, n, A, ld, o, ldq, r, ldr) == 0);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < m; k++) s += o[i + k*ldq]*r[k + j*ldr]; vf_eq("A = Q R", s, A[i + j*ld]); if (i > j) vf_eq("R upper triangular", r[i + j*ldr], 0); }
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { double s = 0; for (size_t k = 0; k < m; k++) s += o[k + i*ldq]*o[k + j*ldq]; vf_eq("Q orthogonal", s, i == j); }
}
void h_eev(void) {
    size_t ld = 2 + vf_pick("pad", 2), ldv = 2 + vf_pick("padv", 2); double a = vf_range("a", -5, -1), b = vf_range("b", 1, 5), c = vf_range("c", -3, 3), A[6], wr[2], wi[2], V[6];
    double tA[4] = {a, 0, c, b}, ow[2] = {a, b}, oi[2] = {0, 0}, oV[4] = {1, 0, c, b - a};
    A[0] = a; A[1] = 0; A[ld] = c; A[ld+1] = b; if (ld == 3) A[2] = A[5] = 77;
    vf_orc_eev(2, tA, ow, oi, oV);
    vf_true("eev succeeds", aa_la_d_eev(2, A, ld, wr, wi, NULL, 0, V, ldv) == 0);
    for (int k = 0; k < 2; k++) { double *v = V + k*(int)ldv; vf_eq("A v = w v", a*v[0] + c*v[1], wr[k]*v[0]); vf_eq("A v = w v", b*v[1], wr[k]*v[1]); vf_eq("real", wi[k], 0); }
}
void h_care(void) {   /* the returned X solves A'X + XA - XBX + C = 0 (B, C given directly or as factors) */
    size_t m = 1 + vf_pick("m", 2), f = vf_pick("factors", 2); double A[4], B[4], C[4], X[4], T[4], H[16] = {0}, U[16] = {0}, G[4], R[4], o[4], fb[2], fc[2];
    if (m == 1 && f) return;    /* a 1x1 factor is read as B itself */
    vf_reals("A", 4, A); vf_reals("T", 4, T); double x[3]; vf_reals("X", 3, x);
    if (m == 1) X[0] = x[0]; else { X[0] = x[0]; X[1] = X[2] = x[1]; X[3] = x[2]; }
    if (f) { vf_reals("fb", 2, fb); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) B[i + 2*j] = fb[i]*fb[j]; vf_reals("fc", 2, fc); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) C[i + 2*j] = fc[i]*fc[j]; }
    else { double b[3]; vf_reals("B", 3, b); B[0] = b[0]; if (m == 2) { B[1] = B[2] = b[1]; B[3] = b[2]; } }
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) {
        double s = 0; for (size_t k = 0; k < m; k++) { s += A[k + i*m]*X[k + j*m] + X[i + k*m]*A[k + j*m]; for (size_t l = 0; l < m; l++) s -= X[i + k*m]*B[k + l*m]*X[l + j*m]; } R[i + j*m] = s; }
    if (!f) for (size_t i = 0; i < m*m; i++) C[i] = -R[i];
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { H[i + j*2*m] = A[i + j*m]; H[i + (j+m)*2*m] = -B[i + j*m]; H[i+m + j*2*m] = -C[i + j*m]; H[i+m + (j+m)*2*m] = -A[j + i*m]; }
    vf_assume_ne(m == 1 ? T[0] : T[0]*T[3] - T[1]*T[2], 0);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { U[i + j*2*m] = T[i + j*m]; double s = 0; for (size_t k = 0; k < m; k++) s += X[i + k*m]*T[k + j*m]; U[m + i + j*2*m] = s; }
    vf_orc_gees((int)m, H, U); (void)G;
    if (f) aa_la_care_laub(2, 1, 1, A, fb, fc, o); else aa_la_care_laub(m, m, m, A, B, C, o);
    vf_reach("care");
    if (vf_symbolic()) vf_eqn("X from the stable subspace", m*m, o, X);
}
void h_care1(void) {   /* scalar equation, stabilising root, also checked against LAPACK natively */
    double a = vf_range("a", -3, 3), b = vf_range("b", 0.1, 3), c = vf_range("c", 0.1, 3), r = sqrt(a*a + b*c), X[1] = {(a + r)/b}, H[4] = {a, -c, -b, -a}, U[4] = {b, a + r, 1, 0}, o[1];
    vf_orc_gees(1, H, U); aa_la_care_laub(1, 1, 1, &a, &b, &c, o); vf_eq("solves the Riccati equation", 2*a*o[0] - b*o[0]*o[0] + c, 0); vf_le("stabilising", a - b*o[0], 0); (void)X;
}
/* ---- interpolation, planes */
void h_interp(void) {
    size_t n = 1 + vf_pick("n", 3); double t0 = vf_real("t0"), t1 = vf_real("t1"), t2 = vf_real("t2"), t = vf_real("t"), a[3], b[3], c[3], X0[3], X1[3], X2[3], x[3]; vf_reals("a", 3, a); vf_reals("b", 3, b); vf_reals("c", 3, c);
    vf_assume_ne(t0, t1); vf_assume_ne(t1, t2); vf_assume_ne(t0, t2);
    for (size_t i = 0; i < n; i++) { X0[i] = a[i] + b[i]*t0; X1[i] = a[i] + b[i]*t1; }
    aa_la_linterp(n, t0, X0, t1, X1, t, x); for (size_t i = 0; i < n; i++) vf_eq("linear", x[i], a[i] + b[i]*t);
    for (size_t i = 0; i < n; i++) { X0[i] += c[i]*t0*t0; X1[i] += c[i]*t1*t1; X2[i] = a[i] + b[i]*t2 + c[i]*t2*t2; }
    aa_la_quadterp(n, t0, X0, t1, X1, t2, X2, t, x); for (size_t i = 0; i < n; i++) vf_eq("quadratic", x[i], a[i] + b[i]*t + c[i]*t*t);
    aa_la_quadterp_dx(n, t0, X0, t1, X1, t2, X2, t, x); for (size_t i = 0; i < n; i++) vf_eq("quadratic, derivative", x[i], b[i] + 2*c[i]*t);
}
void h_plane(void) {
    size_t n = 2 + vf_pick("n", 2); double P[4], p[3], h[5], d = 0, g = 0; vf_reals("P", 4, P); vf_reals("p", 3, p);
    for (size_t i = 0; i < n; i++) { d += P[i]*p[i]; g += P[i]*P[i]; } d += P[n]; vf_assume_lt(0, g);
    double l = sqrt(g); vf_eq("point-plane distance", aa_la_point_plane(n, p, P) * l, d);
    for (size_t i = 0; i <= n; i++) h[i] = P[i]; h[n+1] = 3; aa_la_plane_hessian(n + 1, h); for (size_t i = 0; i <= n; i++) vf_eq("Hessian normal form", h[i] * l, P[i]); vf_true("within", h[n+1] == 3);
}
void h_colfit(void) {   /* points on a plane not through the origin: the fitted plane contains them */
    size_t m = 2 + vf_pick("m", 2), n = m + vf_pick("extra", 2), ld = m + vf_pick("pad", 2); double c[3], A[16], x[5], tA[12], tb[4], tx[3]; 
    for (size_t i = 0; i < m; i++) c[i] = vf_range("c", 0.2, 2);
    double rest[8]; vf_reals("p", 8, rest); int z = 0;
    for (size_t j = 0; j < n; j++) { double s = 1; for (size_t i = 0; i < m; i++) if (i + 1 < m) { double v = rest[z++]; A[i + j*ld] = v; s += c[i]*v; } A[m-1 + j*ld] = -s / c[m-1]; if (ld > m) A[m + j*ld] = 77; }   /* c . p = -1 */
    for (size_t j = 0; j < n; j++) { double g = 0; for (size_t i = 0; i < m; i++) g += A[i + j*ld]*A[i + j*ld]; g = sqrt(g); for (size_t i = 0; i < m; i++) tA[j + i*n] = A[i + j*ld]/g; tb[j] = -1/g; }
    for (size_t i = 0; i < m; i++) tx[i] = c[i];
    vf_orc_lls((int)n, (int)m, 1, tA, tb, tx);
    x[m+1] = 9; if (ld == m && vf_pick("api", 2)) aa_la_plane_fit(m, n, A, x); else aa_la_d_colfit(m, n, A, ld, x); vf_true("within", x[m+1] == 9);
    if (!vf_symbolic()) { double g; if (m == 2) g = A[0]*A[ld+1] - A[1]*A[ld]; else { double v[3]; ref_cross(A, A + ld, v); g = ref_dot(v, A + 2*ld); } if (!(g*g > 1e-3)) return; }   /* natively: points must determine the plane */
    double u = 0; for (size_t i = 0; i < m; i++) u += x[i]*x[i]; vf_eq("unit normal", u, 1);
    for (size_t j = 0; j < n; j++) { double s = x[m]; for (size_t i = 0; i < m; i++) s += x[i]*A[i + j*ld]; vf_eq("points lie on the plane", s, 0); }
}
