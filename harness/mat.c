#include "ref.h"
#include "amino.h"
#include "amino/mat.h"
/* P14: vectors and matrices with increment / leading dimension (mat.c).  Every object lives in a
 * larger buffer; what lies between and around its elements has to stay as it was. */
#define CAP 12
struct vb { double b[CAP], o[CAP]; struct aa_dvec v; };
struct mb { double b[CAP], o[CAP]; struct aa_dmat m; };
static struct vb vx, vy; static struct mb A, B, C;
static void mkv(const char *n, struct vb *v, size_t len, size_t inc) { vf_reals(n, CAP, v->b); for (int i = 0; i < CAP; i++) v->o[i] = v->b[i]; aa_dvec_view(&v->v, len, v->b + 1, inc); }
static void mkm(const char *n, struct mb *m, size_t r, size_t c, size_t ld) { vf_reals(n, CAP, m->b); for (int i = 0; i < CAP; i++) m->o[i] = m->b[i]; aa_dmat_view(&m->m, r, c, m->b + 1, ld); }
static void rest_v(const char *l, struct vb *v) { for (size_t i = 0; i < CAP; i++) { size_t k = i - 1; if (i == 0 || k % v->v.inc || k / v->v.inc >= v->v.len) vf_eq(l, v->b[i], v->o[i]); } }
static void rest_m(const char *l, struct mb *m) { for (size_t i = 0; i < CAP; i++) { size_t k = i - 1; if (i == 0 || k % m->m.ld >= m->m.rows || k / m->m.ld >= m->m.cols) vf_eq(l, m->b[i], m->o[i]); } }
static void all_v(const char *l, struct vb *v) { for (size_t i = 0; i < CAP; i++) vf_eq(l, v->b[i], v->o[i]); }
static void all_m(const char *l, struct mb *m) { for (size_t i = 0; i < CAP; i++) vf_eq(l, m->b[i], m->o[i]); }
#define V(s, i) (s).b[1 + (i)*(s).v.inc]
#define VO(s, i) (s).o[1 + (i)*(s).v.inc]
#define E(s, i, j) (s).b[1 + (i) + (j)*(s).m.ld]
#define EO(s, i, j) (s).o[1 + (i) + (j)*(s).m.ld]
static void resetv(struct vb *v) { for (int i = 0; i < CAP; i++) v->b[i] = v->o[i]; }
static void resetm(struct mb *v) { for (int i = 0; i < CAP; i++) v->b[i] = v->o[i]; }

/* ---- vectors */
void h_vec1(void) {
    size_t n = vf_pick("n", 4), inc = 1 + vf_pick("inc", 3); double a = vf_real("a"); mkv("x", &vx, n, inc);
    aa_dvec_set(&vx.v, a); for (size_t i = 0; i < n; i++) vf_eq("set", V(vx, i), a); rest_v("set: rest", &vx); resetv(&vx);
    aa_dvec_zero(&vx.v); for (size_t i = 0; i < n; i++) vf_eq("zero", V(vx, i), 0); rest_v("zero: rest", &vx); resetv(&vx);
    aa_dvec_scal(a, &vx.v); for (size_t i = 0; i < n; i++) vf_eq("scal", V(vx, i), a*VO(vx, i)); rest_v("scal: rest", &vx); resetv(&vx);
    aa_dvec_inc(a, &vx.v); for (size_t i = 0; i < n; i++) vf_eq("inc", V(vx, i), a + VO(vx, i)); rest_v("inc: rest", &vx); resetv(&vx);
    double s = 0, q; for (size_t i = 0; i < n; i++) s += VO(vx, i)*VO(vx, i); q = aa_dvec_nrm2(&vx.v); vf_le("norm >= 0", 0, q); vf_eq("norm", q*q, s); all_v("norm: unchanged", &vx);
}
void h_vec2(void) {
    size_t n = vf_pick("n", 4), i1 = 1 + vf_pick("incx", 3), i2 = 1 + vf_pick("incy", 3); double a = vf_real("a"), s = 0, d = 0; mkv("x", &vx, n, i1); mkv("y", &vy, n, i2);
    aa_dvec_swap(&vx.v, &vy.v); for (size_t i = 0; i < n; i++) { vf_eq("swap", V(vx, i), VO(vy, i)); vf_eq("swap", V(vy, i), VO(vx, i)); } rest_v("swap: rest", &vx); rest_v("swap: rest", &vy); resetv(&vx); resetv(&vy);
    aa_dvec_copy(&vx.v, &vy.v); for (size_t i = 0; i < n; i++) vf_eq("copy", V(vy, i), VO(vx, i)); rest_v("copy: rest", &vy); all_v("copy: source", &vx); resetv(&vy);
    aa_dvec_axpy(a, &vx.v, &vy.v); for (size_t i = 0; i < n; i++) vf_eq("axpy", V(vy, i), a*VO(vx, i) + VO(vy, i)); rest_v("axpy: rest", &vy); all_v("axpy: source", &vx); resetv(&vy);
    for (size_t i = 0; i < n; i++) { s += VO(vx, i)*VO(vy, i); d += (VO(vx, i) - VO(vy, i))*(VO(vx, i) - VO(vy, i)); }
    vf_eq("dot", aa_dvec_dot(&vx.v, &vy.v), s); vf_eq("ssd", aa_dvec_ssd(&vx.v, &vy.v), d); all_v("unchanged", &vx); all_v("unchanged", &vy);
}
void h_slice(void) {
    size_t n = 1 + vf_pick("n", 5), inc = 1 + vf_pick("inc", 2), a = vf_pick("start", n + 1), b = a + vf_pick("stop", n - a + 1), st = 1 + vf_pick("step", 3); struct aa_dvec d; mkv("x", &vx, n, inc);
    aa_dvec_slice(&vx.v, a, b, st, &d); vf_true("length within", d.len * st <= b - a && (b - a) < (d.len + 1) * st);
    for (size_t i = 0; i < d.len; i++) vf_true("slice element", &AA_DVEC_REF(&d, i) == &V(vx, a + i*st)); all_v("slice: unchanged", &vx);
}
static void size_pick(size_t *m, size_t *n, size_t *ld) { *m = 1 + vf_pick("m", 3); *n = 1 + vf_pick("n", 3); *ld = *m + vf_pick("pad", 2); if (*ld * *n > CAP - 1) *ld = *m; }
void h_views(void) {
    size_t m, n, ld; size_pick(&m, &n, &ld); mkm("A", &A, m, n, ld); struct aa_dvec v; size_t r = vf_pick("r", m), c = vf_pick("c", n);
    vf_true("view", A.m.rows == m && A.m.cols == n && A.m.ld == ld && &AA_DMAT_REF(&A.m, r, c) == &E(A, r, c));
    aa_dmat_row_vec(&A.m, r, &v); vf_true("row length", v.len == n); for (size_t j = 0; j < n; j++) vf_true("row element", &AA_DVEC_REF(&v, j) == &E(A, r, j));
    aa_dmat_col_vec(&A.m, c, &v); vf_true("column length", v.len == m); for (size_t i = 0; i < m; i++) vf_true("column element", &AA_DVEC_REF(&v, i) == &E(A, i, c));
    aa_dmat_diag_vec(&A.m, &v); vf_true("diagonal length", v.len == (m < n ? m : n)); for (size_t i = 0; i < v.len; i++) vf_true("diagonal element", &AA_DVEC_REF(&v, i) == &E(A, i, i));
    size_t nr = 1 + vf_pick("nr", m - r), nc = 1 + vf_pick("nc", n - c); struct aa_dmat b[2];
    aa_dmat_block(&A.m, r, c, r + nr, c + nc, &b[0]); aa_dmat_view_block(&b[1], &A.m, r, c, nr, nc);
    for (int k = 0; k < 2; k++) { vf_true("block size", b[k].rows == nr && b[k].cols == nc); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) vf_true("block element", &AA_DMAT_REF(&b[k], i, j) == &E(A, r + i, c + j)); }
}
/* ---- construction */
static void chk_obj(const char *l, void *o, size_t so, double *d, size_t n) { vf_block(l, o, so); vf_block(l, d, n*sizeof(double)); vf_true("aligned", (uintptr_t)d % sizeof(double) == 0); vf_true("data after descriptor", (char*)d >= (char*)o + so || (char*)d + n*sizeof(double) <= (char*)o); }
void h_alloc(void) {
    size_t n = vf_pick("n", 4), m = 1 + vf_pick("m", 3), inc = 1 + vf_pick("inc", 2), ld = m + vf_pick("pad", 2); if (ld*n > CAP - 1) ld = m; mkv("x", &vx, n, inc); mkm("A", &A, m, n ? n : 1, ld);
    struct aa_mem_region reg; aa_mem_region_init(&reg, vf_pick("tiny", 2) ? 64 : 1024);
    struct aa_dvec *a = aa_dvec_alloc(&reg, n), *b = aa_dvec_malloc(n), *c = aa_dvec_dup(&reg, &vx.v), *d = aa_dvec_mdup(&vx.v), *vs[4] = {a, b, c, d};
    struct aa_dmat *e = aa_dmat_alloc(&reg, m, n), *f = aa_dmat_malloc(m, n), *g = aa_dmat_dup(&reg, &A.m), *h = aa_dmat_mdup(&A.m), *ms[4] = {e, f, g, h};
    for (int k = 0; k < 4; k++) { vf_true("vector length", vs[k]->len == n && vs[k]->inc == 1); chk_obj("vector storage", vs[k], sizeof(struct aa_dvec), vs[k]->data, n);
        size_t nc = k < 2 ? n : A.m.cols; vf_true("matrix size", ms[k]->rows == m && ms[k]->cols == nc && ms[k]->ld >= m); chk_obj("matrix storage", ms[k], sizeof(struct aa_dmat), ms[k]->data, nc ? ms[k]->ld*(nc-1) + m : 0); }
    aa_dvec_set(a, 3); aa_dvec_set(b, 4); if (n) { aa_dmat_set(e, 5, 5); aa_dmat_set(f, 6, 6); }
    for (size_t i = 0; i < n; i++) { vf_eq("dup", AA_DVEC_REF(c, i), VO(vx, i)); vf_eq("mdup", AA_DVEC_REF(d, i), VO(vx, i)); }
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < A.m.cols; j++) { vf_eq("matrix dup", AA_DMAT_REF(g, i, j), EO(A, i, j)); vf_eq("matrix mdup", AA_DMAT_REF(h, i, j), EO(A, i, j)); }
    for (size_t i = 0; i < n; i++) vf_true("independent", AA_DVEC_REF(a, i) == 3 && AA_DVEC_REF(b, i) == 4);
    all_v("source", &vx); all_m("source", &A); free(b); free(d); free(f); free(h); aa_mem_region_destroy(&reg);
}
/* ---- matrices */
void h_mat1(void) {
    size_t m, n, ld; size_pick(&m, &n, &ld); mkm("A", &A, m, n, ld); double a = vf_real("a"), b = vf_real("b"), s = 0;
#define EACH for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++)
    aa_dmat_set(&A.m, a, b); EACH vf_eq("set", E(A, i, j), i == j ? b : a); rest_m("set: rest", &A); resetm(&A);
    aa_dmat_zero(&A.m); EACH vf_eq("zero", E(A, i, j), 0); rest_m("zero: rest", &A); resetm(&A);
    aa_dmat_scal(&A.m, a); EACH vf_eq("scal", E(A, i, j), a*EO(A, i, j)); rest_m("scal: rest", &A); resetm(&A);
    aa_dmat_inc(&A.m, a); EACH vf_eq("inc", E(A, i, j), a + EO(A, i, j)); rest_m("inc: rest", &A); resetm(&A);
    EACH s += EO(A, i, j)*EO(A, i, j); double q = aa_dmat_nrm2(&A.m); vf_le("norm >= 0", 0, q); vf_eq("Frobenius norm", q*q, s); all_m("norm: unchanged", &A);
}
void h_mat2(void) {
    size_t m, n, ld; size_pick(&m, &n, &ld); size_t lb = m + vf_pick("padB", 3); if (lb*n > CAP - 1) lb = m; mkm("A", &A, m, n, ld); mkm("B", &B, m, n, lb); double a = vf_real("a"), s = 0;
    aa_dmat_axpy(a, &A.m, &B.m); EACH vf_eq("axpy", E(B, i, j), a*EO(A, i, j) + EO(B, i, j)); rest_m("axpy: rest", &B); all_m("axpy: source", &A); resetm(&B);
    aa_dmat_copy(&A.m, &B.m); EACH vf_eq("copy", E(B, i, j), EO(A, i, j)); rest_m("copy: rest", &B); all_m("copy: source", &A); resetm(&B);
    aa_dmat_lacpy("U", &A.m, &B.m); EACH vf_eq("upper triangle", E(B, i, j), i <= j ? EO(A, i, j) : EO(B, i, j)); rest_m("upper: rest", &B); resetm(&B);
    aa_dmat_lacpy("L", &A.m, &B.m); EACH vf_eq("lower triangle", E(B, i, j), i >= j ? EO(A, i, j) : EO(B, i, j)); rest_m("lower: rest", &B); resetm(&B);
    EACH s += (EO(A, i, j)-EO(B, i, j))*(EO(A, i, j)-EO(B, i, j)); vf_eq("ssd", aa_dmat_ssd(&A.m, &B.m), s); all_m("ssd: unchanged", &A); all_m("ssd: unchanged", &B);
}
void h_trans(void) {
    size_t m, n, ld; size_pick(&m, &n, &ld); size_t lb = n + vf_pick("padB", 2); if (lb*m > CAP - 1) lb = n; mkm("A", &A, m, n, ld); mkm("B", &B, n, m, lb);
    aa_dmat_trans(&A.m, &B.m); EACH vf_eq("transpose", E(B, j, i), EO(A, i, j)); rest_m("transpose: rest", &B); all_m("transpose: source", &A);
}
void h_gemv(void) {
    size_t m, n, ld, t = vf_pick("trans", 2), ix = 1 + vf_pick("incx", 2), iy = 1 + vf_pick("incy", 2); size_pick(&m, &n, &ld); double a = vf_real("a"), b = vf_real("b"); mkm("A", &A, m, n, ld); mkv("x", &vx, t ? m : n, ix); mkv("y", &vy, t ? n : m, iy);
    aa_dmat_gemv(t ? CblasTrans : CblasNoTrans, a, &A.m, &vx.v, b, &vy.v);
    for (size_t i = 0; i < vy.v.len; i++) { double s = 0; for (size_t k = 0; k < vx.v.len; k++) s += (t ? EO(A, k, i) : EO(A, i, k)) * VO(vx, k); vf_eq("gemv", V(vy, i), a*s + b*VO(vy, i)); }
    rest_v("gemv: rest", &vy); all_v("gemv: x", &vx); all_m("gemv: A", &A);
}
void h_gemm(void) {
    static const size_t ds[5][3] = {{1,2,3},{3,1,2},{2,3,1},{2,2,2},{1,1,2}}; const size_t *d = ds[vf_pick("dims", 5)], m = d[0], n = d[1], k = d[2], ta = vf_pick("ta", 2), tb = vf_pick("tb", 2), ra = ta ? k : m, rb = tb ? n : k, pad = vf_pick("pad", 2);
    double a = vf_real("a"), b = vf_real("b"); mkm("A", &A, ra, ta ? m : k, ra + pad); mkm("B", &B, rb, tb ? k : n, rb + !pad); mkm("C", &C, m, n, m + 1);
    aa_dmat_gemm(ta ? CblasTrans : CblasNoTrans, tb ? CblasTrans : CblasNoTrans, a, &A.m, &B.m, b, &C.m);
    EACH { double s = 0; for (size_t q = 0; q < k; q++) s += (ta ? EO(A, q, i) : EO(A, i, q)) * (tb ? EO(B, j, q) : EO(B, q, j)); vf_eq("gemm", E(C, i, j), a*s + b*EO(C, i, j)); }
    rest_m("gemm: rest", &C); all_m("gemm: A", &A); all_m("gemm: B", &B);
}
/* ---- inverses of blocks */
void h_inv(void) {
    size_t n = 1 + vf_pick("n", 2), ld = n + vf_pick("pad", 2); mkm("A", &A, n, n, ld); vf_assume_ne(n == 1 ? E(A,0,0) : E(A,0,0)*E(A,1,1) - E(A,0,1)*E(A,1,0), 0);
    vf_true("inverse exists", aa_dmat_inv(&A.m) == 0); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += EO(A, i, k)*E(A, k, j); vf_eq("A inv(A) = I", s, i == j); } rest_m("inv: rest", &A);
}
void h_inv_singular(void) {
    size_t n = 1 + vf_pick("n", 2), ld = n + vf_pick("pad", 2); double k = vf_real("k"); mkm("A", &A, n, n, ld); if (n == 1) E(A,0,0) = 0; else { E(A,0,1) = k*E(A,0,0); E(A,1,1) = k*E(A,1,0); }
    vf_true("singular matrix reported", aa_dmat_inv(&A.m) != 0);
}
static const size_t dims[6][2] = {{1,1},{1,2},{2,1},{2,2},{2,3},{3,2}};
void h_dpinv(void) {   /* As (A A' + k I) = A' */
    const size_t *d = dims[vf_pick("d", 5)], m = d[0], n = d[1], lda = m + vf_pick("pad", 2), lds = n + vf_pick("padS", 2); double k = vf_range("k", 1e-3, 10); mkm("A", &A, m, n, lda); mkm("S", &B, n, m, lds);
    vf_true("dpinv succeeds", aa_dmat_dpinv(&A.m, k, &B.m) == 0);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { double s = k*E(B, i, j); for (size_t q = 0; q < m; q++) { double g = 0; for (size_t l = 0; l < n; l++) g += EO(A, q, l)*EO(A, j, l); s += E(B, i, q)*g; } vf_eq("damped pseudo-inverse", s, EO(A, j, i)); }
    rest_m("dpinv: rest", &B); all_m("dpinv: A", &A);
}
static double sU[9], sV[9], sS[3], tA[9];
static void rot2(const char *n, double *R) { double u[2]; vf_unit(n, 2, u); R[0] = u[1]; R[1] = u[0]; R[2] = -u[0]; R[3] = u[1]; }
static void mk_svd(size_t m, size_t n, size_t ld) {
    double q[4]; mkm("pad", &A, m, n, ld);
    if (m == 2) rot2("u", sU); else if (m == 3) { vf_unit("qu", 4, q); ref_q2r(q, sU); } else sU[0] = vf_pick("su", 2) ? 1 : -1;
    if (n == 2) rot2("v", sV); else if (n == 3) { vf_unit("qv", 4, q); ref_q2r(q, sV); } else sV[0] = vf_pick("sv", 2) ? 1 : -1;
    size_t k = m < n ? m : n; sS[0] = vf_range("s0", 0, 10); if (k > 1) { sS[1] = vf_range("s1", 0, 10); vf_assume_le(sS[1], sS[0]); }
    EACH { double s = 0; for (size_t l = 0; l < k; l++) s += sU[i + l*m]*sS[l]*sV[l + j*n]; E(A, i, j) = tA[i + j*m] = s; }
    for (int i = 0; i < CAP; i++) A.o[i] = A.b[i];
    vf_orc_svd((int)m, (int)n, tA, sU, sS, sV);
}
static void sv_sum(const char *l, size_t m, size_t n, const double *f) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { double s = 0; for (size_t q = 0; q < (m < n ? m : n); q++) s += f[q]*sV[q + i*n]*sU[j + q*m]; vf_eq(l, E(B, i, j), s); } }
void h_dzdpinv(void) {
    const size_t *d = dims[vf_pick("d", 6)], m = d[0], n = d[1], k = m < n ? m : n, lds = n + vf_pick("padS", 2); mk_svd(m, n, m + vf_pick("pad", 2)); mkm("S", &B, n, m, lds); double t = vf_range("smin", 1e-2, 4), f[2];
    vf_true("ok", aa_dmat_dzdpinv(&A.m, t, &B.m) == 0);
    for (size_t i = 0; i < k; i++) f[i] = sS[i] >= t ? 1/sS[i] : sS[i]/(t*t);
    sv_sum("dead-zone damped pseudo-inverse", m, n, f); rest_m("dzdpinv: rest", &B); all_m("dzdpinv: A", &A);
}
void h_pinv(void) {
    const size_t *d = dims[vf_pick("d", 6)], m = d[0], n = d[1], k = m < n ? m : n, lds = n + vf_pick("padS", 2); mk_svd(m, n, m + vf_pick("pad", 2)); mkm("S", &B, n, m, lds); double t = vf_range("tol", 1e-2, 4), f[2];
    vf_true("ok", aa_dmat_pinv(&A.m, t, &B.m) == 0);
    for (size_t i = 0; i < k; i++) f[i] = sS[i] > t ? 1/sS[i] : 0;
    sv_sum("pseudo-inverse", m, n, f); rest_m("pinv: rest", &B); all_m("pinv: A", &A);
}
void h_pinv_default(void) {   /* negative tolerance: default; well conditioned, so nothing is dropped */
    const size_t *d = dims[vf_pick("d", 5)], m = d[0], n = d[1], k = m < n ? m : n; mk_svd(m, n, m); mkm("S", &B, n, m, n); double f[2]; for (size_t i = 0; i < k; i++) { vf_assume_le(0.01, sS[i]); f[i] = 1/sS[i]; }
    aa_dmat_pinv(&A.m, -1, &B.m); sv_sum("pseudo-inverse", m, n, f);
}
/* ---- every mismatch of sizes reaches the error handler */
static int errs; static void on_err(const char *m) { (void)m; errs++; }
void h_mismatch(void) {
    static double z[64]; for (int i = 0; i < 64; i++) z[i] = 0; size_t w = vf_pick("op", 19); struct aa_dvec x = AA_DVEC_INIT(2, z, 1), y = AA_DVEC_INIT(3, z + 8, 1); struct aa_dmat M = AA_DMAT_INIT(2, 2, z + 16, 4), R = AA_DMAT_INIT(3, 2, z + 32, 4), Q = AA_DMAT_INIT(2, 3, z + 48, 4); struct aa_dvec v; struct aa_dmat b;
    aa_la_set_err(on_err); errs = 0;
    switch (w) {
    case 0: aa_dvec_swap(&x, &y); break; case 1: aa_dvec_copy(&x, &y); break; case 2: aa_dvec_axpy(1, &x, &y); break; case 3: aa_dvec_dot(&x, &y); break; case 4: aa_dvec_ssd(&x, &y); break;
    case 5: aa_dmat_gemv(CblasNoTrans, 1, &R, &y, 0, &y); break; case 6: aa_dmat_gemv(CblasTrans, 1, &R, &x, 0, &x); break;
    case 7: aa_dmat_gemm(CblasNoTrans, CblasNoTrans, 1, &M, &R, 0, &M); break; case 8: aa_dmat_gemm(CblasNoTrans, CblasNoTrans, 1, &M, &Q, 0, &M); break; case 9: aa_dmat_gemm(CblasNoTrans, CblasNoTrans, 1, &R, &M, 0, &M); break;
    case 10: aa_dmat_copy(&M, &R); break; case 11: aa_dmat_copy(&M, &Q); break; case 12: aa_dmat_ssd(&M, &R); break; case 13: aa_dmat_axpy(1, &M, &Q); break; case 14: aa_dmat_trans(&R, &R); break;
    case 15: aa_dvec_slice(&x, 0, 3, 1, &v); break; case 16: aa_dmat_row_vec(&M, 2, &v); break; case 17: aa_dmat_col_vec(&M, 2, &v); break; case 18: aa_dmat_block(&M, 0, 0, 3, 2, &b); break;
    }
    vf_true("mismatch reported", errs > 0);
}
void h_bounds(void) {   /* blocks, rows, columns, slices: reported exactly when out of bounds */
    static double z[16]; struct aa_dmat M = AA_DMAT_INIT(2, 3, z, 2), b; struct aa_dvec x = AA_DVEC_INIT(3, z, 1), v; size_t r0 = vf_pick("r0", 4), r1 = vf_pick("r1", 4), c0 = vf_pick("c0", 5), c1 = vf_pick("c1", 5);
    aa_la_set_err(on_err); errs = 0; aa_dmat_block(&M, r0, c0, r1, c1, &b); vf_true("block bounds", (errs > 0) == !(r0 < r1 && r1 <= 2 && c0 < c1 && c1 <= 3));
    errs = 0; aa_dmat_row_vec(&M, r0, &v); vf_true("row bounds", (errs > 0) == (r0 >= 2)); errs = 0; aa_dmat_col_vec(&M, c0, &v); vf_true("column bounds", (errs > 0) == (c0 >= 3));
    errs = 0; aa_dvec_slice(&x, c0, c1, 1, &v); vf_true("slice bounds", (errs > 0) == (c1 > 3 || c1 < c0));
}
