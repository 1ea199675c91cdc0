/* Reference semantics of the external BLAS/LAPACK routines amino calls (netlib definitions).
 * Linked only into the symbolic build; the native replay uses the installed BLAS/LAPACK. */
#include <stddef.h>
#include <math.h>
enum { RowMajor = 101, ColMajor = 102, NoTrans = 111, Trans = 112, ConjTrans = 113, Upper = 121, Lower = 122 };
#define W __attribute__((weak))
#define ST(x, n, inc) ((inc) < 0 ? (x) + (size_t)(((n) - 1) * -(inc)) : (x))
void vf_unsupported(const char *);
W void cblas_daxpy(int n, double a, const double *x, int ix, double *y, int iy) {
    x = ST(x, n, ix); y = ST(y, n, iy);
    for (int i = 0; i < n; i++) y[i*iy] += a * x[i*ix];
}
W void cblas_dcopy(int n, const double *x, int ix, double *y, int iy) {
    x = ST(x, n, ix); y = ST(y, n, iy);
    for (int i = 0; i < n; i++) y[i*iy] = x[i*ix];
}
W void cblas_dswap(int n, double *x, int ix, double *y, int iy) {
    for (int i = 0; i < n; i++) { double t = y[i*iy]; y[i*iy] = x[i*ix]; x[i*ix] = t; }
}
W void cblas_dscal(int n, double a, double *x, int ix) { for (int i = 0; i < n; i++) x[i*ix] *= a; }
W double cblas_ddot(int n, const double *x, int ix, const double *y, int iy) {
    double s = 0; for (int i = 0; i < n; i++) s += x[i*ix] * y[i*iy]; return s;
}
W double cblas_dnrm2(int n, const double *x, int ix) {
    double s = 0; for (int i = 0; i < n; i++) s += x[i*ix] * x[i*ix]; return sqrt(s);
}
W double cblas_dasum(int n, const double *x, int ix) { double s = 0; for (int i = 0; i < n; i++) s += fabs(x[i*ix]); return s; }
W void cblas_dgemv(int ord, int ta, int m, int n, double a, const double *A, int lda, const double *x, int ix,
                 double b, double *y, int iy) {
    if (ord == RowMajor) { int t = m; m = n; n = t; ta = ta == NoTrans ? Trans : NoTrans; }
    int ly = ta == NoTrans ? m : n, lx = ta == NoTrans ? n : m;
    for (int i = 0; i < ly; i++) {
        double s = 0;
        for (int k = 0; k < lx; k++) s += (ta == NoTrans ? A[i + (size_t)k*lda] : A[k + (size_t)i*lda]) * x[k*ix];
        y[i*iy] = b == 0 ? a * s : a * s + b * y[i*iy];
    }
}
W void cblas_dger(int ord, int m, int n, double a, const double *x, int ix, const double *y, int iy, double *A, int lda) {
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++)
        A[ord == ColMajor ? i + (size_t)j*lda : (size_t)i*lda + j] += a * x[i*ix] * y[j*iy];
}
W void cblas_dgemm(int ord, int ta, int tb, int m, int n, int k, double a, const double *A, int lda,
                 const double *B, int ldb, double b, double *C, int ldc) {
    if (ord == RowMajor) { cblas_dgemm(ColMajor, tb, ta, n, m, k, a, B, ldb, A, lda, b, C, ldc); return; }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        double s = 0;
        for (int l = 0; l < k; l++)
            s += (ta == NoTrans ? A[i + (size_t)l*lda] : A[l + (size_t)i*lda]) * (tb == NoTrans ? B[l + (size_t)j*ldb] : B[j + (size_t)l*ldb]);
        C[i + (size_t)j*ldc] = b == 0 ? a * s : a * s + b * C[i + (size_t)j*ldc];
    }
}
W void cblas_sgemm(int ord, int ta, int tb, int m, int n, int k, float a, const float *A, int lda,
                 const float *B, int ldb, float b, float *C, int ldc) {
    if (ord == RowMajor) { cblas_sgemm(ColMajor, tb, ta, n, m, k, a, B, ldb, A, lda, b, C, ldc); return; }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        float s = 0;
        for (int l = 0; l < k; l++)
            s += (ta == NoTrans ? A[i + (size_t)l*lda] : A[l + (size_t)i*lda]) * (tb == NoTrans ? B[l + (size_t)j*ldb] : B[j + (size_t)l*ldb]);
        C[i + (size_t)j*ldc] = b == 0 ? a * s : a * s + b * C[i + (size_t)j*ldc];
    }
}
W void cblas_dsyrk(int ord, int ul, int t, int n, int k, double a, const double *A, int lda, double b, double *C, int ldc) {
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        int up = ord == ColMajor ? i <= j : i >= j;
        if (ul == Upper ? !up : (up && i != j)) continue;
        double s = 0;
        for (int l = 0; l < k; l++) {
            int nt = (t == NoTrans) == (ord == ColMajor);
            s += (nt ? A[i + (size_t)l*lda] * A[j + (size_t)l*lda] : A[l + (size_t)i*lda] * A[l + (size_t)j*lda]);
        }
        C[i + (size_t)j*ldc] = b == 0 ? a * s : a * s + b * C[i + (size_t)j*ldc];
    }
}
W void cblas_dsyr(int ord, int ul, int n, double a, const double *x, int ix, double *A, int lda) {
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        int up = ord == ColMajor ? i <= j : i >= j;
        if (ul == Upper ? !up : (up && i != j)) continue;
        A[i + (size_t)j*lda] += a * x[i*ix] * x[j*ix];
    }
}
W void cblas_scopy(int n, const float *x, int ix, float *y, int iy) { for (int i = 0; i < n; i++) y[i*iy] = x[i*ix]; }
/* ---- LAPACK (Fortran interface) */
W double dlapy3_(const double *x, const double *y, const double *z) { return sqrt(*x * *x + *y * *y + *z * *z); }
W double dlapy2_(const double *x, const double *y) { return sqrt(*x * *x + *y * *y); }
W void dlacpy_(const char *u, const int *m, const int *n, const double *A, const int *lda, double *B, const int *ldb) {
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) {
        if (*u == 'U' && i > j) continue;
        if (*u == 'L' && i < j) continue;
        B[i + (size_t)j * *ldb] = A[i + (size_t)j * *lda];
    }
}
W void dlaset_(const char *u, const int *m, const int *n, const double *al, const double *be, double *A, const int *lda) {
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) {
        if (i == j) { A[i + (size_t)j * *lda] = *be; continue; }
        if (*u == 'U' && i > j) continue;
        if (*u == 'L' && i < j) continue;
        A[i + (size_t)j * *lda] = *al;
    }
}
W void dlascl_(const char *t, const int *kl, const int *ku, const double *cf, const double *ct, const int *m, const int *n,
             double *A, const int *lda, int *info) {
    *info = 0;
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) {
        if (*t == 'U' && i > j) continue;
        if (*t == 'L' && i < j) continue;
        A[i + (size_t)j * *lda] *= *ct / *cf;
    }
}
W double dlange_(const char *t, const int *m, const int *n, const double *A, const int *lda, double *w) {
    double r = 0;
    if (*t == 'F' || *t == 'E') { for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) r += A[i + (size_t)j * *lda]*A[i + (size_t)j * *lda]; return sqrt(r); }
    if (*t == '1' || *t == 'O') {
        for (int j = 0; j < *n; j++) { double s = 0; for (int i = 0; i < *m; i++) s += fabs(A[i + (size_t)j * *lda]); if (s > r) r = s; }
        return r;
    }
    if (*t == 'I') {
        for (int i = 0; i < *m; i++) { double s = 0; for (int j = 0; j < *n; j++) s += fabs(A[i + (size_t)j * *lda]); if (s > r) r = s; }
        return r;
    }
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) { double s = fabs(A[i + (size_t)j * *lda]); if (s > r) r = s; }
    return r;
}
/* LU with partial pivoting, in place */
W void dgetrf_(const int *m, const int *n, double *A, const int *lda, int *piv, int *info) {
    *info = 0;
    int mn = *m < *n ? *m : *n;
    for (int k = 0; k < mn; k++) {
        int p = k;
        for (int i = k + 1; i < *m; i++) if (fabs(A[i + (size_t)k * *lda]) > fabs(A[p + (size_t)k * *lda])) p = i;
        piv[k] = p + 1;
        if (A[p + (size_t)k * *lda] == 0) { if (!*info) *info = k + 1; continue; }
        if (p != k) for (int j = 0; j < *n; j++) { double t = A[k + (size_t)j * *lda]; A[k + (size_t)j * *lda] = A[p + (size_t)j * *lda]; A[p + (size_t)j * *lda] = t; }
        for (int i = k + 1; i < *m; i++) {
            double f = A[i + (size_t)k * *lda] / A[k + (size_t)k * *lda];
            A[i + (size_t)k * *lda] = f;
            for (int j = k + 1; j < *n; j++) A[i + (size_t)j * *lda] -= f * A[k + (size_t)j * *lda];
        }
    }
}
W void dgetrs_(const char *tr, const int *n, const int *nrhs, const double *A, const int *lda, const int *piv, double *B, const int *ldb, int *info) {
    *info = 0;
    for (int c = 0; c < *nrhs; c++) {
        double *b = B + (size_t)c * *ldb;
        if (*tr == 'N' || *tr == 'n') {
            for (int k = 0; k < *n; k++) if (piv[k] - 1 != k) { double t = b[k]; b[k] = b[piv[k]-1]; b[piv[k]-1] = t; }
            for (int i = 0; i < *n; i++) for (int k = 0; k < i; k++) b[i] -= A[i + (size_t)k * *lda] * b[k];
            for (int i = *n - 1; i >= 0; i--) { for (int k = i + 1; k < *n; k++) b[i] -= A[i + (size_t)k * *lda] * b[k]; b[i] /= A[i + (size_t)i * *lda]; }
        } else {
            for (int i = 0; i < *n; i++) { for (int k = 0; k < i; k++) b[i] -= A[k + (size_t)i * *lda] * b[k]; b[i] /= A[i + (size_t)i * *lda]; }
            for (int i = *n - 1; i >= 0; i--) for (int k = i + 1; k < *n; k++) b[i] -= A[k + (size_t)i * *lda] * b[k];
            for (int k = *n - 1; k >= 0; k--) if (piv[k] - 1 != k) { double t = b[k]; b[k] = b[piv[k]-1]; b[piv[k]-1] = t; }
        }
    }
}
W void dgesv_(const int *n, const int *nrhs, double *A, const int *lda, int *piv, double *B, const int *ldb, int *info) {
    dgetrf_(n, n, A, lda, piv, info);
    if (*info == 0) dgetrs_("N", n, nrhs, A, lda, piv, B, ldb, info);
}
W void dgetri_(const int *n, double *A, const int *lda, const int *piv, double *work, const int *lwork, int *info) {
    *info = 0;
    if (*lwork == -1) { work[0] = *n; return; }
    int N = *n;
    for (int i = 0; i < N; i++) if (A[i + (size_t)i * *lda] == 0) { *info = i + 1; return; }
    double X[64];   /* N <= 8 */
    for (int c = 0; c < N; c++) for (int i = 0; i < N; i++) X[i + c*N] = i == c;
    for (int c = 0; c < N; c++) { int nr = 1, inf; dgetrs_("N", n, &nr, A, lda, piv, X + c*N, n, &inf); }
    for (int c = 0; c < N; c++) for (int i = 0; i < N; i++) A[i + (size_t)c * *lda] = X[i + c*N];
}
/* Cholesky solve */
W void dpotrf_(const char *u, const int *n, double *A, const int *lda, int *info) {
    *info = 0;
    int up = *u == 'U';
    for (int j = 0; j < *n; j++) {
        for (int i = 0; i <= j; i++) {
            double *e = up ? &A[i + (size_t)j * *lda] : &A[j + (size_t)i * *lda];
            double s = *e;
            for (int k = 0; k < i; k++)
                s -= up ? A[k + (size_t)i * *lda] * A[k + (size_t)j * *lda] : A[i + (size_t)k * *lda] * A[j + (size_t)k * *lda];
            if (i == j) { if (!(s > 0)) { *info = j + 1; return; } *e = sqrt(s); }
            else *e = s / A[i + (size_t)i * *lda];
        }
    }
}
W void dposv_(const char *u, const int *n, const int *nrhs, double *A, const int *lda, double *B, const int *ldb, int *info) {
    dpotrf_(u, n, A, lda, info);
    if (*info) return;
    int up = *u == 'U';
#define LL(i, k) (up ? A[(k) + (size_t)(i) * *lda] : A[(i) + (size_t)(k) * *lda])
    for (int c = 0; c < *nrhs; c++) {
        double *b = B + (size_t)c * *ldb;
        for (int i = 0; i < *n; i++) { for (int k = 0; k < i; k++) b[i] -= LL(i, k) * b[k]; b[i] /= LL(i, i); }
        for (int i = *n - 1; i >= 0; i--) { for (int k = i + 1; k < *n; k++) b[i] -= LL(k, i) * b[k]; b[i] /= LL(i, i); }
    }
}
/* ---- factorisations: the harness builds A from a known factorisation and registers it; the
 * model checks that the routine is called on exactly that matrix and returns that factorisation
 * (any valid factorisation is allowed by the routine's contract, so the harness leaves it symbolic). */
void vf_eq(const char *, double, double);
void vf_true(const char *, int);
static struct { int on, m, n; const double *A, *U, *S, *Vt; } svd_o;
void vf_orc_svd(int m, int n, const double *A, const double *U, const double *S, const double *Vt) {
    svd_o.on = 1; svd_o.m = m; svd_o.n = n; svd_o.A = A; svd_o.U = U; svd_o.S = S; svd_o.Vt = Vt;
}
static void same(const char *l, int m, int n, const double *A, const double *B, int ldb) {
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) vf_eq(l, B[i + (size_t)j*ldb], A[i + (size_t)j*m]);
}
static void put(int m, int n, const double *A, double *B, int ldb) {
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) B[i + (size_t)j*ldb] = A[i + (size_t)j*m];
}
W void dgesdd_(const char *jz, const int *m, const int *n, double *A, const int *lda, double *S, double *U, const int *ldu,
               double *Vt, const int *ldvt, double *work, const int *lwork, int *iwork, int *info) {
    (void)iwork; *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    vf_true("dgesdd: sizes", svd_o.on && *jz == 'A' && *m == svd_o.m && *n == svd_o.n && *lda >= *m && *ldu >= *m && *ldvt >= *n);
    same("dgesdd: input matrix", *m, *n, svd_o.A, A, *lda);
    put(*m, *m, svd_o.U, U, *ldu); put(*n, *n, svd_o.Vt, Vt, *ldvt);
    for (int i = 0; i < (*m < *n ? *m : *n); i++) S[i] = svd_o.S[i];
}
W void dgesvd_(const char *ju, const char *jv, const int *m, const int *n, double *A, const int *lda, double *S, double *U, const int *ldu,
               double *Vt, const int *ldvt, double *work, const int *lwork, int *info) {
    *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    vf_true("dgesvd: sizes", svd_o.on && *m == svd_o.m && *n == svd_o.n && *lda >= *m);
    same("dgesvd: input matrix", *m, *n, svd_o.A, A, *lda);
    if (*ju == 'A') put(*m, *m, svd_o.U, U, *ldu);
    if (*jv == 'A') put(*n, *n, svd_o.Vt, Vt, *ldvt);
    for (int i = 0; i < (*m < *n ? *m : *n); i++) S[i] = svd_o.S[i];
}
static struct { int on, m, n, p; const double *A, *b, *x; } lls_o;
void vf_orc_lls(int m, int n, int p, const double *A, const double *b, const double *x) { lls_o.on = 1; lls_o.m = m; lls_o.n = n; lls_o.p = p; lls_o.A = A; lls_o.b = b; lls_o.x = x; }
W int ilaenv_(const int *s, const char *a, const char *b, const int *n1, const int *n2, const int *n3, const int *n4, int l1, int l2) {
    (void)a; (void)b; (void)n1; (void)n2; (void)n3; (void)n4; (void)l1; (void)l2; return *s == 9 ? 25 : 1;
}
W void dgelsd_(const int *m, const int *n, const int *p, double *A, const int *lda, double *B, const int *ldb, double *S, double *rc, int *rank,
               double *work, const int *lwork, int *iwork, int *info) {
    (void)S; (void)rc; (void)iwork; *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    vf_true("dgelsd: sizes", lls_o.on && *m == lls_o.m && *n == lls_o.n && *p == lls_o.p && *lda >= *m && *ldb >= *m && *ldb >= *n);
    same("dgelsd: matrix", *m, *n, lls_o.A, A, *lda); same("dgelsd: right-hand side", *m, *p, lls_o.b, B, *ldb);
    put(*n, *p, lls_o.x, B, *ldb); *rank = *m < *n ? *m : *n;
}
static struct { int on, m, n; const double *A, *Q, *R, *junk; } qr_o;
void vf_orc_qr(int m, int n, const double *A, const double *Q, const double *R, const double *junk) { qr_o.on = 1; qr_o.m = m; qr_o.n = n; qr_o.A = A; qr_o.Q = Q; qr_o.R = R; qr_o.junk = junk; }
/* reflectors and tau are opaque values: dorgqr must be handed exactly what dgeqrf produced */
W void dgeqrf_(const int *m, const int *n, double *A, const int *lda, double *tau, double *work, const int *lwork, int *info) {
    *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    vf_true("dgeqrf: sizes", qr_o.on && *m == qr_o.m && *n == qr_o.n && *lda >= *m);
    same("dgeqrf: matrix", *m, *n, qr_o.A, A, *lda);
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) A[i + (size_t)j * *lda] = i <= j ? qr_o.R[i + j * *m] : qr_o.junk[i + j * *m];
    for (int i = 0; i < (*m < *n ? *m : *n); i++) tau[i] = 1.0 / (3 + i);
}
W void dorgqr_(const int *m, const int *n, const int *k, double *A, const int *lda, const double *tau, double *work, const int *lwork, int *info) {
    *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    int mn = qr_o.m < qr_o.n ? qr_o.m : qr_o.n;
    vf_true("dorgqr: sizes", qr_o.on && *m == qr_o.m && *n <= *m && *k == mn && *lda >= *m);
    for (int j = 0; j < mn; j++) { for (int i = j + 1; i < *m; i++) vf_eq("dorgqr: reflectors", A[i + (size_t)j * *lda], qr_o.junk[i + j * *m]); vf_eq("dorgqr: tau", tau[j], 1.0 / (3 + j)); }
    put(*m, *n, qr_o.Q, A, *lda);
}
static struct { int on, n; const double *A, *wr, *wi, *V; } eev_o;
void vf_orc_eev(int n, const double *A, const double *wr, const double *wi, const double *V) { eev_o.on = 1; eev_o.n = n; eev_o.A = A; eev_o.wr = wr; eev_o.wi = wi; eev_o.V = V; }
W void dgeev_(const char *jl, const char *jr, const int *n, double *A, const int *lda, double *wr, double *wi, double *Vl, const int *ldl, double *Vr, const int *ldr,
              double *work, const int *lwork, int *info) {
    (void)jl; (void)Vl; (void)ldl; *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    vf_true("dgeev: sizes", eev_o.on && *n == eev_o.n && *lda >= *n);
    same("dgeev: matrix", *n, *n, eev_o.A, A, *lda);
    for (int i = 0; i < *n; i++) { wr[i] = eev_o.wr[i]; wi[i] = eev_o.wi[i]; }
    if (*jr == 'V') put(*n, *n, eev_o.V, Vr, *ldr);
}
static struct { int on, m; const double *H, *U; } ees_o;
void vf_orc_gees(int m, const double *H, const double *U) { ees_o.on = 1; ees_o.m = m; ees_o.H = H; ees_o.U = U; }
W void dgees_(const char *jv, const char *so, int (*sel)(const double *, const double *), const int *n, double *A, const int *lda, int *sdim, double *wr, double *wi,
              double *vs, const int *ldvs, double *work, const int *lwork, int *bwork, int *info) {
    (void)bwork; *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    double neg = -1, pos = 1, z = 0;
    vf_true("dgees: stable subspace ordered first", *jv == 'V' && *so == 'S' && sel(&neg, &z) && !sel(&pos, &z));
    vf_true("dgees: sizes", ees_o.on && *n == 2*ees_o.m && *lda >= *n && *ldvs >= *n);
    same("dgees: Hamiltonian", *n, *n, ees_o.H, A, *lda);
    for (int i = 0; i < *n; i++) wr[i] = wi[i] = 0;
    *sdim = ees_o.m; put(*n, *n, ees_o.U, vs, *ldvs);
}
/* square nonsingular system only: least squares = solve (Cramer, n <= 2) */
W void dgels_(const char *tr, const int *m, const int *n, const int *nrhs, double *A, const int *lda, double *B, const int *ldb, double *work, const int *lwork, int *info) {
    *info = 0;
    if (*lwork == -1) { work[0] = 1; return; }
    vf_true("dgels: square system", *m == *n && *n <= 2);
    double a[4];
    for (int i = 0; i < *n; i++) for (int j = 0; j < *n; j++) a[i + 2*j] = *tr == 'T' ? A[j + (size_t)i * *lda] : A[i + (size_t)j * *lda];
    for (int c = 0; c < *nrhs; c++) {
        double *b = B + (size_t)c * *ldb;
        if (*n == 1) { b[0] /= a[0]; continue; }
        double d = a[0]*a[3] - a[2]*a[1], x = (b[0]*a[3] - a[2]*b[1]) / d, y = (a[0]*b[1] - a[1]*b[0]) / d;
        b[0] = x; b[1] = y;
    }
}
