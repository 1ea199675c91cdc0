/* P33: linear programs reach the solver as they were stated */
#include "vf.h"
#include "amino.h"
#include "amino/opt/opt.h"
#include "amino/opt/lp.h"
#include <glpk.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <pthread.h>

/* ---- the recorded problem */
#define MX 8
#define NX 4
static struct { int live, m, n, isint[NX], max, created, deleted, solved; double A[MX][NX], rl[MX], ru[MX], cl[NX], cu[NX], c[NX]; } R;
static double xs[NX]; static int ret, stat, okidx;
static void rows_(int m) { for (int i = R.m; i < m; i++) { for (int j = 0; j < NX; j++) R.A[i][j] = 0; R.rl[i] = -INFINITY; R.ru[i] = INFINITY; } R.m = m; }
int rec_m(void) { return R.m; }
int rec_n(void) { return R.n; }
int rec_addrow(void) { if (R.m >= MX) { okidx = 0; return 0; } rows_(R.m + 1); return R.m - 1; }
int rec_addcol(void) { if (R.n >= NX) { okidx = 0; return 0; } int j = R.n++; for (int i = 0; i < MX; i++) R.A[i][j] = 0; R.cl[j] = 0; R.cu[j] = INFINITY; R.c[j] = 0; R.isint[j] = 0; return j; }
void *rec_new(int m, int n) { memset(&R, 0, sizeof R); R.live = 1; okidx = 1; rows_(m); for (int j = 0; j < n; j++) rec_addcol(); return &R; }
void rec_del(void *p) { (void)p; if (R.live != 1) okidx = 0; R.live = 0; R.deleted++; }
static int ci_(int j) { if (!R.live || j < 0 || j >= R.n) { okidx = 0; return 0; } return j; }
static int ri_(int i) { if (!R.live || i < 0 || i >= R.m) { okidx = 0; return 0; } return i; }
void rec_lo(int j, double l) { R.cl[ci_(j)] = l; }
void rec_hi(int j, double u) { R.cu[ci_(j)] = u; }
void rec_col(int j, double l, double u) { rec_lo(j, l); rec_hi(j, u); }
void rec_row(int i, double l, double u) { i = ri_(i); R.rl[i] = l; R.ru[i] = u; }
void rec_obj(int j, double c) { R.c[ci_(j)] = c; }
void rec_mat(int i, int j, double v) { R.A[ri_(i)][ci_(j)] = v; }
void rec_dir(int max) { R.max = max; }
int rec_solve(void) { if (!R.live) okidx = 0; R.solved++; return ret; }
double *rec_x(void) { return xs; }

/* ---- GLPK (1-based indices) */
static int simplexed, mipped;
int glp_term_out(int f) { return f; }
glp_prob *glp_create_prob(void) { simplexed = mipped = 0; return (glp_prob *)rec_new(0, 0); }
void glp_delete_prob(glp_prob *P) { rec_del(P); }
void glp_set_obj_dir(glp_prob *P, int d) { rec_dir(d == GLP_MAX); }
int glp_add_rows(glp_prob *P, int k) { int r = R.m + 1; for (int i = 0; i < k; i++) rec_addrow(); return r; }
int glp_add_cols(glp_prob *P, int k) { int r = R.n + 1; for (int i = 0; i < k; i++) { int j = rec_addcol(); R.cu[j] = 0; } return r; }
static void bt_(int t, double l, double u, double *rl, double *ru) { *rl = t == GLP_LO || t == GLP_DB || t == GLP_FX ? l : -INFINITY; *ru = t == GLP_UP || t == GLP_DB ? u : t == GLP_FX ? l : INFINITY; if (t < GLP_FR || t > GLP_FX) okidx = 0; }
void glp_set_row_bnds(glp_prob *P, int i, int t, double l, double u) { double a, b; bt_(t, l, u, &a, &b); rec_row(i - 1, a, b); }
void glp_set_col_bnds(glp_prob *P, int j, int t, double l, double u) { double a, b; bt_(t, l, u, &a, &b); rec_col(j - 1, a, b); }
void glp_set_obj_coef(glp_prob *P, int j, double c) { if (j) rec_obj(j - 1, c); }
void glp_set_mat_row(glp_prob *P, int i, int len, const int *ind, const double *val) { for (int j = 0; j < R.n; j++) rec_mat(i - 1, j, 0); for (int k = 1; k <= len; k++) rec_mat(i - 1, ind[k] - 1, val[k]); }
void glp_set_mat_col(glp_prob *P, int j, int len, const int *ind, const double *val) { for (int i = 0; i < R.m; i++) rec_mat(i, j - 1, 0); for (int k = 1; k <= len; k++) rec_mat(ind[k] - 1, j - 1, val[k]); }
void glp_set_col_kind(glp_prob *P, int j, int k) { R.isint[ci_(j - 1)] = k == GLP_IV || k == GLP_BV; if (k == GLP_BV) rec_col(j - 1, 0, 1); }
int glp_get_num_int(glp_prob *P) { int r = 0; for (int j = 0; j < R.n; j++) r += R.isint[j]; return r; }
int glp_get_num_bin(glp_prob *P) { return 0; }
int glp_simplex(glp_prob *P, const glp_smcp *s) { simplexed = 1; return rec_solve(); }
int glp_intopt(glp_prob *P, const glp_iocp *s) { if (!simplexed) okidx = 0; mipped = 1; return ret; }
int glp_get_status(glp_prob *P) { return stat; }
int glp_get_prim_stat(glp_prob *P) { return stat == GLP_OPT ? GLP_FEAS : stat; }
int glp_mip_status(glp_prob *P) { return mipped ? stat : GLP_UNDEF; }
double glp_get_col_prim(glp_prob *P, int j) { return simplexed ? xs[ci_(j - 1)] : 0; }
double glp_mip_col_val(glp_prob *P, int j) { return mipped ? xs[ci_(j - 1)] : 0; }

/* ---- lp_solve (1-based; rows have a type and a right hand side) */
typedef struct lprec_ lprec; typedef unsigned char MYBOOL;
static int rty[MX]; static double rrh[MX]; static int rowmode;
static void lrow_(int i) { rec_row(i, rty[i] == 2 || rty[i] == 3 ? rrh[i] : -INFINITY, rty[i] == 1 || rty[i] == 3 ? rrh[i] : INFINITY); }
lprec *make_lp(int m, int n) { lprec *p = (lprec *)rec_new(m, n); rowmode = 0; for (int i = 0; i < MX; i++) { rty[i] = 1; rrh[i] = 0; } for (int i = 0; i < m; i++) lrow_(i); return p; }
void delete_lp(lprec *p) { rec_del(p); }
void set_verbose(lprec *p, int v) {}
MYBOOL set_add_rowmode(lprec *p, MYBOOL on) { rowmode = on; return 1; }
void set_maxim(lprec *p) { rec_dir(1); }
void set_minim(lprec *p) { rec_dir(0); }
MYBOOL set_obj(lprec *p, int j, double v) { rec_obj(j - 1, v); return 1; }
MYBOOL set_bounds(lprec *p, int j, double l, double u) { rec_col(j - 1, l, u); return 1; }
MYBOOL set_int(lprec *p, int j, MYBOOL b) { R.isint[ci_(j - 1)] = b; return 1; }
MYBOOL set_binary(lprec *p, int j, MYBOOL b) { R.isint[ci_(j - 1)] = b; if (b) rec_col(j - 1, 0, 1); return 1; }
MYBOOL set_mat(lprec *p, int i, int j, double v) { if (i < 0 || i > R.m || j < 1 || j > R.n) return 0; rec_mat(i - 1, j - 1, v); return 1; }
MYBOOL set_rh(lprec *p, int i, double v) { if (i < 0 || i > R.m) return 0; rrh[i - 1] = v; lrow_(i - 1); return 1; }
MYBOOL set_constr_type(lprec *p, int i, int t) { if (i < 1 || i > R.m) return 0; rty[i - 1] = t; lrow_(i - 1); return 1; }
MYBOOL add_constraintex(lprec *p, int k, double *v, int *c, int t, double rh) { int i = rec_addrow(); for (int a = 0; a < k; a++) rec_mat(i, c[a] - 1, v[a]); rty[i] = t; rrh[i] = rh; lrow_(i); return 1; }
int get_Ncolumns(lprec *p) { return R.n; }
int solve(lprec *p) { return rec_solve(); }
MYBOOL get_variables(lprec *p, double *x) { for (int j = 0; j < R.n; j++) x[j] = xs[j]; return 1; }

/* ---- the stated problem */
static int m, n; static double A[NX][3], bl[NX], bu[NX], c[NX], xl[NX], xu[NX]; static int dir, kind[NX];      /* A column major, ld 3 */
static void bnd_(const char *s, double *l, double *u) { int k = vf_pick(s, 5); *l = -INFINITY; *u = INFINITY; if (k == 1 || k == 3) *l = vf_range(s, -3, -1); if (k >= 2) { *u = k == 4 ? 0 : vf_range(s, 0, 2); } if (k == 4) *u = *l = vf_range(s, 0, 2); }
static const char *NM[5][3] = {{"A00", "A01", "A02"}, {"A10", "A11", "A12"}, {"c0", "c1", "c2"}, {"b0", "b1", "b2"}, {"x0", "x1", "x2"}};
static void state_(int mm, int nn, int fixcols) { m = mm; n = nn; for (int j = 0; j < n; j++) for (int i = 0; i < 3; i++) A[j][i] = i < m ? vf_range(NM[i][j], -2, 2) : 55; for (int j = 0; j < n; j++) { c[j] = vf_range(NM[2][j], -1, 1); kind[j] = 0; if (fixcols) { xl[j] = j ? -INFINITY : -1; xu[j] = 2 + j; } else bnd_(NM[4][j], xl + j, xu + j); } for (int i = 0; i < m; i++) if (fixcols) bnd_(NM[3][i], bl + i, bu + i); else { bl[i] = i ? -INFINITY : -1; bu[i] = 3; } dir = 1; }
static double y[NX];
/* the feasible set: y symbolic, both descriptions agree on it */
static void same_(void) {
    int a = 1, b = 1; vf_true("valid calls", okidx); vf_true("columns", R.n == n);
    for (int j = 0; j < n; j++) { vf_true("column bounds", R.cl[j] == (kind[j] == 1 ? 0 : xl[j]) && R.cu[j] == (kind[j] == 1 ? 1 : xu[j])); vf_eq("objective", R.c[j], c[j]); vf_true("kind", R.isint[j] == !!kind[j]); }
    vf_true("direction", R.max == dir);
    for (int i = 0; i < R.m; i++) { double s = 0; for (int j = 0; j < n; j++) s += R.A[i][j]*y[j]; a &= (R.rl[i] <= s) & (s <= R.ru[i]); }
    for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += A[j][i]*y[j]; b &= (bl[i] <= s) & (s <= bu[i]); }
    vf_true("feasible set", a == b);
}
//(size_t, size_t, const double *, size_t, const double *, const double *, const double *, const double *, const double *);
//(size_t, size_t, const double *, int *, int *, const double *, const double *, const double *, const double *, const double *);
static void ys_(void) { static const char *N[3] = {"y0", "y1", "y2"}; for (int j = 0; j < n; j++) y[j] = vf_range(N[j], -4, 4); }
static struct aa_opt_cx *gm_(int be) {
    if (be == 0) return aa_opt_glpk_gmcreate(m, n, A[0], 3, bl, bu, c, xl, xu);
    if (be == 1) return aa_opt_lpsolve_gmcreate(m, n, A[0], 3, bl, bu, c, xl, xu);
    return aa_opt_clp_gmcreate(m, n, A[0], 3, bl, bu, c, xl, xu);
}
static void end_(struct aa_opt_cx *cx, size_t live) { vf_true("destroyed", aa_opt_destroy(cx) == 0); vf_true("valid calls", okidx); vf_true("deleted once", R.deleted == 1 && !R.live); vf_true("released", vf_live() == live); }
/* solve: success is claimed only for an optimal solution, which is returned */
static void solve_(struct aa_opt_cx *cx, int be) {
    static const char *N[3] = {"s0", "s1", "s2"}; double x[NX + 1]; x[n] = 77; for (int j = 0; j < n; j++) xs[j] = vf_range(N[j], -4, 4);
    int o = vf_pick("outcome", 3); ret = o == 1 ? 2 : 0; stat = o == 0 ? GLP_OPT : o == 1 ? GLP_UNDEF : GLP_NOFEAS; if (o == 2 && be) ret = 2;
    int r = aa_opt_solve(cx, n, x); vf_true("valid calls", okidx); vf_true("solved", R.solved == 1); vf_true("success means optimal", (r == 0) == (o == 0)); if (r == 0) vf_eqn("solution", n, x, xs); vf_true("bounds", x[n] == 77);
}
static void gmrows_(int be) { size_t l0 = vf_live(); state_(2, 2, 1); struct aa_opt_cx *cx = gm_(be); ys_(); same_(); end_(cx, l0); }
static void gmcols_(int be) { size_t l0 = vf_live(); state_(1, 2, 0); struct aa_opt_cx *cx = gm_(be); ys_(); same_(); end_(cx, l0); }
static void solve1_(int be) { size_t l0 = vf_live(); state_(1, 2, 1); struct aa_opt_cx *cx = gm_(be); solve_(cx, be); end_(cx, l0); }
static void crs_(int be, int fixcols) {
    static const int pat[5] = {3, 1, 2, 3, 0}; size_t l0 = vf_live(); int p = vf_pick("pattern", 4); state_(fixcols ? 2 : 1, 2, fixcols); double v[4]; int col[4], ptr[3], k = 0; for (int i = 0; i < m; i++) { ptr[i] = k; int q = pat[(p + i) % 5]; for (int j0 = 0; j0 < n; j0++) { int j = p == 3 ? n - 1 - j0 : j0; if (q & (1 << j)) { v[k] = A[j][i]; col[k++] = j; } else A[j][i] = 0; } } ptr[m] = k;
    struct aa_opt_cx *cx = be == 0 ? aa_opt_glpk_crscreate(m, n, v, col, ptr, bl, bu, c, xl, xu) : be == 1 ? aa_opt_lpsolve_crscreate(m, n, v, col, ptr, bl, bu, c, xl, xu) : aa_opt_clp_crscreate(m, n, v, col, ptr, bl, bu, c, xl, xu);
    ys_(); same_(); end_(cx, l0);
}
/* a problem changed after creation is the problem as changed, each part on its own */
static void change_(int be) {
    size_t l0 = vf_live(); static const double b2l[2] = {-2, -5}, b2u[2] = {1, 5}; state_(1, 2, 1); struct aa_opt_cx *cx = gm_(be); int w = vf_pick("what", 5);
    if (w == 0) { c[0] = vf_range("d0", -1, 1); c[1] = vf_range("d1", -1, 1); vf_true("set", aa_opt_set_obj(cx, n, c) == 0); }
    else if (w == 1) { xl[0] = vf_range("e0", -2, 0); xu[0] = INFINITY; xl[1] = -2; xu[1] = vf_range("e1", -1, 2); vf_true("set", aa_opt_set_bnd(cx, n, xl, xu) == 0); }
    else if (w == 2) { vf_true("set", aa_opt_set_direction(cx, AA_OPT_MINIMIZE) == 0); dir = 0; }
    else if (w == 3) { vf_true("set", aa_opt_set_direction(cx, AA_OPT_MINIMIZE) == 0); vf_true("set", aa_opt_set_direction(cx, AA_OPT_MAXIMIZE) == 0); }
    else { vf_true("no quadratic objective", aa_opt_set_quad_obj_crs(cx, n, 0, 0, 0) != 0); }
    ys_(); same_(); end_(cx, l0);
}
/* new constraints of the same kind (bounds finite where they were) */
static void recstr_(int be) {
    size_t l0 = vf_live(); state_(2, 2, 1); struct aa_opt_cx *cx = gm_(be); static const char *N[2][2] = {{"B00", "B01"}, {"B10", "B11"}}; for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) A[j][i] = vf_range(N[i][j], -2, 2); int eq = bl[i] == bu[i]; if (isfinite(bl[i])) bl[i] -= 1; if (isfinite(bu[i])) bu[i] = eq ? bl[i] : bu[i] + 1; }
    vf_true("set", aa_opt_set_cstr_gm(cx, m, n, A[0], 3, bl, bu) == 0); ys_(); same_(); end_(cx, l0);
}
static void kinds_(int be) {
    size_t l0 = vf_live(); state_(1, 2, 1); struct aa_opt_cx *cx = gm_(be); int j = vf_pick("column", 2), k = vf_pick("type", 4); int r = aa_opt_set_type(cx, j, k == 0 ? AA_OPT_CONTINUOUS : k == 1 ? AA_OPT_BINARY : AA_OPT_INTEGER);
    if (be == 2) vf_true("unsupported", r != 0); else { vf_true("set", r == 0); kind[j] = k > 2 ? 2 : k; if (k == 3) { vf_true("set", aa_opt_set_type(cx, j, AA_OPT_CONTINUOUS) == 0); kind[j] = 0; } }
    ys_(); same_(); solve_(cx, be); end_(cx, l0);
}
static void once_(int be) {     /* the one-call interfaces */
    size_t l0 = vf_live(); state_(2, 2, 1); double x[3] = {7, 7, 7}; xs[0] = vf_range("s0", -4, 4); xs[1] = vf_range("s1", -4, 4); ret = 0; stat = GLP_OPT; int sp = vf_pick("sparse", 2); double v[4]; int col[4] = {0, 1, 0, 1}, ptr[3] = {0, 2, 4}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) v[2*i+j] = A[j][i];
    int r = be == 0 ? (sp ? aa_opt_lp_crs_glpk(m, n, v, col, ptr, bl, bu, c, xl, xu, x) : aa_opt_lp_glpk(m, n, A[0], 3, bl, bu, c, xl, xu, x)) : be == 1 ? (sp ? aa_opt_lp_crs_lpsolve(m, n, v, col, ptr, bl, bu, c, xl, xu, x) : aa_opt_lp_lpsolve(m, n, A[0], 3, bl, bu, c, xl, xu, x)) : sp ? aa_opt_lp_crs_clp(m, n, v, col, ptr, bl, bu, c, xl, xu, x) : aa_opt_lp_clp(m, n, A[0], 3, bl, bu, c, xl, xu, x);
    vf_true("success", r == 0); vf_eqn("solution", 2, x, xs); vf_true("bounds", x[2] == 7); ys_(); R.live = 1; same_(); R.live = 0; vf_true("deleted once", R.deleted == 1); vf_true("released", vf_live() == l0);
}
void h_glpk_gmrows(void) { gmrows_(0); }
void h_lps_gmrows(void) { gmrows_(1); }
void h_clp_gmrows(void) { gmrows_(2); }
void h_glpk_gmcols(void) { gmcols_(0); }
void h_lps_gmcols(void) { gmcols_(1); }
void h_clp_gmcols(void) { gmcols_(2); }
void h_glpk_solve(void) { solve1_(0); }
void h_lps_solve(void) { solve1_(1); }
void h_clp_solve(void) { solve1_(2); }
// vf: h_glpk_crsrows max_paths=2000
void h_glpk_crsrows(void) { crs_(0, 1); }
// vf: h_lps_crsrows max_paths=2000
void h_lps_crsrows(void) { crs_(1, 1); }
// vf: h_clp_crsrows max_paths=2000
void h_clp_crsrows(void) { crs_(2, 1); }
void h_glpk_crscols(void) { crs_(0, 0); }
void h_lps_crscols(void) { crs_(1, 0); }
void h_clp_crscols(void) { crs_(2, 0); }
void h_glpk_change(void) { change_(0); }
void h_lps_change(void) { change_(1); }
void h_clp_change(void) { change_(2); }
void h_glpk_recstr(void) { recstr_(0); }
void h_lps_recstr(void) { recstr_(1); }
void h_clp_recstr(void) { recstr_(2); }
void h_glpk_kinds(void) { kinds_(0); }
void h_lps_kinds(void) { kinds_(1); }
void h_clp_kinds(void) { kinds_(2); }
void h_glpk_once(void) { once_(0); }
void h_lps_once(void) { once_(1); }
void h_clp_once(void) { once_(2); }
void h_dispatch(void) {
    size_t l0 = vf_live(); state_(1, 1, 1); int k = vf_pick("solver", 4); enum aa_opt_lp_solver sv = k == 0 ? AA_OPT_LP_SOLVER_DEFAULT : k == 1 ? AA_OPT_LP_SOLVER_GLPK : k == 2 ? AA_OPT_LP_SOLVER_LPSOLVE : AA_OPT_LP_SOLVER_CLP; memset(&R, 0, sizeof R); struct aa_opt_cx *cx = aa_opt_gmcreate(sv, m, n, A[0], 3, bl, bu, c, xl, xu); if (k < 2) vf_true("available", cx != 0); if (!cx) { vf_reach("not built"); return; } ys_(); same_(); end_(cx, l0);
}
