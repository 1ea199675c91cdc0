#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_wk.h"
#include "amino/rx/scene_wk_internal.h"
#include "amino/opt/opt.h"
/* P34: workspace control: joint velocities realise the workspace velocity, within limits for LC3 */
static const double QI[4] = {0,0,0,1}, QB[4] = {0.5,0.5,-0.5,0.5}, V0[3] = {1,-2,3};
static double RB[9];
static const char *NQ[3] = {"q0","q1","q2"}, *NA[3] = {"qa0","qa1","qa2"}, *ND[3] = {"da0","da1","da2"}, *NR[3] = {"dr0","dr1","dr2"};
static struct aa_rx_sg *sg; static struct aa_rx_sg_sub *s; static struct aa_rx_fk *fk; static size_t n; static double q[3]; static struct aa_rx_wk_opts *o; static size_t l0;
static double lim_[3][6]; static int has[3][3];
/* prismatic joints along 3x, 4x, 2y of a rotated base: J = [B(3x) B(4x) B(2y); 0], with a known factorisation */
static double J[18], U[36], S[3], Vt[9];
static void open_(int nj) {
    l0 = vf_live(); ref_q2r(QB, RB); n = nj; static const double ax[3][3] = {{3,0,0},{4,0,0},{0,2,0}}; static const char *nm[3] = {"b", "a", "c"}; sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "z", QB, V0); for (size_t i = 0; i < n; i++) aa_rx_sg_add_frame_prismatic(sg, i ? nm[i-1] : "z", nm[i], QI, V0, 0, ax[i], 0);
    for (size_t i = 0; i < n; i++) { if (has[i][0]) aa_rx_sg_set_limit_pos(sg, nm[i], lim_[i][0], lim_[i][1]); if (has[i][1]) aa_rx_sg_set_limit_vel(sg, nm[i], lim_[i][2], lim_[i][3]); if (has[i][2]) aa_rx_sg_set_limit_acc(sg, nm[i], lim_[i][4], lim_[i][5]); }
    vf_true("init", aa_rx_sg_init(sg) == 0); s = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, aa_rx_sg_frame_id(sg, nm[n-1])); vf_true("joints", aa_rx_sg_sub_config_count(s) == n && aa_rx_sg_config_count(sg) == n); for (size_t i = 0; i < n; i++) vf_true("order", aa_rx_sg_sub_config(s, i) == aa_rx_sg_config_id(sg, nm[i]));
    double qa[3]; for (size_t i = 0; i < n; i++) { q[i] = vf_range(NQ[i], -1, 1); qa[aa_rx_sg_config_id(sg, nm[i])] = q[i]; } struct aa_dvec qv = AA_DVEC_INIT(n, qa, 1); fk = aa_rx_fk_malloc(sg); aa_rx_fk_all(fk, &qv);
    for (int i = 0; i < 18; i++) J[i] = 0; for (size_t j = 0; j < n; j++) for (int i = 0; i < 3; i++) { double t = 0; for (int k = 0; k < 3; k++) t += RB[i + 3*k]*ax[j][k]; J[6*j + AA_TF_DX_V + i] = t; }
    memset(U, 0, sizeof U); memset(Vt, 0, sizeof Vt); S[0] = 5; S[1] = n == 3 ? 2 : 0; S[2] = 0; /* left vectors: B x, B y, B z, then the rotations */
    for (int k = 0; k < 3; k++) { for (int i = 0; i < 3; i++) U[6*k + AA_TF_DX_V + i] = RB[i + 3*k]; U[6*(3+k) + AA_TF_DX_W + k] = 1; }
    if (n == 3) { double v[9] = {0.6,0.8,0, 0,0,1, -0.8,0.6,0}; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) Vt[k + 3*i] = v[3*k+i]; } else { double v[4] = {0.6,0.8, -0.8,0.6}; for (int k = 0; k < 2; k++) for (int i = 0; i < 2; i++) Vt[k + 2*i] = v[2*k+i]; }
    vf_orc_svd(6, (int)n, J, U, S, Vt); o = aa_rx_wk_opts_create(); vf_true("default options", o->s2min > 0 && o->k_dls > 0 && o->gain_np > 0 && o->gain_trans > 0 && o->gain_angle > 0 && o->lp_solver == AA_OPT_LP_SOLVER_DEFAULT);
}
static void close_(void) { aa_rx_wk_opts_destroy(o); aa_rx_fk_destroy(fk); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); vf_true("released", vf_live() == l0); }
/* f: inverse gain of singular value i */
static void js_(const double *f, const double *dx, double *dq) { for (size_t i = 0; i < n; i++) { dq[i] = 0; for (size_t k = 0; k < n; k++) { double t = 0; for (int r = 0; r < 6; r++) t += U[6*k+r]*dx[r]; dq[i] += f[k]*Vt[k + n*i]*t; } } }
static double b_[2][32]; static void vset(int k, struct aa_dvec *v, size_t len, size_t inc, const double *x) { for (int i = 0; i < 32; i++) b_[k][i] = 66; *v = AA_DVEC_INIT(len, b_[k] + 1, inc); if (x) for (size_t i = 0; i < len; i++) b_[k][1 + i*inc] = x[i]; }
static void vrest(int k, size_t len, size_t inc) { for (size_t i = 0; i < 32; i++) if (!(i >= 1 && (i-1) % inc == 0 && (i-1)/inc < len)) vf_true("nothing else written", b_[k][i] == 66); }
static void gains_(int mode, double *f) {
    if (mode == 0) { double t = vf_range("smin", 0.1, 6); o->s2min = t*t; for (size_t i = 0; i < n; i++) f[i] = S[i] >= t ? 1/S[i] : S[i]/(t*t); }
    else if (mode == 1) { o->s2min = 0; o->k_dls = vf_range("k", 0.01, 1); for (size_t i = 0; i < n; i++) f[i] = S[i]/(S[i]*S[i] + o->k_dls); }
    else { o->s2min = vf_pick("neg", 2) ? -1 : 0; o->k_dls = 0; for (size_t i = 0; i < n; i++) f[i] = S[i] > 0 ? 1/S[i] : 0; }
}
static void dx2dq_(int nj, int mode) {
    open_(nj); double f[3], dx[6], e[3]; gains_(mode, f); vf_reals("dx", 6, dx); size_t ix = 1 + vf_pick("ix", 2), iq = 1 + vf_pick("iq", 2); struct aa_dvec x, d; vset(0, &x, 6, ix, dx); vset(1, &d, n, iq, 0);
    vf_true("ok", aa_rx_wk_dx2dq(s, o, fk, &x, &d) == 0); js_(f, dx, e); for (size_t i = 0; i < n; i++) vf_eq("joint velocity", d.data[i*iq], e[i]); vrest(0, 6, ix); vrest(1, n, iq); for (int i = 0; i < 6; i++) vf_true("input kept", x.data[i*ix] == dx[i]);
    if (mode == 2 && n == 3) { double y[6] = {0}; for (size_t j = 0; j < n; j++) for (int i = 0; i < 6; i++) y[i] += J[6*j+i]*d.data[j*iq]; for (int k = 0; k < 2; k++) { double a = 0, b = 0; for (int i = 0; i < 6; i++) { a += U[6*k+i]*y[i]; b += U[6*k+i]*dx[i]; } vf_eq("the reachable workspace velocity is realised", a, b); } }
    close_();
}
void h_dx2dq_dz2(void) { dx2dq_(2, 0); }
void h_dx2dq_dz3(void) { dx2dq_(3, 0); }
void h_dx2dq_dls2(void) { dx2dq_(2, 1); }
// vf: h_dx2dq_dls3 tier=thorough
void h_dx2dq_dls3(void) { dx2dq_(3, 1); }
void h_dx2dq_pinv2(void) { dx2dq_(2, 2); }
void h_dx2dq_pinv3(void) { dx2dq_(3, 2); }
static void np_(int nj, int mode) {
    open_(nj); double f[3], dx[6], e[3], r[3], a[6] = {0}, p[3]; gains_(mode, f); vf_reals("dx", 6, dx); vf_reals("r", n, r); size_t iq = 1 + vf_pick("iq", 2); struct aa_dvec x, d; double rb[8]; for (int i = 0; i < 8; i++) rb[i] = 66; size_t ir = 1 + vf_pick("ir", 2); for (size_t i = 0; i < n; i++) rb[i*ir] = r[i]; struct aa_dvec rv = AA_DVEC_INIT(n, rb, ir); vset(0, &x, 6, 1, dx); vset(1, &d, n, iq, 0);
    vf_true("ok", aa_rx_wk_dx2dq_np(s, o, fk, &x, &rv, &d) == 0); js_(f, dx, e); for (size_t j = 0; j < n; j++) for (int i = 0; i < 6; i++) a[i] += J[6*j+i]*r[j]; js_(f, a, p); for (size_t i = 0; i < n; i++) vf_eq("joint velocity with nullspace reference", d.data[i*iq], e[i] + r[i] - p[i]); vrest(0, 6, 1); vrest(1, n, iq); for (size_t i = 0; i < n; i++) vf_true("reference kept", rb[i*ir] == r[i]);
    close_();
}
void h_np_dz2(void) { np_(2, 0); }
void h_np_dz3(void) { np_(3, 0); }
void h_np_dls2(void) { np_(2, 1); }
void h_np_pinv3(void) { np_(3, 2); }
void h_dqcenter(void) {
    double lo = vf_range("lo", -3, 0), hi = vf_range("hi", 1, 3); int w = vf_pick("limits", 4); for (int i = 0; i < 2; i++) { has[i][0] = (w >> i) & 1; lim_[i][0] = lo - i; lim_[i][1] = hi + 2*i; has[i][1] = 1; lim_[i][2] = -1; lim_[i][3] = 1; } open_(2); o->gain_np = vf_range("gain", 0, 5); size_t ia = 1 + vf_pick("ia", 2), ib = 1 + vf_pick("ib", 2); struct aa_dvec x, d; vset(0, &x, 2, ia, q); vset(1, &d, 2, ib, 0); aa_rx_wk_dqcenter(s, o, &x, &d);
    for (int i = 0; i < 2; i++) vf_eq("centering velocity", d.data[i*ib], has[i][0] ? o->gain_np*((lim_[i][0] + lim_[i][1])/2 - q[i])/(lim_[i][1] - lim_[i][0]) : 0); vrest(0, 2, ia); vrest(1, 2, ib); close_();
}
/* feedback: the error is the logarithm of the relative pose (half the screw), so with unit gains the correction, held for two units of time as a screw motion, carries the actual pose onto the reference */
static void dxpos_(int far, int ax) {
    static const double us[2][3] = {{0.6, 0, -0.8}, {0, 0.28, 0.96}}; double th = vf_range("th", 0.05, 3), E[7] = {0.5, -0.5, 0.5, 0.5}, R[7], e[4], w0[6], m[7] = {0}, *u = (double *)us[ax]; for (int i = 0; i < 3; i++) e[i] = -u[i]*sin(th/2); e[3] = cos(th/2); ref_qmul(e, E, R); if (far) for (int i = 0; i < 4; i++) R[i] = -R[i]; vf_reals("pa", 3, E + 4); vf_reals("pr", 3, R + 4); vf_reals("w0", 6, w0);
    struct aa_rx_wk_opts *o = aa_rx_wk_opts_create(); double gt = o->gain_trans = vf_range("gt", 0.5, 3), ga = o->gain_angle = vf_range("ga", 0.5, 3); size_t inc = 1 + vf_pick("inc", 2); struct aa_dvec x; vset(0, &x, 6, inc, w0); aa_rx_wk_dx_pos(o, E, R, &x); double v[3], w[3]; for (int i = 0; i < 3; i++) { w[i] = 2*(x.data[(AA_TF_DX_W + i)*inc] - w0[AA_TF_DX_W + i])/ga; v[i] = 2*(x.data[(AA_TF_DX_V + i)*inc] - w0[AA_TF_DX_V + i])/gt; vf_eq("angular correction", w[i], -th*u[i]); } vrest(0, 6, inc);
    /* screw: rotation by -th about u through ... */
    double tv[3], c[3], T[12], TA[12], X[12], TR[12]; ref_cross(E + 4, w, c); for (int i = 0; i < 3; i++) tv[i] = v[i] + c[i]; double mu[3] = {-u[0], -u[1], -u[2]}; ref_aa2r(mu, th, T); double p[3], Rp[3]; ref_cross(mu, tv, p); for (int i = 0; i < 3; i++) p[i] /= th; ref_mv(T, p, Rp); double pit = 0; for (int i = 0; i < 3; i++) pit += mu[i]*tv[i]; for (int i = 0; i < 3; i++) T[9+i] = p[i] - Rp[i] + pit*mu[i];
    ref_qv2t(E, E + 4, TA); ref_qv2t(R, R + 4, TR); ref_tmul(T, TA, X); vf_eqn("correction reaches the reference", 12, X, TR); aa_rx_wk_opts_destroy(o); (void)m;
}
void h_dxpos_a(void) { dxpos_(0, 0); }
void h_dxpos_b(void) { dxpos_(1, 1); }
void h_dxpos_same(void) { double E[7] = {0.5,-0.5,0.5,0.5}, w[6]; vf_reals("p", 3, E + 4); double R[7]; cpy(7, E, R); if (vf_pick("far", 2)) for (int i = 0; i < 4; i++) R[i] = -R[i]; double d[3]; vf_reals("d", 3, d); for (int i = 0; i < 3; i++) R[4+i] += d[i]; struct aa_rx_wk_opts *o = aa_rx_wk_opts_create(); struct aa_dvec x = AA_DVEC_INIT(6, w, 1); for (int i = 0; i < 6; i++) w[i] = 0; o->gain_trans = o->gain_angle = 1; aa_rx_wk_dx_pos(o, E, R, &x); for (int i = 0; i < 3; i++) { vf_eq("no rotation", w[AA_TF_DX_W+i], 0); vf_eq("translation", 2*w[AA_TF_DX_V+i], d[i]); } aa_rx_wk_opts_destroy(o); }
/* ---- LC3: the optimiser is any optimiser: it returns any point of the feasible set it is given */
struct aa_opt_cx { int made, dir; size_t m, n; double A[21], bl[3], bu[3], c[7], xl[7], xu[7]; };
static double opt_x[7]; static int opt_ok;
static struct aa_opt_cx *last_cx;
struct aa_opt_cx *aa_opt_gmcreate(enum aa_opt_lp_solver sv, size_t m, size_t k, const double *A, size_t ld, const double *bl, const double *bu, const double *c, const double *xl, const double *xu) { vf_true("solver", sv == o->lp_solver); struct aa_opt_cx *x = (struct aa_opt_cx *)calloc(1, sizeof *x); x->made = 1; x->m = m; x->n = k; vf_true("problem size", m == n && k == 7 && ld == m); last_cx = x; return x; }
int aa_opt_set_direction(struct aa_opt_cx *x, enum aa_opt_direction d) { x->dir = d; return 0; }
int aa_opt_set_obj(struct aa_opt_cx *x, size_t k, const double *c) { vf_true("objective size", k == 7); for (int i = 0; i < 7; i++) x->c[i] = c[i]; return 0; }
int aa_opt_set_bnd(struct aa_opt_cx *x, size_t k, const double *a, const double *b) { vf_true("bound size", k == 7); for (int i = 0; i < 7; i++) { x->xl[i] = a[i]; x->xu[i] = b[i]; } return 0; }
int aa_opt_set_cstr_gm(struct aa_opt_cx *x, size_t m, size_t k, const double *A, size_t ld, const double *bl, const double *bu) { vf_true("constraint size", m == n && k == 7 && ld >= m); for (size_t j = 0; j < k; j++) for (size_t i = 0; i < m; i++) x->A[j*3+i] = A[j*ld+i]; for (size_t i = 0; i < m; i++) { x->bl[i] = bl[i]; x->bu[i] = bu[i]; } return 0; }
static int free_[7];
int aa_opt_solve(struct aa_opt_cx *x, size_t k, double *y) {
    static const char *N[7] = {"x0","x1","x2","x3","x4","x5","x6"}; vf_true("solve size", k == 7); vf_true("maximise", x->dir == AA_OPT_MAXIMIZE); if (!opt_ok) return 1;
    for (int i = 0; i < 7; i++) { opt_x[i] = y[i] = vf_range(N[i], -50, 50); vf_assume_le(x->xl[i], y[i]); vf_assume_le(y[i], x->xu[i]); }
    for (size_t i = 0; i < n; i++) { double t = 0; for (int j = 0; j < 7; j++) t += x->A[j*3+i]*y[j]; if (isfinite(x->bl[i])) vf_assume_le(x->bl[i], t); if (isfinite(x->bu[i])) vf_assume_le(t, x->bu[i]); } return 0;
}
struct aa_rx_wk_lc3_cx_ { struct aa_opt_cx *cx; };
static void lc3_(int nj, int sign, int lims) {
    for (int i = 0; i < nj; i++) { has[i][0] = lims & 1; has[i][1] = (lims >> 1) & 1; has[i][2] = (lims >> 2) & 1; lim_[i][0] = -2 - i; lim_[i][1] = 3 + i; lim_[i][2] = -4 - i; lim_[i][3] = 5 - i; lim_[i][4] = -7 + i; lim_[i][5] = 6 + i; }
    open_(nj); o->s2min = 0.01; double dt = vf_range("dt", 0.01, 0.5), dxr[6], qa[3], da[3], dr[3], dx0[6] = {0}; for (size_t i = 0; i < n; i++) { qa[i] = vf_range(NA[i], -1, 1); da[i] = vf_range(ND[i], -1, 1); dr[i] = vf_range(NR[i], -1, 1); } opt_ok = 1;
    for (size_t j = 0; j < n; j++) for (int i = 0; i < 6; i++) dx0[i] += J[6*j+i]*da[j];
    static const int sg_[3][6] = {{1,-1,1,0,1,-1},{-1,1,0,1,-1,0},{1,1,-1,-1,0,1}}; static const char *N[6] = {"d0","d1","d2","d3","d4","d5"}; double ddx[6]; for (int i = 0; i < 6; i++) { int g = sg_[sign][i]; ddx[i] = g == 0 ? 0 : g*vf_range(N[i], 0.1, 2); dxr[i] = dx0[i] + ddx[i]; }
    struct aa_rx_wk_lc3_cx *L = aa_rx_wk_lc3_create(s, o); vf_true("created", L != 0 && last_cx->made); size_t inc = 1 + vf_pick("inc", 2); struct aa_dvec xr = AA_DVEC_INIT(6, dxr, 1), qv = AA_DVEC_INIT(n, qa, 1), dv = AA_DVEC_INIT(n, da, 1), rv = AA_DVEC_INIT(n, dr, 1), d; vset(1, &d, n, inc, 0); int r = aa_rx_wk_dx2dq_lc3(L, dt, fk, &xr, &qv, &dv, &rv, &d); vf_true("solved", r == 0); vrest(1, n, inc);
    /* the optimisation problem: a fraction of the wanted acceleration and of the nullspace motion */
    for (int i = 0; i < 6; i++) { vf_eq("objective is the workspace acceleration", last_cx->c[i]*dt, ddx[i]); vf_true("acceleration towards the reference only", last_cx->xl[i] <= 0 && last_cx->xu[i] >= 0); vf_eq("at most the reference acceleration", (last_cx->xu[i] + last_cx->xl[i])*dt, ddx[i]); vf_true("one sided", last_cx->xl[i] == 0 || last_cx->xu[i] == 0); } vf_true("nullspace motion is welcome", last_cx->c[6] > 0 && last_cx->xl[6] == 0 && last_cx->xu[6] > 0);
    double f[3], e[3], b[3], a[6] = {0}, p[3]; for (size_t i = 0; i < n; i++) f[i] = S[i] >= 0.1 ? 1/S[i] : S[i]/0.01; js_(f, opt_x, e); for (size_t i = 0; i < n; i++) b[i] = dr[i] - da[i]; for (size_t j = 0; j < n; j++) for (int i = 0; i < 6; i++) a[i] += J[6*j+i]*b[j]; js_(f, a, p);
    for (size_t i = 0; i < n; i++) { double v = d.data[i*inc]; vf_eq("joint velocity", v, da[i] + dt*e[i] + opt_x[6]*(b[i] - p[i])); if (has[i][1]) { vf_le("velocity limit", lim_[i][2], v); vf_le("velocity limit", v, lim_[i][3]); } if (has[i][2]) { vf_le("acceleration limit", lim_[i][4]*dt, v - da[i]); vf_le("acceleration limit", v - da[i], lim_[i][5]*dt); } if (has[i][0] && has[i][2]) { vf_le("can stop at the position limit", lim_[i][0], qa[i] + v*dt + lim_[i][5]*dt*dt/2); vf_le("can stop at the position limit", qa[i] + v*dt + lim_[i][4]*dt*dt/2, lim_[i][1]); } }
    vf_true("bad time step", aa_rx_wk_dx2dq_lc3(L, 0, fk, &xr, &qv, &dv, &rv, &d) != 0); opt_ok = 0; double keep[3]; for (size_t i = 0; i < n; i++) keep[i] = d.data[i*inc]; vf_true("failure reported", aa_rx_wk_dx2dq_lc3(L, dt, fk, &xr, &qv, &dv, &rv, &d) != 0); for (size_t i = 0; i < n; i++) vf_true("failure leaves the velocity", d.data[i*inc] == keep[i]); free(last_cx); free(L); close_();
}
void h_lc3_207(void) { lc3_(2, 0, 7); }
// vf: h_lc3_206 tier=thorough
void h_lc3_206(void) { lc3_(2, 0, 6); }
void h_lc3_200(void) { lc3_(2, 0, 0); }
// vf: h_lc3_205 tier=thorough
void h_lc3_205(void) { lc3_(2, 0, 5); }
// vf: h_lc3_217 tier=thorough
void h_lc3_217(void) { lc3_(2, 1, 7); }
// vf: h_lc3_216 tier=thorough
void h_lc3_216(void) { lc3_(2, 1, 6); }
// vf: h_lc3_210 tier=thorough
void h_lc3_210(void) { lc3_(2, 1, 0); }
// vf: h_lc3_215 tier=thorough
void h_lc3_215(void) { lc3_(2, 1, 5); }
void h_lc3_227(void) { lc3_(2, 2, 7); }
// vf: h_lc3_226 tier=thorough
void h_lc3_226(void) { lc3_(2, 2, 6); }
// vf: h_lc3_220 tier=thorough
void h_lc3_220(void) { lc3_(2, 2, 0); }
// vf: h_lc3_225 tier=thorough
void h_lc3_225(void) { lc3_(2, 2, 5); }
void h_lc3_307(void) { lc3_(3, 0, 7); }
// vf: h_lc3_306 tier=thorough
void h_lc3_306(void) { lc3_(3, 0, 6); }
// vf: h_lc3_300 tier=thorough
void h_lc3_300(void) { lc3_(3, 0, 0); }
// vf: h_lc3_305 tier=thorough
void h_lc3_305(void) { lc3_(3, 0, 5); }
// vf: h_lc3_317 tier=thorough
void h_lc3_317(void) { lc3_(3, 1, 7); }
void h_lc3_316(void) { lc3_(3, 1, 6); }
// vf: h_lc3_310 tier=thorough
void h_lc3_310(void) { lc3_(3, 1, 0); }
// vf: h_lc3_315 tier=thorough
void h_lc3_315(void) { lc3_(3, 1, 5); }
// vf: h_lc3_327 tier=thorough
void h_lc3_327(void) { lc3_(3, 2, 7); }
// vf: h_lc3_326 tier=thorough
void h_lc3_326(void) { lc3_(3, 2, 6); }
// vf: h_lc3_320 tier=thorough
void h_lc3_320(void) { lc3_(3, 2, 0); }
void h_lc3_325(void) { lc3_(3, 2, 5); }
