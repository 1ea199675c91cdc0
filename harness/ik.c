#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <float.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik.h"
#include "amino/rx/scene_ik_internal.h"
#include "amino/diffeq.h"
#include <nlopt.h>
aa_rx_frame_id aa_rx_ik_parm_get_frame(const struct aa_rx_ik_parm *);
/* P35: inverse kinematics.  The optimiser / integrator is any optimiser / integrator: it returns what it likes (within its bounds). */
void aa_dump_vec(FILE *f, const double *v, size_t n) { (void)f; (void)v; (void)n; }
static const double QI[4] = {0,0,0,1}, QB[4] = {0.5,0.5,-0.5,0.5}, V0[3] = {1,-2,3};
static const double AX[3][3] = {{1,-1,2},{3,0,0},{0,2,0}};
static double RB[9]; static struct aa_rx_sg *sg; static struct aa_rx_sg_sub *s; static struct aa_rx_ik_cx *cx; static struct aa_rx_ik_parm *p; static size_t l0; static double qm, lo_[2], hi_[2]; static int has[2]; static double tipc[3];
/* chain  z(fixed) - m(prismatic, outside) - b - a: the sub-scenegraph holds b and a */
static void open_(void) {
    l0 = vf_live(); ref_q2r(QB, RB); sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "z", QB, V0); aa_rx_sg_add_frame_prismatic(sg, "z", "m", QI, V0, 0, AX[0], 0); aa_rx_sg_add_frame_prismatic(sg, "m", "b", QI, V0, 0, AX[1], 0); aa_rx_sg_add_frame_prismatic(sg, "b", "a", QI, V0, 0, AX[2], 0);
    if (has[0]) aa_rx_sg_set_limit_pos(sg, "b", lo_[0], hi_[0]); if (has[1]) aa_rx_sg_set_limit_pos(sg, "a", lo_[1], hi_[1]); vf_true("init", aa_rx_sg_init(sg) == 0); s = aa_rx_sg_chain_create(sg, aa_rx_sg_frame_id(sg, "m"), aa_rx_sg_frame_id(sg, "a")); vf_true("joints", aa_rx_sg_sub_config_count(s) == 2); p = aa_rx_ik_parm_create();
}
static void tip_(const double *q, double *v) { double t[3], r[3]; for (int i = 0; i < 3; i++) t[i] = 3*V0[i] + qm*AX[0][i] + q[0]*AX[1][i] + q[1]*AX[2][i]; ref_mv(RB, t, r); for (int i = 0; i < 3; i++) v[i] = V0[i] + r[i]; }
static void start_(void) { cx = aa_rx_ik_cx_create(s, p); qm = vf_range("qm", -1, 1); struct aa_dvec *q = aa_dvec_malloc(3); for (int i = 0; i < 3; i++) q->data[i] = 0.5; q->data[aa_rx_sg_config_id(sg, "m")] = qm; aa_rx_ik_set_start(cx, q); free(q); }
static void close_(void) { aa_rx_ik_cx_destroy(cx); aa_rx_ik_parm_destroy(p); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); vf_true("released", vf_live() == l0); }
/* the tolerance is on the quaternion angle, half of al */
static double al; static const double UU[3] = {0.6, 0, -0.8};
static void pose_(double *E, int flip) { double e[4] = {0,0,0,1}; if (flip & 2) { al = vf_range("al", 0.1, 3); for (int i = 0; i < 3; i++) e[i] = UU[i]*sin(al/2); e[3] = cos(al/2); } else al = 0; ref_qmul(QB, e, E); if (flip & 1) for (int i = 0; i < 4; i++) E[i] = -E[i]; static const char *N[3] = {"e0","e1","e2"}; for (int i = 0; i < 3; i++) E[4+i] = vf_range(N[i], -5, 5); }
static double d2_(const double *q, const double *E) { double v[3], t = 0; tip_(q, v); for (int i = 0; i < 3; i++) t += (E[4+i] - v[i])*(E[4+i] - v[i]); return t; }
static void tols_(double *ta, double *tt) { aa_rx_ik_parm_set_tol_angle(p, *ta = vf_range("ta", 0.01, 3)); aa_rx_ik_parm_set_tol_trans(p, *tt = vf_range("tt", 0.01, 9)); }
static void honest(const char *n, int r, const double *q, const double *E) { if (r == 0) { vf_true(n, al/2 < p->tol_angle); vf_true(n, d2_(q, E) < p->tol_trans*p->tol_trans); } else { vf_true(n, (r & AA_RX_NO_IK) && (r & AA_RX_NO_SOLUTION)); vf_true(n, !(al/2 < p->tol_angle && d2_(q, E) < p->tol_trans*p->tol_trans)); } }

static void check_(int flip) { double ta, tt; open_(); tols_(&ta, &tt); start_(); double E[7], qs[4] = {66,66,66,66}; pose_(E, flip); size_t inc = 1 + vf_pick("inc", 2); double q[2] = {vf_range("q0", -2, 2), vf_range("q1", -2, 2)}; qs[0] = q[0]; qs[inc] = q[1]; struct aa_dvec qv = AA_DVEC_INIT(2, qs, inc); struct aa_dmat T = AA_DMAT_INIT(7, 1, E, 7); void *top = aa_mem_region_ptr(aa_mem_region_local_get()); int r = aa_rx_ik_check(cx, &T, &qv); vf_true("scratch popped", aa_mem_region_ptr(aa_mem_region_local_get()) == top); honest("check is exact", r, q, E); close_(); }
void h_check0(void) { check_(0); }
void h_check1(void) { check_(1); }
void h_check2(void) { check_(2); }
void h_check3(void) { check_(3); }

/* ------------------------------------------------------------ recording optimiser */
struct nlopt_opt_s { nlopt_algorithm alg; unsigned n; nlopt_func f, c; void *fd, *cd; double lb[4], ub[4], ctol, fa, fr, xr; int bnd; };
static int opts_live, opt_mode, opt_runs, opt_ok; static double opt_x[4], seen_seed[4]; static int seed_in;
static void (*probe)(nlopt_opt o, double *x);
nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n) { nlopt_opt o = (nlopt_opt)calloc(1, sizeof *o); o->alg = a; o->n = n; for (unsigned i = 0; i < 4; i++) { o->lb[i] = -DBL_MAX; o->ub[i] = DBL_MAX; } opts_live++; vf_true("problem size", n <= 4); return o; }
void nlopt_destroy(nlopt_opt o) { opts_live--; free(o); }
nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void *d) { o->f = f; o->fd = d; return 1; }
nlopt_result nlopt_add_equality_constraint(nlopt_opt o, nlopt_func f, void *d, double t) { o->c = f; o->cd = d; o->ctol = t; return 1; }
nlopt_result nlopt_set_ftol_abs(nlopt_opt o, double t) { o->fa = t; return 1; }
nlopt_result nlopt_set_ftol_rel(nlopt_opt o, double t) { o->fr = t; return 1; }
nlopt_result nlopt_set_xtol_rel(nlopt_opt o, double t) { o->xr = t; return 1; }
nlopt_result nlopt_set_lower_bounds(nlopt_opt o, const double *b) { for (unsigned i = 0; i < o->n; i++) o->lb[i] = b[i]; return 1; }
nlopt_result nlopt_set_upper_bounds(nlopt_opt o, const double *b) { for (unsigned i = 0; i < o->n; i++) o->ub[i] = b[i]; return 1; }
nlopt_result nlopt_optimize(nlopt_opt o, double *x, double *mf) {
    vf_true("an objective is set", o->f != 0); opt_runs++; *mf = 0; for (unsigned i = 0; i < o->n; i++) seen_seed[i] = x[i];
    if (probe) { probe(o, x); return 1; }
    int bad = 0; for (unsigned i = 0; i < o->n; i++) if (x[i] < o->lb[i] || x[i] > o->ub[i]) bad = 1; seed_in = !bad; if (bad) return NLOPT_INVALID_ARGS;
    static const char *N[2][2] = {{"x0","x1"},{"y0","y1"}}; for (unsigned i = 0; i < o->n; i++) { x[i] = vf_range(N[opt_runs > 1][i], -9, 9); if (o->lb[i] > -1e30) vf_assume_le(o->lb[i], x[i]); if (o->ub[i] < 1e30) vf_assume_le(x[i], o->ub[i]); opt_x[i] = x[i]; }
    return vf_pick(opt_runs > 1 ? "result2" : "result", 2) ? -1 : 1;
}
static void sqp_(int flip, int lim) {
    opt_runs = 0; probe = 0; for (int i = 0; i < 2; i++) { has[i] = (lim >> i) & 1; lo_[i] = -1 - i; hi_[i] = 2 - i; } double ta, tt; open_(); tols_(&ta, &tt); start_(); double E[7], sd[2] = {vf_range("s0", -4, 4), vf_range("s1", -4, 4)}, qs[4] = {66,66,66,66}; pose_(E, flip); struct aa_dvec sv = AA_DVEC_INIT(2, sd, 1); aa_rx_ik_set_seed(cx, &sv); size_t inc = 1 + vf_pick("inc", 2); struct aa_dvec qv = AA_DVEC_INIT(2, qs, inc); struct aa_dmat T = AA_DMAT_INIT(7, 1, E, 7); void *top = aa_mem_region_ptr(aa_mem_region_local_get());
    int r = aa_rx_ik_solve(cx, &T, &qv); vf_true("scratch popped", aa_mem_region_ptr(aa_mem_region_local_get()) == top); vf_true("optimiser released", opts_live == 0); vf_true("one run", opt_runs == 1); double q[2] = {qs[0], qs[inc]}; for (int i = 0; i < 2; i++) { if (has[i]) { vf_le("within the position limits", lo_[i], q[i]); vf_le("within the position limits", q[i], hi_[i]); } else vf_eq("seed", seen_seed[i], sd[i]); }
    honest("reported success is honest", r, q, E); for (size_t i = 0; i < 4; i++) if (i != 0 && i != inc) vf_true("nothing else written", qs[i] == 66); for (int i = 0; i < 2; i++) vf_true("seed kept", AA_DVEC_REF(aa_rx_ik_get_seed(cx), i) == sd[i]); vf_true("start kept", AA_DVEC_REF(aa_rx_ik_get_start(cx), aa_rx_sg_config_id(sg, "m")) == qm && AA_DVEC_REF(aa_rx_ik_get_start(cx), aa_rx_sg_config_id(sg, "a")) == 0.5);
    close_();
}
void h_sqp00(void) { sqp_(0, 0); }
void h_sqp01(void) { sqp_(0, 1); }
// vf: h_sqp13 tier=thorough budget=700
void h_sqp13(void) { sqp_(1, 3); }
void h_sqp20(void) { sqp_(2, 0); }
// vf: h_sqp23 tier=thorough budget=700
void h_sqp23(void) { sqp_(2, 3); }
void h_sqp32(void) { sqp_(3, 2); }
/* arguments of the wrong shape are refused and leave nothing behind */
void h_badargs(void) { has[0] = has[1] = 0; probe = 0; opt_runs = 0; open_(); start_(); double E[21], q[3]; for (int i = 0; i < 21; i++) E[i] = 0; E[3] = E[10] = E[17] = 1; void *top = aa_mem_region_ptr(aa_mem_region_local_get()); for (int k = 0; k < 5; k++) { struct aa_dmat T = AA_DMAT_INIT(k == 0 ? 6 : 7, k == 1 ? 0 : k == 2 ? 2 : 1, E, 7); struct aa_dvec qv = AA_DVEC_INIT(k == 3 ? 1 : k == 4 ? 3 : 2, q, 1); vf_true("refused", aa_rx_ik_solve(cx, &T, &qv) == AA_RX_INVALID_PARAMETER); vf_true("scratch popped", aa_mem_region_ptr(aa_mem_region_local_get()) == top); } struct aa_dmat T = AA_DMAT_INIT(7, 1, E, 7); struct aa_dvec qv = AA_DVEC_INIT(2, q, 1); p->ik_algo = AA_RX_IK_LMA; vf_true("unimplemented", aa_rx_ik_solve(cx, &T, &qv) & AA_RX_NO_IK); vf_true("scratch popped", aa_mem_region_ptr(aa_mem_region_local_get()) == top); vf_true("nothing run", opt_runs == 0); close_(); }
/* restarts: only after failure, only within the time, with a new seed inside the limits */
int rand(void) { return vf_pick("rand", 2) ? RAND_MAX/2 : 0; }
static double now_[6]; static int now_i; struct timespec aa_tm_now(void) { struct timespec t; t.tv_sec = (time_t)now_[now_i < 5 ? now_i : 5]; t.tv_nsec = 0; now_i++; return t; }
void h_restart(void) { opt_runs = 0; probe = 0; has[0] = has[1] = 1; lo_[0] = -2; hi_[0] = -1; lo_[1] = 3; hi_[1] = 4; double ta, tt; open_(); tols_(&ta, &tt); start_(); double E[7], qs[2]; pose_(E, 0); double sd[2] = {-1.5, 3.5}; struct aa_dvec sv = AA_DVEC_INIT(2, sd, 1), qv = AA_DVEC_INIT(2, qs, 1); aa_rx_ik_set_seed(cx, &sv); struct aa_dmat T = AA_DMAT_INIT(7, 1, E, 7); int w = vf_pick("late", 2); double rt = 10; aa_rx_ik_set_restart_time(cx, rt); vf_true("restart time", aa_rx_ik_get_restart_time(cx) == rt); now_[0] = 100; now_[1] = w ? 111 : 105; for (int i = 2; i < 6; i++) now_[i] = 120; int r = aa_rx_ik_solve(cx, &T, &qv); vf_true("seed inside the limits", seed_in); honest("reported success is honest", r, qs, E); vf_true("runs", opt_runs == 1 || (opt_runs == 2 && !w)); if (r) vf_true("retried in time", w || opt_runs == 2); close_(); }

/* ------------------------------------------------------------ objectives and their gradients, as the optimiser sees them */
static double Eg[7]; static int which; static double rq0[4], rp[3];
static void cmp_(nlopt_opt o, double *x, double val, const double *g) { double G[4] = {66,66,66,66}; vf_eq("objective", o->f(o->n, x, 0, o->fd), val); vf_eq("objective with gradient", o->f(o->n, x, G, o->fd), val); for (unsigned i = 0; i < o->n; i++) vf_eq("gradient", G[i], g[i]); vf_true("gradient size", G[o->n] == 66); }
static void probe_pris(nlopt_opt o, double *x) {
    x[0] = vf_range("x0", -2, 2); x[1] = vf_range("x1", -2, 2); double v[3], e[3], c[2][3], g[2], ph = al/2; tip_(x, v); for (int k = 0; k < 2; k++) ref_mv(RB, AX[1+k], c[k]); for (int i = 0; i < 3; i++) e[i] = v[i] - Eg[4+i];
    if (which == 0 || which == 1) { for (int k = 0; k < 2; k++) g[k] = 2*ref_dot(e, c[k]); cmp_(o, x, ref_dot(e, e), g); }
    else if (which == 2 || which == 3) { for (int k = 0; k < 2; k++) g[k] = 2*ref_dot(e, c[k]); cmp_(o, x, ref_dot(e, e) + ph*ph, g); }
    else if (which == 4 || which == 5) { double u[3]; ref_mv(RB, UU, u); double a = ref_dot(u, e), k2 = al ? ph*ph/(sin(ph)*sin(ph)) : 1; for (int k = 0; k < 2; k++) g[k] = (a*ref_dot(u, c[k])*(1 - k2) + k2*ref_dot(e, c[k]))/2; cmp_(o, x, ph*ph + (a*a + k2*(ref_dot(e, e) - a*a))/4, g); }
    else { double cc[2]; for (int k = 0; k < 2; k++) { cc[k] = has[k] ? (lo_[k] + hi_[k])/2 : 0; g[k] = x[k] - cc[k]; } cmp_(o, x, (g[0]*g[0] + g[1]*g[1])/2, g); }
    vf_true("tolerances", o->fa == p->tol_obj_abs && o->fr == p->tol_obj_rel && o->xr == p->tol_dq); if (o->c) { vf_true("constraint tolerance", o->ctol == 0.125); for (int k = 0; k < 2; k++) g[k] = 2*ref_dot(e, c[k]); double G[2]; vf_eq("constraint", o->c(2, x, G, o->cd), ref_dot(e, e)); for (int k = 0; k < 2; k++) vf_eq("constraint gradient", G[k], g[k]); }
}
static double dqln_(void *c, const double *q, double *dq) { return aa_rx_ik_opt_err_dqln(c, (double *)q, dq); }
static void obj_(int w, int flip) { static aa_rx_ik_opt_fun *const F[7] = {aa_rx_ik_opt_err_trans, aa_rx_ik_opt_err_trans_fd, aa_rx_ik_opt_err_qlnpv, aa_rx_ik_opt_err_qlnpv_fd, dqln_, aa_rx_ik_opt_err_dqln_fd, aa_rx_ik_opt_err_jcenter}; which = w; opt_runs = 0; probe = probe_pris; has[0] = w == 6; has[1] = w == 6 && vf_pick("limit", 2); for (int i = 0; i < 2; i++) { lo_[i] = -1 - i; hi_[i] = 2 + i; } open_(); aa_rx_ik_parm_set_obj(p, F[w]); if (w == 6) aa_rx_ik_parm_set_eqct(p, aa_rx_ik_opt_err_trans, 0.125); aa_rx_ik_parm_set_tol_obj_abs(p, 0.25); aa_rx_ik_parm_set_tol_obj_rel(p, 0.5); aa_rx_ik_parm_set_tol_dq(p, 0.75); start_(); pose_(Eg, flip); double qs[2]; struct aa_dmat T = AA_DMAT_INIT(7, 1, Eg, 7); struct aa_dvec qv = AA_DVEC_INIT(2, qs, 1); aa_rx_ik_solve(cx, &T, &qv); vf_true("run", opt_runs == 1); close_(); }
void h_trans(void) { obj_(0, 2); }
void h_trans_fd(void) { obj_(1, 2); }
void h_qlnpv2(void) { obj_(2, 2); }
void h_qlnpv3(void) { obj_(2, 3); }
void h_qlnpv_fd2(void) { obj_(3, 2); }
void h_qlnpv_fd3(void) { obj_(3, 3); }
void h_dqln2(void) { obj_(4, 2); }
void h_dqln3(void) { obj_(4, 3); }
void h_dqln_fd2(void) { obj_(5, 2); }
void h_dqln_fd3(void) { obj_(5, 3); }
void h_jcenter(void) { obj_(6, 0); }
/* revolute joint: the orientation error changes with the joint */
static void probe_rev(nlopt_opt o, double *x) {
    double be = 0, th = x[0] = vf_range("th", 0.6, 2), d[3], g[1], v[3], dv[3], Rz[9], R[9], t[3], w[3]; for (int i = 0; i < 4; i++) Eg[i] = (which & 1) ? -rq0[i] : rq0[i]; double ph = (th - be)/2; ref_q2r(rq0, Rz); ref_mv(Rz, UU, w); ref_aa2r(UU, th, R); ref_mv(R, rp, t); ref_mv(Rz, t, v); for (int i = 0; i < 3; i++) { v[i] += V0[i]; d[i] = v[i] - Eg[4+i]; } for (int i = 0; i < 3; i++) t[i] = v[i] - V0[i]; ref_cross(w, t, dv);
    if (which < 2) { g[0] = ph + 2*ref_dot(d, dv); cmp_(o, x, ph*ph + ref_dot(d, d), g); }
    else { double a = ref_dot(w, d), c2 = ref_dot(d, d) - a*a, si = sin(ph), co = cos(ph), k2 = ph*ph/(si*si), dk = ph/(si*si) - ph*ph*co/(si*si*si); g[0] = ph + (dk*c2 + 2*k2*ref_dot(d, dv))/4; /* d k2/d th = (2 ph/s^2 - 2 ph^2 c/s^3)/2; w.dv = 0 */ cmp_(o, x, ph*ph + (a*a + k2*c2)/4, g); }
}
static void rev_(int w, int off) {
    opt_runs = 0; which = w; probe = probe_rev; ref_q2r(QB, RB); for (int i = 0; i < 4; i++) rq0[i] = QB[i]; for (int i = 0; i < 3; i++) rp[i] = off ? (i == 1 ? 2 : 1) : 0; l0 = vf_live(); sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "z", QB, V0); double Z[3] = {0,0,0}; aa_rx_sg_add_frame_revolute(sg, "z", "a", QI, Z, 0, UU, 0); aa_rx_sg_add_frame_fixed(sg, "a", "t", QI, rp); vf_true("init", aa_rx_sg_init(sg) == 0); s = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, aa_rx_sg_frame_id(sg, "t")); p = aa_rx_ik_parm_create(); if (w >= 2) aa_rx_ik_parm_set_obj(p, dqln_); cx = aa_rx_ik_cx_create(s, p); static const char *N[3] = {"e0","e1","e2"}; for (int i = 0; i < 3; i++) Eg[4+i] = vf_range(N[i], -5, 5); for (int i = 0; i < 4; i++) Eg[i] = QB[i];
    double qs[2]; struct aa_dmat T = AA_DMAT_INIT(7, 1, Eg, 7); struct aa_dvec qv = AA_DVEC_INIT(1, qs, 1); aa_rx_ik_solve(cx, &T, &qv); vf_true("run", opt_runs == 1); close_();
}
void h_rev_qlnpv_a(void) { rev_(0, 1); }
void h_rev_qlnpv_b(void) { rev_(1, 1); }
void h_rev_dqln_a(void) { rev_(2, 0); }
void h_rev_dqln_b(void) { rev_(3, 0); }
void h_rev_dqln_c(void) { rev_(2, 1); }

/* ------------------------------------------------------------ Jacobian pseudo-inverse: any integrator over the given system */
static int ode_steps; static double J[12], U[36], S[2], Vt[4]; static double np_ref[2], np_gain[2]; static int np_on;
static void js_(const double *f, const double *dx, double *dq) { for (int i = 0; i < 2; i++) { dq[i] = 0; for (int k = 0; k < 2; k++) { double t = 0; for (int r = 0; r < 6; r++) t += U[6*k+r]*dx[r]; dq[i] += f[k]*Vt[k + 2*i]*t; } } }
static void orc_(void) { memset(J, 0, sizeof J); for (int j = 0; j < 2; j++) ref_mv(RB, AX[1+j], J + 6*j + AA_TF_DX_V); memset(U, 0, sizeof U); S[0] = 3; S[1] = 2; for (int k = 0; k < 3; k++) { for (int i = 0; i < 3; i++) U[6*k + AA_TF_DX_V + i] = RB[i + 3*k]; U[6*(3+k) + AA_TF_DX_W + k] = 1; } Vt[0] = Vt[3] = 1; Vt[1] = Vt[2] = 0; vf_orc_svd(6, 2, J, U, S, Vt); }
static void want_(const double *E, const double *x, const double *dx0, double *dq) { double v[3], w[6] = {0}, f[2] = {1/3.0, 1/2.0}, a[6] = {0}, n[2], b[2]; tip_(x, v); for (int i = 0; i < 3; i++) w[AA_TF_DX_V+i] = p->wk_opts.gain_trans*(E[4+i] - v[i])/2 + (dx0 ? dx0[AA_TF_DX_V+i] : 0); js_(f, w, dq); if (np_on) { for (int i = 0; i < 2; i++) n[i] = -np_gain[i]*(x[i] - np_ref[i]); for (int j = 0; j < 2; j++) for (int i = 0; i < 6; i++) a[i] += J[6*j+i]*n[j]; js_(f, a, b); for (int i = 0; i < 2; i++) dq[i] += n[i] - b[i]; } }
static double ode_q[2]; static int ode_first; static double ode_seed[2]; static double dqn2; static int ode_code; static double ode_E[7];
int aa_ode_sol(enum aa_ode_integrator in, const struct aa_ode_sol_opts *AA_RESTRICT o, size_t n, aa_sys_fun sys, const void *sc, aa_ode_check chk, void *cc, double t0, double dt, const double *AA_RESTRICT x0, double *AA_RESTRICT x1) {
    (void)in; (void)o; vf_true("state size", n == 2); vf_true("initial step", dt == p->dt && t0 == 0); if (ode_first++ == 0) { ode_seed[0] = x0[0]; ode_seed[1] = x0[1]; } static const char *N[3][2] = {{"a0","a1"},{"b0","b1"},{"c0","c1"}}, *M[3][2] = {{"f0","f1"},{"g0","g1"},{"h0","h1"}};
    for (int k = 0; k < ode_steps; k++) { double x[2] = {vf_range(N[k][0], -4, 4), vf_range(N[k][1], -4, 4)}, d[2] = {66,66}, e[2], y[2] = {vf_range(M[k][0], -1, 1), vf_range(M[k][1], -1, 1)}; sys(sc, t0, x, d); want_(ode_E, x, 0, e); for (int i = 0; i < 2; i++) vf_eq("joint velocity", d[i], e[i]); double q2[2]; for (int i = 0; i < 2; i++) q2[i] = x[i]; int r = chk(cc, t0, x, y); for (int i = 0; i < 2; i++) { if (has[i]) { vf_le("clamped", lo_[i], x[i]); vf_le("clamped", x[i], hi_[i]); } vf_true("only clamped", x[i] == q2[i] || (has[i] && ((q2[i] < lo_[i] && x[i] == lo_[i]) || (q2[i] > hi_[i] && x[i] == hi_[i])))); x1[i] = ode_q[i] = x[i]; } dqn2 = y[0]*y[0] + y[1]*y[1]; ode_code = r; if (r) return r > 0 ? 0 : r; vf_true("iteration limit", k < (int)p->max_iterations); }
    vf_true("gives up", 0); return -1;
}
static void jpinv_(int flip, int lim, int np) {
    np_on = np; ode_first = 0; ode_steps = 3; for (int i = 0; i < 2; i++) { has[i] = (lim >> i) & 1; lo_[i] = -1 - i; hi_[i] = 2 - i; } double ta, tt, td; open_(); orc_(); tols_(&ta, &tt); aa_rx_ik_parm_set_tol_dq(p, td = vf_range("td", 0.01, 0.5)); aa_rx_ik_parm_set_gain_trans(p, vf_range("gt", 0.5, 2)); aa_rx_ik_parm_set_max_iterations(p, 2); p->ik_algo = AA_RX_IK_JPINV; if (np) { np_ref[0] = vf_range("nr0", -1, 1); np_ref[1] = vf_range("nr1", -1, 1); np_gain[0] = vf_range("ng0", 0, 2); np_gain[1] = vf_range("ng1", 0, 2); aa_rx_ik_parm_take_config(p, 2, np_ref, AA_MEM_BORROW); aa_rx_ik_parm_take_gain_config(p, 2, np_gain, AA_MEM_COPY); }
    start_(); double E[7], sd[2] = {vf_range("s0", -4, 4), vf_range("s1", -4, 4)}, qs[3] = {66,66,66}; pose_(E, flip); for (int i = 0; i < 7; i++) ode_E[i] = E[i]; struct aa_dvec sv = AA_DVEC_INIT(2, sd, 1), qv = AA_DVEC_INIT(2, qs, 1); aa_rx_ik_set_seed(cx, &sv); struct aa_dmat T = AA_DMAT_INIT(7, 1, E, 7); void *top = aa_mem_region_ptr(aa_mem_region_local_get()); int r = aa_rx_ik_solve(cx, &T, &qv); vf_true("scratch popped", aa_mem_region_ptr(aa_mem_region_local_get()) == top);
    for (int i = 0; i < 2; i++) { vf_true("starts from the seed", ode_seed[i] == sd[i]); vf_true("the checked configuration is returned", qs[i] == ode_q[i]); if (has[i]) { vf_le("within the position limits", lo_[i], qs[i]); vf_le("within the position limits", qs[i], hi_[i]); } } if (r == 0) { vf_true("reported success is honest", al/2 < ta); vf_true("reported success is honest", d2_(qs, E) < tt*tt); vf_true("settled", dqn2 < td); } else { vf_true("failure code", (r & AA_RX_NO_IK) && (r & AA_RX_NO_SOLUTION)); vf_true("only after the iterations", ode_code < 0); } vf_true("nothing else written", qs[2] == 66); close_();
}
void h_jpinv00(void) { jpinv_(0, 0, 0); }
// vf: h_jpinv13 tier=thorough budget=700
void h_jpinv13(void) { jpinv_(1, 3, 0); }
void h_jpinv01np(void) { jpinv_(0, 1, 1); }
/* restarts of the integrator have all the iterations */
void h_jpinv_restart(void) { np_on = 0; ode_first = 0; ode_steps = 3; has[0] = has[1] = 0; open_(); orc_(); aa_rx_ik_parm_set_tol_angle(p, 0.01); aa_rx_ik_parm_set_tol_trans(p, 0.01); aa_rx_ik_parm_set_tol_dq(p, 0.1); aa_rx_ik_parm_set_max_iterations(p, 2); p->ik_algo = AA_RX_IK_JPINV; start_(); double E[7], sd[2] = {0, 0}, qs[2]; al = 0; for (int i = 0; i < 4; i++) E[i] = QB[i]; for (int i = 0; i < 3; i++) E[4+i] = 100; for (int i = 0; i < 7; i++) ode_E[i] = E[i]; struct aa_dvec sv = AA_DVEC_INIT(2, sd, 1), qv = AA_DVEC_INIT(2, qs, 1); aa_rx_ik_set_seed(cx, &sv); struct aa_dmat T = AA_DMAT_INIT(7, 1, E, 7); aa_rx_ik_set_restart_time(cx, 10); now_i = 0; now_[0] = 100; now_[1] = 105; for (int i = 2; i < 6; i++) now_[i] = 120; ode_first = 0; int r = aa_rx_ik_solve(cx, &T, &qv); vf_true("unreachable", r & AA_RX_NO_IK); vf_true("two runs", ode_first == 2); close_(); }
/* one step of the same law on given matrices */
static void x2dq_(int np, int dx) { np_on = np; has[0] = has[1] = 0; open_(); orc_(); aa_rx_ik_parm_set_gain_trans(p, vf_range("gt", 0.5, 2)); if (np) { np_ref[0] = vf_range("nr0", -1, 1); np_ref[1] = vf_range("nr1", -1, 1); np_gain[0] = vf_range("ng0", 0, 2); np_gain[1] = vf_range("ng1", 0, 2); aa_rx_ik_parm_take_config(p, 2, np_ref, AA_MEM_COPY); aa_rx_ik_parm_take_gain_config(p, 2, np_gain, AA_MEM_BORROW); } start_(); double E[7], A[7], q[2] = {vf_range("x0", -2, 2), vf_range("x1", -2, 2)}, d[3] = {66,66,66}, w[2], r[6]; pose_(E, 0); for (int i = 0; i < 4; i++) A[i] = QB[i]; tip_(q, A+4); vf_reals("dx", 6, r); vf_true("ok", aa_rx_ik_jac_x2dq(p, 2, q, A, E, dx ? r : 0, J, d) == 0); want_(E, q, dx ? r : 0, w); for (int i = 0; i < 2; i++) vf_eq("joint velocity", d[i], w[i]); vf_true("nothing else written", d[2] == 66); close_(); }
void h_x2dq00(void) { x2dq_(0, 0); }
void h_x2dq01(void) { x2dq_(0, 1); }
void h_x2dq11(void) { x2dq_(1, 1); }

/* ------------------------------------------------------------ parameters */
void h_parm(void) {
    for (int i = 0; i < 2; i++) { has[i] = vf_pick(i ? "la" : "lb", 2); lo_[i] = -1 - i; hi_[i] = 2 + i; } open_(); vf_true("defaults", p->tol_angle > 0 && p->tol_trans > 0 && p->dt > 0 && p->max_iterations > 0 && p->wk_opts.gain_angle > 0 && p->wk_opts.gain_trans > 0 && p->ik_algo == AA_RX_IK_SQP && p->obj_fun == aa_rx_ik_opt_err_qlnpv && aa_rx_ik_parm_get_frame(p) == AA_RX_FRAME_NONE && !p->q_ref && !p->dq_dt && !p->eqct_fun);
    double x[7]; vf_reals("x", 7, x); aa_rx_ik_parm_set_dt(p, x[0]); aa_rx_ik_parm_set_tol_angle(p, x[1]); aa_rx_ik_parm_set_tol_trans(p, x[2]); aa_rx_ik_parm_set_s2min(p, x[3]); aa_rx_ik_parm_set_k_dls(p, x[4]); aa_rx_ik_parm_set_gain_angle(p, x[5]); aa_rx_ik_parm_set_gain_trans(p, x[6]); vf_true("setters", p->dt == x[0] && p->tol_angle == x[1] && p->tol_trans == x[2] && p->wk_opts.s2min == x[3] && p->wk_opts.k_dls == x[4] && p->wk_opts.gain_angle == x[5] && p->wk_opts.gain_trans == x[6]);
    double a[3] = {1,2,3}; int op = vf_pick("op", 3), which = vf_pick("what", 3); for (int round = 0; round < 2; round++) { double *src = a; if (op == 1) { src = (double *)malloc(sizeof a); memcpy(src, a, sizeof a); } enum aa_mem_refop ro = op == 0 ? AA_MEM_COPY : op == 1 ? AA_MEM_STEAL : AA_MEM_BORROW; if (which == 0) aa_rx_ik_parm_take_config(p, 3, src, ro); else if (which == 1) aa_rx_ik_parm_take_gain_config(p, 3, src, ro); else aa_rx_ik_parm_take_seed(p, 3, src, ro); const double *g = which == 0 ? p->q_ref : which == 1 ? p->dq_dt : p->q_all_seed; vf_true("ownership", op == 0 ? g != src : g == src); a[1] = 7 + round; vf_true("copied or shared", g[0] == 1 && g[1] == (op == 2 ? 7 + round : round ? 7 : 2) && g[2] == 3); if (!round) a[1] = 7; }
    aa_rx_ik_parm_center_configs(p, s, 3); for (int i = 0; i < 2; i++) { vf_eq("center", p->q_ref[i], has[i] ? (lo_[i] + hi_[i])/2 : 0); vf_eq("gain", p->dq_dt[i], has[i] ? 3*2*M_PI/(hi_[i] - lo_[i]) : 0); } aa_rx_ik_parm_center_seed(p, s); vf_true("seed size", p->n_all_seed == 3); vf_eq("seed b", p->q_all_seed[aa_rx_sg_config_id(sg, "b")], has[0] ? (lo_[0] + hi_[0])/2 : 0); vf_eq("seed a", p->q_all_seed[aa_rx_sg_config_id(sg, "a")], has[1] ? (lo_[1] + hi_[1])/2 : 0); vf_true("seed m", p->q_all_seed[aa_rx_sg_config_id(sg, "m")] == 0);
    cx = aa_rx_ik_cx_create(s, p); for (int i = 0; i < 2; i++) vf_eq("seed centred", AA_DVEC_REF(aa_rx_ik_get_seed(cx), i), has[i] ? (lo_[i] + hi_[i])/2 : 0); for (int i = 0; i < 3; i++) vf_true("start zero", AA_DVEC_REF(aa_rx_ik_get_start(cx), i) == 0); close_();
}
/* which frame is solved for */
void h_frame(void) { has[0] = has[1] = 0; open_(); int w = vf_pick("w", 4); if (w == 1) aa_rx_ik_parm_set_frame(p, aa_rx_sg_frame_id(sg, "b")); double ta, tt; tols_(&ta, &tt); start_(); if (w == 2) aa_rx_ik_set_frame_name(cx, "b"); if (w == 3) aa_rx_ik_set_frame_id(cx, aa_rx_sg_frame_id(sg, "b")); double E[7], q[2] = {vf_range("q0", -2, 2), vf_range("q1", -2, 2)}, q1[2] = {q[0], q[1]}; pose_(E, 0); double E2[7]; cpy(7, E, E2); if (w) { double t[3], r[3]; for (int i = 0; i < 3; i++) t[i] = V0[i] + q[1]*AX[2][i]; ref_mv(RB, t, r); for (int i = 0; i < 3; i++) E2[4+i] += r[i]; } struct aa_dvec qv = AA_DVEC_INIT(2, q, 1); struct aa_dmat T = AA_DMAT_INIT(7, 1, E, 7); int r = aa_rx_ik_check(cx, &T, &qv); honest("the chosen frame", r, q1, E2); close_(); }
