#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik.h"
#include "amino/rx/scene_ik_internal.h"
#include "amino/rx/rx_ct.h"
#include "amino/diffeq.h"
/* P35: scene graph limits, point lists and tracking of workspace trajectories (any integrator) */
static const double QI[4] = {0,0,0,1}, QB[4] = {0.5,0.5,-0.5,0.5}, V0[3] = {1,-2,3}, AX[3][3] = {{1,-1,2},{3,0,0},{0,2,0}};
static double RB[9], qm, lo_[2], hi_[2], E0[7], E1[7], J[12], U[36], S[2], Vt[4]; static int has[2]; static struct aa_rx_sg *sg; static struct aa_rx_sg_sub *s; static struct aa_rx_ik_parm *p;
static void js_(const double *dx, double *dq) { double f[2] = {1/3.0, 1/2.0}; for (int i = 0; i < 2; i++) { dq[i] = 0; for (int k = 0; k < 2; k++) { double t = 0; for (int r = 0; r < 6; r++) t += U[6*k+r]*dx[r]; dq[i] += f[k]*Vt[k + 2*i]*t; } } }
static void tip_(const double *q, double *v) { double t[3], r[3]; for (int i = 0; i < 3; i++) t[i] = 3*V0[i] + qm*AX[0][i] + q[0]*AX[1][i] + q[1]*AX[2][i]; ref_mv(RB, t, r); for (int i = 0; i < 3; i++) v[i] = V0[i] + r[i]; }
static double qs_[3]; static struct aa_ct_pt_list *pl; static double pth[6];
int aa_ode_path(enum aa_ode_integrator in, const struct aa_ode_sol_opts *AA_RESTRICT o, size_t n, aa_sys_fun sys, const void *sc, aa_ode_check chk, void *cc, double t0, double dt0, const double *AA_RESTRICT x0, struct aa_mem_region *reg, size_t *np, double **path) {
    (void)in; (void)o; vf_true("state size", n == 2); vf_true("initial time and step", t0 == 0 && dt0 == p->dt); for (int i = 0; i < 2; i++) vf_true("starts from the given configuration", x0[i] == qs_[aa_rx_sg_config_id(sg, i ? "a" : "b")]);
    static const double T[3] = {0.5, 0.25, 0.75}; static const char *N[3][2] = {{"a0","a1"},{"b0","b1"},{"c0","c1"}};
    for (int k = 0; k < 3; k++) { static const double L[3][2] = {{1.5, 4}, {-4, -1.5}, {-1, 1}}; double x[2] = {vf_range(N[k][0], L[k][0], L[k][1]), vf_range(N[k][1], L[k][0], L[k][1])}, d[2] = {66,66}, e[2], v[3], w[6] = {0}; sys(sc, T[k], x, d); tip_(x, v); for (int i = 0; i < 3; i++) w[AA_TF_DX_V+i] = (E1[4+i] - E0[4+i]) + p->wk_opts.gain_trans*(E0[4+i] + T[k]*(E1[4+i] - E0[4+i]) - v[i])/2; js_(w, e); for (int i = 0; i < 2; i++) vf_eq("joint velocity follows the trajectory", d[i], e[i]); vf_true("runs until the end", (chk(cc, T[k], x, d) != 0) == (T[k] >= 1)); for (int i = 0; i < 2; i++) pth[2*k+i] = x[i]; }
    vf_true("ends at the end", chk(cc, 1, pth, pth) > 0 && chk(cc, 1.5, pth, pth) > 0); *np = 3; *path = AA_MEM_REGION_NEW_N(reg, double, 6); for (int i = 0; i < 6; i++) (*path)[i] = pth[i]; return 0;
}
static void track_(int own, int lim) {
    struct aa_mem_region reg; size_t l0 = vf_live(); aa_mem_region_init(&reg, 4096); for (int i = 0; i < 2; i++) { has[i] = (lim >> i) & 1; lo_[i] = -1 - i; hi_[i] = 2 - i; } ref_q2r(QB, RB); sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "z", QB, V0); aa_rx_sg_add_frame_prismatic(sg, "z", "m", QI, V0, 0, AX[0], 0); aa_rx_sg_add_frame_prismatic(sg, "m", "b", QI, V0, 0, AX[1], 0); aa_rx_sg_add_frame_prismatic(sg, "b", "a", QI, V0, 0, AX[2], 0); for (int i = 0; i < 2; i++) if (has[i]) aa_rx_sg_set_limit_pos(sg, i ? "a" : "b", lo_[i], hi_[i]); vf_true("init", aa_rx_sg_init(sg) == 0); s = aa_rx_sg_chain_create(sg, aa_rx_sg_frame_id(sg, "m"), aa_rx_sg_frame_id(sg, "a")); p = aa_rx_ik_parm_create(); if (vf_pick("frame", 2)) aa_rx_ik_parm_set_frame(p, aa_rx_sg_frame_id(sg, "a")); aa_rx_ik_parm_set_gain_trans(p, vf_range("gt", 0.5, 2));
    memset(J, 0, sizeof J); for (int j = 0; j < 2; j++) ref_mv(RB, AX[1+j], J + 6*j + AA_TF_DX_V); memset(U, 0, sizeof U); S[0] = 3; S[1] = 2; for (int k = 0; k < 3; k++) { for (int i = 0; i < 3; i++) U[6*k + AA_TF_DX_V + i] = RB[i + 3*k]; U[6*(3+k) + AA_TF_DX_W + k] = 1; } Vt[0] = Vt[3] = 1; vf_orc_svd(6, 2, J, U, S, Vt);
    static const char *N[3] = {"e0","e1","e2"}, *M[3] = {"f0","f1","f2"}; for (int i = 0; i < 4; i++) E0[i] = E1[i] = QB[i]; for (int i = 0; i < 3; i++) { E0[4+i] = vf_range(N[i], -5, 5); E1[4+i] = vf_range(M[i], 6, 9); } pl = aa_ct_pt_list_create(&reg); aa_ct_pt_list_add_qutr(pl, E0); aa_ct_pt_list_add_qutr(pl, E1); struct aa_ct_seg_list *segs = aa_ct_tjx_slerp_generate(&reg, pl);
    qs_[aa_rx_sg_config_id(sg, "m")] = qm = vf_range("qm", -1, 1); qs_[aa_rx_sg_config_id(sg, "b")] = vf_range("qb", -1, 1); qs_[aa_rx_sg_config_id(sg, "a")] = vf_range("qa", -1, 1); struct aa_mem_region *loc = aa_mem_region_local_get(), *rr = own ? &reg : loc; void *top = aa_mem_region_ptr(loc); double *path = 0; size_t n = 0; double q2[3] = {qs_[0], qs_[1], qs_[2]}; int r = aa_rx_ct_tjx_path(rr, p, s, segs, 3, qs_, &n, &path); vf_true("result", r == 0 && n == 3 && path != 0); if (own) vf_true("scratch popped", aa_mem_region_ptr(loc) == top); double *y = (double *)aa_mem_region_alloc(loc, 4096); for (int i = 0; i < 512; i++) y[i] = 77;
    for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) { double x = pth[2*k+i], z = path[2*k+i]; if (has[i]) { vf_le("within the limits", lo_[i], z); vf_le("within the limits", z, hi_[i]); } vf_true("the integrated path, clamped", z == (has[i] && x < lo_[i] ? lo_[i] : has[i] && x > hi_[i] ? hi_[i] : x)); } for (int i = 0; i < 3; i++) vf_true("start kept", qs_[i] == q2[i]);
    vf_true("no start", aa_rx_ct_tjx_path(rr, p, s, segs, 0, qs_, &n, &path) == AA_RX_INVALID_PARAMETER && aa_rx_ct_tjx_path(rr, p, s, segs, 3, 0, &n, &path) == AA_RX_INVALID_PARAMETER); aa_ct_seg_list_destroy(segs); aa_ct_pt_list_destroy(pl); aa_mem_region_destroy(&reg); aa_rx_ik_parm_destroy(p); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); vf_true("released", vf_live() == l0);
}
void h_track_own0(void) { track_(1, 0); }
void h_track_own2(void) { track_(1, 2); }
void h_track_local1(void) { track_(0, 1); }
void h_limits(void) {
    struct aa_mem_region reg; size_t l0 = vf_live(); aa_mem_region_init(&reg, 1024); int w = vf_pick("which", 16); static const char *nm[2] = {"b", "a"}; sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "z", QB, V0); for (int i = 0; i < 2; i++) aa_rx_sg_add_frame_prismatic(sg, i ? nm[i-1] : "z", nm[i], QI, V0, 0, AX[i], 0); double x[8]; vf_reals("x", 8, x); for (int i = 0; i < 2; i++) { int b = i ? ~w : w; if (b & 1) aa_rx_sg_set_limit_pos(sg, nm[i], x[0] - i, x[1] + i); if (b & 2) aa_rx_sg_set_limit_vel(sg, nm[i], x[2] - i, x[3] + i); if (b & 4) aa_rx_sg_set_limit_acc(sg, nm[i], x[4] - i, x[5] + i); if (b & 8) aa_rx_sg_set_limit_eff(sg, nm[i], x[6] - i, x[7] + i); } vf_true("init", aa_rx_sg_init(sg) == 0);
    for (int k = 0; k < 2; k++) { struct aa_ct_limit *l = k ? aa_rx_ct_sg_limits(&reg, sg) : aa_rx_ct_limits(&reg, sg); vf_true("sizes", l->min->n_q == 2 && l->max->n_q == 2); for (int i = 0; i < 2; i++) { int b = i ? ~w : w, j = aa_rx_sg_config_id(sg, nm[i]); double *a[4] = {l->min->q, l->min->dq, l->min->ddq, l->min->eff}, *c[4] = {l->max->q, l->max->dq, l->max->ddq, l->max->eff}; for (int m = 0; m < 4; m++) if ((b >> m) & 1) { vf_true("limit", a[m][j] == x[2*m] - i); vf_true("limit", c[m][j] == x[2*m+1] + i); } else vf_true("unlimited", a[m][j] == -INFINITY && c[m][j] == INFINITY); } }
    aa_mem_region_destroy(&reg); aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); vf_true("released", vf_live() == l0);
}
void h_pt_list(void) {
    struct aa_mem_region reg; size_t l0 = vf_live(); aa_mem_region_init(&reg, 1024); size_t n = 1 + vf_pick("n", 2), m = vf_pick("m", 4); double x[6], y[6]; for (int i = 0; i < 6; i++) y[i] = x[i] = i*1.5 + 1; x[0] = y[0] = vf_range("x", -3, 0); struct aa_ct_pt_list *l = aa_rx_ct_pt_list(&reg, n, m, x); vf_true("one point per waypoint", aa_ct_pt_list_size(l) == m); if (m) { const struct aa_ct_state *a = aa_ct_pt_list_start_state(l), *b = aa_ct_pt_list_final_state(l); vf_true("configurations", a->n_q == n && b->n_q == n); for (size_t i = 0; i < n; i++) vf_true("points in order", a->q[i] == y[i] && b->q[i] == y[(m-1)*n + i]); if (m == 3 && n == 1) { struct aa_ct_limit lim; struct aa_ct_state lo, hi; memset(&lo, 0, sizeof lo); memset(&hi, 0, sizeof hi); double v0 = -1, v1 = 1; lo.n_q = hi.n_q = 1; lo.dq = &v0; hi.dq = &v1; lim.min = &lo; lim.max = &hi; struct aa_ct_seg_list *g = aa_ct_tjq_lin_generate(&reg, l, &lim); struct aa_ct_state st; double q[1]; memset(&st, 0, sizeof st); st.n_q = 1; st.q = q; aa_ct_seg_list_eval(g, &st, y[1] - y[0]); vf_eq("middle point", q[0], y[1]); aa_ct_seg_list_destroy(g); } }
    for (int i = 0; i < 6; i++) vf_true("path kept", x[i] == y[i]); aa_ct_pt_list_destroy(l); aa_mem_region_destroy(&reg); aa_mem_region_local_destroy(); vf_true("released", vf_live() == l0);
}
