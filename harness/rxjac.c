#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik_internal.h"
/* P29: kinematic Jacobians are the exact derivative of forward kinematics.
 * Moving joint i by any amount h displaces the end effector by the screw of column i of the twist Jacobian:
 * T(q + h e_i) = exp(h * column_i) T(q), exactly, for revolute and prismatic joints. */
enum { F = AA_RX_FRAME_FIXED, R = AA_RX_FRAME_REVOLUTE, P = AA_RX_FRAME_PRISMATIC };
struct fr { const char *name; int parent, type; double E[7], ax[3], off; };
#define QA {0.5, 0.5, -0.5, 0.5, 1, -2, 3}
#define QB {-0.5, 0.5, 0.5, 0.5, -1, 0.5, 2}
#define QC {0.5, -0.5, 0.5, 0.5, 0, 1, -1}
static struct fr f[4]; static aa_rx_frame_id id[4]; static double q[4]; static aa_rx_config_id ci[4]; static size_t nq;
/* chain d - b - c - a (ids in that order), with a side branch when the shape has one */
static struct aa_rx_sg *graph(int sym) {
    static const struct fr base[4] = {{"d", -1, R, QA, {0,0,1}, 0}, {"b", 0, R, QB, {1,0,0}, 0}, {"c", 1, R, QC, {0,-1,0}, 0}, {"a", 2, F, {0,0,0,1,0.5,2,-3}, {0,0,0}, 0}};
    memcpy(f, base, sizeof f); static const int ty[6][4] = {{R,R,R,F}, {R,P,R,F}, {F,R,P,R}, {P,R,F,R}, {R,F,R,P}, {P,P,R,F}}; size_t t = vf_pick("types", sym < 0 ? 6 : 3); for (int i = 0; i < 4; i++) { f[i].type = ty[t][i]; if (f[i].type != F && f[i].ax[0] == 0 && f[i].ax[1] == 0 && f[i].ax[2] == 0) f[i].ax[1] = 1; }
    if (sym < 0 && vf_pick("branch", 2)) f[2].parent = 0;
    if (sym >= 0) { struct fr *g = f + sym % 4; if (sym < 4) { vf_unit("E", 4, g->E); vf_reals("v", 3, g->E + 4); } else if (g->type != F) { vf_unit("ax", 3, g->ax); g->off = vf_range("off", -1, 1); } }
    struct aa_rx_sg *sg = aa_rx_sg_create(); for (int k = 3; k >= 0; k--) { const struct fr *g = f + k; const char *p = g->parent < 0 ? "" : f[g->parent].name; if (g->type == F) aa_rx_sg_add_frame_fixed(sg, p, g->name, g->E, g->E + 4); else if (g->type == R) aa_rx_sg_add_frame_revolute(sg, p, g->name, g->E, g->E + 4, 0, g->ax, g->off); else aa_rx_sg_add_frame_prismatic(sg, p, g->name, g->E, g->E + 4, 0, g->ax, g->off); }
    vf_true("init", 0 == aa_rx_sg_init(sg)); nq = aa_rx_sg_config_count(sg); for (int i = 0; i < 4; i++) { id[i] = aa_rx_sg_frame_id(sg, f[i].name); ci[i] = aa_rx_sg_frame_config(sg, id[i]); } for (size_t i = 0; i < nq; i++) q[i] = vf_range("q", -3, 3); return sg;
}
static void tip(struct aa_rx_sg *sg, const double *x, int t, double T[12]) { double A[28], B[28]; aa_rx_sg_tf(sg, nq, x, 4, A, 7, B, 7); ref_qv2t(B + 7*id[t], B + 7*id[t] + 4, T); }
/* exp(h * twist) for a unit revolute (pitch zero) or a prismatic twist */
static void screw(const double *w, const double *v, int ty, double h, double T[12]) {
    if (ty == P) { double I[12] = {1,0,0, 0,1,0, 0,0,1, h*v[0], h*v[1], h*v[2]}; cpy(12, I, T); return; }
    ref_aa2r(w, h, T); double p[3], Rp[3]; ref_cross(w, v, p); ref_mv(T, p, Rp); for (int i = 0; i < 3; i++) T[9+i] = p[i] - Rp[i];
}
static size_t mkchain(struct aa_rx_sg *sg, struct aa_rx_sg_sub **s, int *root, int *tp, int *jt, int sym) {
    static const int rt[4][2] = {{-1,3},{0,3},{-1,2},{0,2}}; const int *p = rt[vf_pick("chain", sym < 0 ? 4 : 2)]; *root = p[0]; *tp = p[1]; *s = aa_rx_sg_chain_create(sg, p[0] < 0 ? AA_RX_FRAME_ROOT : id[p[0]], id[p[1]]); size_t m = 0; int t[4], n = 0; for (int i = p[1]; i >= 0 && i != p[0]; i = f[i].parent) t[n++] = i; while (n--) if (f[t[n]].type != F) jt[m++] = t[n]; return m;
}
/* twist Jacobian, one joint frame with a symbolic transform */
static void twist(int sym, int ld, int how) {
    struct aa_rx_sg *sg = graph(sym); struct aa_rx_sg_sub *s; int root, tp, jt[4]; size_t m = mkchain(sg, &s, &root, &tp, jt, sym); struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); struct aa_dvec qv = AA_DVEC_INIT(nq, q, 1); aa_rx_fk_all(fk, &qv);
    double J[8*4], Jw[4*4], Jv[5*4]; for (int i = 0; i < 32; i++) J[i] = 77; for (int i = 0; i < 16; i++) Jw[i] = 77; for (int i = 0; i < 20; i++) Jv[i] = 77; struct aa_mem_region reg; aa_mem_region_init(&reg, 1024);
    size_t L = (size_t)ld; vf_true("columns", m == aa_rx_sg_sub_config_count(s) && m <= 4); if (m == 0) { vf_reach("no joint: no Jacobian"); return; }
    if (how == 0) { struct aa_dmat D = AA_DMAT_INIT(6, m, J, L); aa_rx_sg_sub_jac_twist_fill(s, fk, &D); for (size_t i = 0; i < 4; i++) for (size_t k = 0; k < L && i*L + k < 32; k++) if (k >= 6 || i >= m) vf_true("padding", J[i*L + k] == 77); }
    if (how == 1) { struct aa_dmat *D = aa_rx_sg_sub_jac_twist_get(s, &reg, fk); vf_true("size", D->rows == 6 && D->cols == m); L = 8; for (size_t i = 0; i < m; i++) cpy(6, D->data + i*D->ld, J + 8*i); }
    double T0[12]; tip(sg, q, tp, T0);
    for (size_t i = 0; i < m; i++) { double h = vf_range("h", -2, 2), x[4], T1[12], S[12], X[12]; int j = jt[i]; cpy(nq, q, x); x[ci[j]] += h; tip(sg, x, tp, T1); const double *c = J + i*L; if (f[j].type == P) vf_true("no rotation", c[AA_TF_DX_W] == 0 && c[AA_TF_DX_W+1] == 0 && c[AA_TF_DX_W+2] == 0); else { vf_eq("zero pitch", ref_dot(c + AA_TF_DX_W, c + AA_TF_DX_V), 0); vf_eq("unit axis", ref_dot(c + AA_TF_DX_W, c + AA_TF_DX_W), 1); }
        screw(c + AA_TF_DX_W, c + AA_TF_DX_V, f[j].type, h, S); ref_tmul(S, T0, X); vf_eqn("motion of the end effector is the screw of the column", 12, X, T1); }
    aa_mem_region_destroy(&reg); aa_rx_fk_destroy(fk); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg); (void)Jw; (void)Jv;
}
// vf: h_twist budget=120
void h_twist(void) { twist(-1, 6, 0); }
// vf: h_twist_ld budget=120
void h_twist_ld(void) { twist(-1, 8, 0); }
// vf: h_twist_get budget=120
void h_twist_get(void) { twist(-1, 6, 1); }
// vf: h_twist_sym0 budget=120
void h_twist_sym0(void) { twist(0, 7, 0); }
// vf: h_twist_sym1 budget=120
void h_twist_sym1(void) { twist(1, 7, 0); }
// vf: h_twist_sym2 budget=120
void h_twist_sym2(void) { twist(2, 7, 0); }
// vf: h_twist_ax0 budget=120
void h_twist_ax0(void) { twist(4, 7, 0); }
// vf: h_twist_ax1 budget=120
void h_twist_ax1(void) { twist(5, 7, 0); }
// vf: h_twist_ax2 budget=120
void h_twist_ax2(void) { twist(6, 7, 0); }
/* velocity Jacobian: same angular part, linear part is the velocity of the end effector's origin; every entry point agrees */
static void vel(int sym) {
    struct aa_rx_sg *sg = graph(sym); struct aa_rx_sg_sub *s; int root, tp, jt[4]; size_t m = mkchain(sg, &s, &root, &tp, jt, sym); if (m == 0) { vf_reach("no joint: no Jacobian"); return; } struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); struct aa_dvec qv = AA_DVEC_INIT(nq, q, 1); aa_rx_fk_all(fk, &qv); struct aa_mem_region reg; aa_mem_region_init(&reg, 1024);
    double W[24], J[8*4], Jw[5*4], Jv[7*4], A[4*8], K[7*4]; struct aa_dmat DW = AA_DMAT_INIT(6, m, W, 6); aa_rx_sg_sub_jac_twist_fill(s, fk, &DW); double T0[12]; tip(sg, q, tp, T0); for (int i = 0; i < 32; i++) J[i] = 77; for (int i = 0; i < 28; i++) K[i] = 77;
    size_t L = vf_pick("ld", 2) ? 8 : 6; struct aa_dmat D = AA_DMAT_INIT(6, m, J, L), Dw = AA_DMAT_INIT(3, m, Jw, 5), Dv = AA_DMAT_INIT(3, m, Jv, 7); aa_rx_sg_sub_jac_vel_fill(s, fk, &D); struct aa_dmat *G = aa_rx_sg_sub_jac_vel_get(s, &reg, fk);
    for (size_t i = 0; i < m; i++) { double v[3]; ref_cross(W + 6*i + AA_TF_DX_W, T0 + 9, v); for (int k = 0; k < 3; k++) { vf_eq("angular velocity", J[i*L + AA_TF_DX_W + k], W[6*i + AA_TF_DX_W + k]); vf_eq("velocity of the end effector", J[i*L + AA_TF_DX_V + k], W[6*i + AA_TF_DX_V + k] + v[k]); } vf_eqn("allocated", 6, G->data + i*G->ld, J + i*L); }
    for (size_t i = 0; i < 4; i++) for (size_t k = 0; k < L; k++) if (k >= 6 || i >= m) vf_true("padding", J[i*L + k] == 77);
    /* from a matrix of absolute transforms */
    double B[28]; aa_rx_sg_tf(sg, nq, q, 4, B, 7, A, 8); aa_rx_sg_sub_jacobian(s, 4, A, 8, K, 7); for (size_t i = 0; i < 4; i++) { if (i < m) vf_eqn("from absolute transforms", 6, K + 7*i, J + i*L); vf_true("padding", K[7*i + 6] == 77 && (i < m || K[7*i] == 77)); }
    struct aa_dmat TA = AA_DMAT_INIT(7, 4, A, 8), *H = aa_rx_sg_sub_get_jacobian(s, &reg, &TA); vf_true("size", H->rows == 6 && H->cols == m && G->rows == 6 && G->cols == m); for (size_t i = 0; i < m; i++) vf_eqn("allocated, from absolute transforms", 6, H->data + i*H->ld, J + i*L);
    /* separate blocks, rotation first (as documented by the equation) */
    aa_rx_sg_sub_jac_vel_fill2(s, fk, &Dw, &Dv); for (size_t i = 0; i < m; i++) { vf_eqn("rotation block", 3, Jw + 5*i, J + i*L + AA_TF_DX_W); vf_eqn("translation block", 3, Jv + 7*i, J + i*L + AA_TF_DX_V); }
    aa_rx_sg_sub_jac_twist_fill2(s, fk, &Dw, &Dv); for (size_t i = 0; i < m; i++) { vf_eqn("rotation block", 3, Jw + 5*i, W + 6*i + AA_TF_DX_W); vf_eqn("translation block", 3, Jv + 7*i, W + 6*i + AA_TF_DX_V); }
    aa_mem_region_destroy(&reg); aa_rx_fk_destroy(fk); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg);
}
// vf: h_vel budget=120
void h_vel(void) { vel(-1); }
// vf: h_vel_sym1 budget=120
void h_vel_sym1(void) { vel(1); }
// vf: h_vel_sym2 budget=120
void h_vel_sym2(void) { vel(2); }
