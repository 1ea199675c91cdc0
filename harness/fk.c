#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_geom.h"
/* P27: forward kinematics in every representation and through every entry point */
enum { F = AA_RX_FRAME_FIXED, R = AA_RX_FRAME_REVOLUTE, P = AA_RX_FRAME_PRISMATIC };
struct fr { const char *name; int parent, type; const char *cfg; double E[7], ax[3], off; };
static void addf(struct aa_rx_sg *sg, const struct fr *f, const struct fr *all) {
    const char *p = f->parent < 0 ? "" : all[f->parent].name;
    if (f->type == F) aa_rx_sg_add_frame_fixed(sg, p, f->name, f->E, f->E + 4);
    else if (f->type == R) aa_rx_sg_add_frame_revolute(sg, p, f->name, f->E, f->E + 4, f->cfg, f->ax, f->off);
    else aa_rx_sg_add_frame_prismatic(sg, p, f->name, f->E, f->E + 4, f->cfg, f->ax, f->off);
}
/* relative transform (3x4) of a frame at joint value x; s: length of the axis */
static void orel(const struct fr *f, double x, double s, double T[12]) {
    double J[12] = {1,0,0, 0,1,0, 0,0,1, 0,0,0}, B[12]; ref_qv2t(f->E, f->E + 4, B);
    if (f->type == R) { double u[3] = {f->ax[0]/s, f->ax[1]/s, f->ax[2]/s}; ref_aa2r(u, (x + f->off)*s, J); }
    if (f->type == P) for (int i = 0; i < 3; i++) J[9+i] = (x + f->off)*f->ax[i];
    ref_tmul(B, J, T);
}
static void in_frame(struct fr *f, int sym) {
    if (sym) { vf_unit("q", 4, f->E); vf_reals("v", 3, f->E + 4); vf_unit("ax", 3, f->ax); f->off = f->type == F ? 0 : vf_range("off", -1, 1); }
}
static void ck_E(const char *l, const double *E, const double *T) { double A[12]; ref_qv2t(E, E + 4, A); vf_eqn(l, 12, A, T); }
static void ck_S(const char *l, const double *S, const double *T) { double A[12], v[4], c[4]; ref_q2r(S, A); ref_qconj(S, c); ref_qmul(S + 4, c, v); for (int i = 0; i < 3; i++) A[9+i] = 2*v[i]; vf_eqn(l, 12, A, T); vf_eq("dual quaternion is a unit one", v[3], 0); }
/* one frame of any type: the three representations, relative and absolute, rows beyond untouched */
static void one(int type, double x, double scale) {
    struct fr f = {"f", -1, type, 0, {0}, {0}, 0}; in_frame(&f, 1); for (int i = 0; i < 3; i++) f.ax[i] *= scale;
    struct aa_rx_sg *sg = aa_rx_sg_create(); addf(sg, &f, &f); vf_true("init", 0 == aa_rx_sg_init(sg)); size_t n = aa_rx_sg_config_count(sg); vf_true("configuration size", n == (type != F));
    double T[12], A[14], B[14]; orel(&f, x, scale, T);
    for (int i = 0; i < 14; i++) A[i] = B[i] = 77; aa_rx_sg_tf(sg, n, &x, 1, A, 14, B, 13); ck_E("relative quaternion-translation", A, T); ck_E("absolute quaternion-translation", B, T); for (int i = 7; i < 14; i++) vf_true("nothing else written", A[i] == 77 && B[i] == 77);
    for (int i = 0; i < 14; i++) A[i] = B[i] = 77; aa_rx_sg_tfmat(sg, n, &x, 1, A, 14, B, 13); vf_eqn("relative matrix", 12, A, T); vf_eqn("absolute matrix", 12, B, T); for (int i = 12; i < 14; i++) vf_true("nothing else written", A[i] == 77 && B[i] == 77);
    for (int i = 0; i < 14; i++) A[i] = B[i] = 77; aa_rx_sg_duqu(sg, n, &x, 1, A, 14, B, 13); ck_S("relative dual quaternion", A, T); ck_S("absolute dual quaternion", B, T); for (int i = 8; i < 14; i++) vf_true("nothing else written", A[i] == 77 && B[i] == 77);
    if (type != F) vf_eqn("axis kept", 3, aa_rx_sg_frame_axis(sg, 0), f.ax);
    aa_rx_sg_destroy(sg);
}
void h_rel_fixed(void) { one(F, vf_real("x"), 1); }
void h_rel_rev(void) { one(R, vf_range("x", -6, 6), 1); }
void h_rel_pri(void) { one(P, vf_real("x"), 1); }
void h_rel_pri_scaled(void) { double s = vf_real("s"); one(P, vf_real("x"), s); }
// vf: h_rel_rev_scaled budget=100
void h_rel_rev_scaled(void) { double s = vf_range("s", 0.1, 3); one(R, vf_range("x", -2, 2), s); }
/* absent rotation or translation: identity */
void h_null(void) {
    double q[4], v[3], x = vf_range("x", -3, 3), ax[3], T[12]; vf_unit("q", 4, q); vf_reals("v", 3, v); vf_unit("ax", 3, ax); size_t k = vf_pick("k", 4); int ty = (int)vf_pick("ty", 3); const double *pq = k & 1 ? q : 0, *pv = k & 2 ? v : 0;
    struct aa_rx_sg *sg = aa_rx_sg_create(); if (ty == 0) aa_rx_sg_add_frame_fixed(sg, "", "f", pq, pv); else if (ty == 1) aa_rx_sg_add_frame_revolute(sg, "", "f", pq, pv, 0, ax, 0); else aa_rx_sg_add_frame_prismatic(sg, "", "f", pq, pv, 0, ax, 0);
    vf_true("init", 0 == aa_rx_sg_init(sg)); struct fr f = {"f", -1, ty == 0 ? F : ty == 1 ? R : P, 0, {0,0,0,1,0,0,0}, {ax[0], ax[1], ax[2]}, 0}; if (pq) cpy(4, q, f.E); if (pv) cpy(3, v, f.E + 4); orel(&f, x, 1, T);
    double A[7], M[12], S[8], B[12]; size_t n = ty ? 1 : 0; aa_rx_sg_tf(sg, n, &x, 1, A, 7, B, 7); ck_E("quaternion-translation", A, T); aa_rx_sg_tfmat(sg, n, &x, 1, M, 12, B, 12); vf_eqn("matrix", 12, M, T); aa_rx_sg_duqu(sg, n, &x, 1, S, 8, B, 8); ck_S("dual quaternion", S, T); aa_rx_sg_destroy(sg);
}
/* ------------------------------------------------ trees of three frames */
#define C35 {0.5, 0.5, -0.5, 0.5, 1, -2, 3}
#define C13 {-0.5, 0.5, 0.5, 0.5, -1, 0.5, 2}
#define CN {0.5, -0.5, 0.5, 0.5, 0, 1, -1}
static const struct fr BASE[3] = {{"k", -1, R, "qq", C35, {0,0,1}, 0}, {"d", 0, P, 0, C13, {1,0,0}, 0}, {"t", 1, R, "pp", CN, {0,-1,0}, 0}};
static void ids(struct aa_rx_sg *sg, const struct fr *f, aa_rx_frame_id *id, aa_rx_config_id *ci) { for (int i = 0; i < 3; i++) { id[i] = aa_rx_sg_frame_id(sg, f[i].name); ci[i] = aa_rx_sg_frame_config(sg, id[i]); } }
static void oabs(const struct fr *f, const double *x, double T[3][12]) { for (int i = 0; i < 3; i++) { double L[12]; orel(f + i, x[i], 1, L); if (f[i].parent < 0) cpy(12, L, T[i]); else ref_tmul(T[f[i].parent], L, T[i]); } }
static struct aa_rx_sg *mk3(const struct fr *f, int rev) { struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 3; i++) addf(sg, f + (rev ? 2 - i : i), f); vf_true("init", 0 == aa_rx_sg_init(sg)); return sg; }
static long vf_shape;
/* which frame has the symbolic offset transform, the types, the shape, who shares a configuration */
static void tree(struct fr *f) {
    memcpy(f, BASE, sizeof BASE); static const int par[4][3] = {{-1,0,1},{-1,0,0},{-1,-1,1},{-1,-1,0}}; const int *p = par[vf_pick("shape", 4)]; size_t t = vf_pick("types", 4); static const int ty[4][3] = {{R,P,R},{P,R,F},{F,R,P},{R,F,P}};
    for (int i = 0; i < 3; i++) { f[i].parent = p[i]; f[i].type = ty[t][i]; if (ty[t][i] == F) f[i].cfg = 0; if (ty[t][i] == P) f[i].off = -0.5; } if (t == 0 && vf_pick("share", 2)) f[2].cfg = f[0].cfg;
#ifdef VF_THOROUGH
    in_frame(f + vf_pick("sym", 3), 1);
#else
    in_frame(f + (vf_shape = (p - par[0])/3 + (long)t) % 3, 1);
#endif
}
static void values(const struct aa_rx_config_limits *unused, const aa_rx_config_id *ci, const double *q, double *x) { (void)unused; for (int i = 0; i < 3; i++) x[i] = ci[i] < 0 ? 0 : q[ci[i]]; }
static size_t mkq(struct aa_rx_sg *sg, double *q, const char *n) { size_t m = aa_rx_sg_config_count(sg); vf_true("size", m <= 3); for (size_t i = 0; i < m; i++) q[i] = vf_range(n, -3, 3); return m; }
// vf: h_tree_qv budget=100
void h_tree_qv(void) {
    struct fr f[3]; tree(f); struct aa_rx_sg *sg = mk3(f, 1); aa_rx_frame_id id[3]; aa_rx_config_id ci[3]; ids(sg, f, id, ci); double q[3], x[3], T[3][12]; size_t m = mkq(sg, q, "q"); values(0, ci, q, x); oabs(f, x, T);
    double A[3*9], B[3*8]; for (int i = 0; i < 27; i++) A[i] = 77; for (int i = 0; i < 24; i++) B[i] = 77; size_t nt = 3 - (size_t)(vf_shape % 7 == 5) - 2*(size_t)(vf_shape % 7 == 3); aa_rx_sg_tf(sg, m, q, nt, A, 9, B, 8);
    for (int i = 0; i < 3; i++) { double L[12]; orel(f + i, x[i], 1, L); if ((size_t)id[i] < nt) { ck_E("relative", A + 9*id[i], L); ck_E("absolute", B + 8*id[i], T[i]); vf_true("padding", A[9*id[i] + 7] == 77 && A[9*id[i] + 8] == 77 && B[8*id[i] + 7] == 77); } else vf_true("not requested", A[9*id[i]] == 77 && B[8*id[i]] == 77); }
    aa_rx_sg_destroy(sg);
}
// vf: h_tree_mat budget=100
void h_tree_mat(void) {
    struct fr f[3]; tree(f); struct aa_rx_sg *sg = mk3(f, 0); aa_rx_frame_id id[3]; aa_rx_config_id ci[3]; ids(sg, f, id, ci); double q[3], x[3], T[3][12]; size_t m = mkq(sg, q, "q"); values(0, ci, q, x); oabs(f, x, T);
    double A[3*14], B[3*13]; for (int i = 0; i < 42; i++) A[i] = 77; for (int i = 0; i < 39; i++) B[i] = 77; size_t nt = 3 - (size_t)(vf_shape % 7 == 5) - 2*(size_t)(vf_shape % 7 == 3); aa_rx_sg_tfmat(sg, m, q, nt, A, 14, B, 13);
    for (int i = 0; i < 3; i++) { double L[12]; orel(f + i, x[i], 1, L); if ((size_t)id[i] < nt) { vf_eqn("relative", 12, A + 14*id[i], L); vf_eqn("absolute", 12, B + 13*id[i], T[i]); vf_true("padding", A[14*id[i] + 12] == 77 && B[13*id[i] + 12] == 77); } else vf_true("not requested", A[14*id[i]] == 77 && B[13*id[i]] == 77); }
    aa_rx_sg_destroy(sg);
}
// vf: h_tree_duqu budget=100
void h_tree_duqu(void) {
    struct fr f[3]; tree(f); struct aa_rx_sg *sg = mk3(f, 1); aa_rx_frame_id id[3]; aa_rx_config_id ci[3]; ids(sg, f, id, ci); double q[3], x[3], T[3][12]; size_t m = mkq(sg, q, "q"); values(0, ci, q, x); oabs(f, x, T);
    double A[3*9], B[3*10]; for (int i = 0; i < 27; i++) A[i] = 77; for (int i = 0; i < 30; i++) B[i] = 77; size_t nt = 3 - (size_t)(vf_shape % 7 == 5) - 2*(size_t)(vf_shape % 7 == 3); aa_rx_sg_duqu(sg, m, q, nt, A, 9, B, 10);
    for (int i = 0; i < 3; i++) { double L[12]; orel(f + i, x[i], 1, L); if ((size_t)id[i] < nt) { ck_S("relative", A + 9*id[i], L); ck_S("absolute", B + 10*id[i], T[i]); vf_true("padding", A[9*id[i] + 8] == 77 && B[10*id[i] + 8] == 77); } else vf_true("not requested", A[9*id[i]] == 77 && B[10*id[i]] == 77); }
    aa_rx_sg_destroy(sg);
}
/* the object interface */
// vf: h_fk budget=100
void h_fk(void) {
    struct fr f[3]; tree(f); struct aa_rx_sg *sg = mk3(f, 1); aa_rx_frame_id id[3]; aa_rx_config_id ci[3]; ids(sg, f, id, ci); double q[3], x[3], T[3][12], qs[9]; size_t m = mkq(sg, q, "q"), inc = 1 + vf_pick("inc", 2); values(0, ci, q, x); oabs(f, x, T); for (int i = 0; i < 9; i++) qs[i] = 55; for (size_t i = 0; i < m; i++) qs[i*inc] = q[i]; struct aa_dvec qv = AA_DVEC_INIT(m, qs, inc);
    size_t how = vf_pick("how", 3); struct aa_mem_region reg; aa_mem_region_init(&reg, 512);
    if (how == 2) { double M[3*8]; for (int i = 0; i < 24; i++) M[i] = 77; struct aa_dmat D = AA_DMAT_INIT(7, 3, M, 8); aa_rx_sg_fill_tf_abs(sg, &qv, &D); struct aa_dmat *G = aa_rx_sg_get_tf_abs(sg, &reg, &qv); vf_true("size", G->rows == 7 && G->cols == 3);
        for (int i = 0; i < 3; i++) { ck_E("filled", M + 8*id[i], T[i]); ck_E("gotten", G->data + G->ld*(size_t)id[i], T[i]); vf_true("padding", M[8*id[i] + 7] == 77); } }
    else { struct aa_rx_fk *fk = how ? aa_rx_fk_alloc(sg, &reg) : aa_rx_fk_malloc(sg), *f2 = aa_rx_fk_malloc(sg); vf_true("count", aa_rx_fk_cnt(fk) == 3); aa_rx_fk_all(fk, &qv); aa_rx_fk_cpy(f2, fk); double *d = aa_rx_fk_data(fk); size_t ld = aa_rx_fk_ld(fk);
        for (int i = 0; i < 3; i++) { double E[7]; ck_E("by reference", aa_rx_fk_ref(fk, id[i]), T[i]); aa_rx_fk_get_abs_qutr(fk, id[i], E); ck_E("by value", E, T[i]); ck_E("raw data", d + ld*(size_t)id[i], T[i]); ck_E("copied", aa_rx_fk_ref(f2, id[i]), T[i]); }
        if (!how) aa_rx_fk_destroy(fk); aa_rx_fk_destroy(f2); }
    for (size_t i = 0; i < 9; i++) vf_true("configuration untouched", qs[i] == (i % inc == 0 && i/inc < m ? q[i/inc] : 55));
    aa_mem_region_destroy(&reg); aa_rx_sg_destroy(sg);
}
/* setting one frame relative to its parent, and relative transforms of any two frames */
static void ck_relT(const char *l, const double *E, const double *Ta, const double *Tb) { double I[12], X[12]; ref_tinv(Ta, I); ref_tmul(I, Tb, X); ck_E(l, E, X); }
// vf: h_rel budget=100
void h_rel(void) {
    struct fr f[3]; memcpy(f, BASE, sizeof f); f[2].parent = (int)vf_pick("par", 3) - 1; f[0].type = f[1].type = f[2].type = F; f[0].cfg = f[1].cfg = f[2].cfg = 0; struct aa_rx_sg *sg = mk3(f, 0); aa_rx_frame_id id[4]; for (int i = 0; i < 3; i++) id[i] = aa_rx_sg_frame_id(sg, f[i].name); id[3] = AA_RX_FRAME_ROOT;
    double E[2][7], T[4][12] = {{0}}, M[3*8]; static const double I[12] = {1,0,0, 0,1,0, 0,0,1, 0,0,0}; cpy(12, I, T[3]); for (int i = 0; i < 2; i++) in_qv("q", "v", E[i], E[i] + 4); for (int i = 0; i < 24; i++) M[i] = 77;
    struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); for (int i = 0; i < 3; i++) cpy(7, BASE[i].E, aa_rx_fk_ref(fk, id[i])); size_t a = vf_pick("a", 4), b = vf_pick("b", 4);
    for (size_t i = 0; i < 3; i++) { if (i == a) cpy(7, E[0], aa_rx_fk_ref(fk, id[i])); else if (i == b) cpy(7, E[1], aa_rx_fk_ref(fk, id[i])); ref_qv2t(aa_rx_fk_ref(fk, id[i]), aa_rx_fk_ref(fk, id[i]) + 4, T[i]); cpy(7, aa_rx_fk_ref(fk, id[i]), M + 8*id[i]); }
    double X[7]; aa_rx_fk_get_rel_qutr(fk, id[a], id[b], X); ck_relT("relative transform", X, T[a], T[b]); aa_rx_sg_rel_tf(sg, id[a], id[b], M, 8, X); ck_relT("relative transform from data", X, T[a], T[b]);
    if (a < 3) { double Y[7], L[12], Z[12]; in_qv("yq", "yv", Y, Y + 4); ref_qv2t(Y, Y + 4, L); if (f[a].parent < 0) cpy(12, L, Z); else ref_tmul(T[f[a].parent], L, Z); aa_rx_fk_set_rel(fk, id[a], Y); ck_E("set", aa_rx_fk_ref(fk, id[a]), Z); for (size_t i = 0; i < 3; i++) if (i != a) ck_E("others kept", aa_rx_fk_ref(fk, id[i]), T[i]); }
    aa_rx_fk_destroy(fk); aa_rx_sg_destroy(sg);
}
/* incremental update from a known configuration equals computing from scratch */
// vf: h_update budget=200 max_paths=2000
void h_update(void) {
    struct fr f[3]; memcpy(f, BASE, sizeof f); static const int par[4][3] = {{-1,0,1},{-1,0,0},{-1,-1,1},{-1,-1,0}}; const int *p = par[vf_pick("shape", 4)]; size_t t = vf_pick("types", 4); static const int ty[4][3] = {{R,P,R},{P,R,F},{F,R,P},{P,F,P}};
    for (int i = 0; i < 3; i++) { f[i].parent = p[i]; f[i].type = ty[t][i]; if (ty[t][i] == F) f[i].cfg = 0; if (ty[t][i] == P) f[i].off = -0.5; } if (t == 0 && vf_pick("share", 2)) f[2].cfg = f[0].cfg;
    struct aa_rx_sg *sg = mk3(f, 1); aa_rx_frame_id id[3]; aa_rx_config_id ci[3]; ids(sg, f, id, ci); double q0[3], q[3]; size_t m = aa_rx_sg_config_count(sg); for (size_t i = 0; i < m; i++) { q0[i] = vf_range("q0", -3, 3); if (vf_pick("same", 2)) q[i] = q0[i]; else { q[i] = vf_range("q", -3, 3); vf_assume_ne(q[i], q0[i]); } }
    double A0[24], B0[27], A[30], B[33], A1[24], B1[24]; aa_rx_sg_tf(sg, m, q0, 3, A0, 8, B0, 9); for (int i = 0; i < 30; i++) A[i] = 77; for (int i = 0; i < 33; i++) B[i] = 77;
    aa_rx_sg_tf_update(sg, m, q0, q, 3, A0, 8, B0, 9, A, 10, B, 11); aa_rx_sg_tf(sg, m, q, 3, A1, 8, B1, 8);
    for (int i = 0; i < 3; i++) { vf_eqn("relative as from scratch", 7, A + 10*i, A1 + 8*i); vf_eqn("absolute as from scratch", 7, B + 11*i, B1 + 8*i); for (int j = 7; j < 10; j++) vf_true("padding", A[10*i + j] == 77 && B[11*i + j] == 77 ); }
    aa_rx_sg_destroy(sg);
}
/* forward kinematics of a chain only: the chain's frames are those of the full computation, all others keep their value */
// vf: h_sub budget=100
void h_sub(void) {
    struct fr f[3]; tree(f); struct aa_rx_sg *sg = mk3(f, 1); aa_rx_frame_id id[3]; aa_rx_config_id ci[3]; ids(sg, f, id, ci); double q[3], x[3], T[3][12]; size_t m = mkq(sg, q, "q"); values(0, ci, q, x); oabs(f, x, T);
    size_t tip = vf_pick("tip", 3), root = vf_pick("root", 4); int in[3] = {0, 0, 0}; for (int i = (int)tip; i >= 0 && i != (int)root; i = f[i].parent) in[i] = 1; if (root < 3) { int anc = 0; for (int i = (int)tip; i >= 0; i = f[i].parent) anc |= i == (int)root; if (!anc) { vf_reach("root is no ancestor"); aa_rx_sg_destroy(sg); return; } }
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (in[i] && in[j] && ci[i] >= 0 && ci[i] == ci[j]) { vf_reach("shared configuration inside one chain"); aa_rx_sg_destroy(sg); return; }
    struct aa_rx_sg_sub *ssg = aa_rx_sg_chain_create(sg, root < 3 ? id[root] : AA_RX_FRAME_ROOT, id[tip]); size_t n = aa_rx_sg_sub_config_count(ssg), inc = 1 + vf_pick("inc", 2); double qs[6] = {5, 5, 5, 5, 5, 5}; vf_true("size", n <= 3); for (size_t i = 0; i < n; i++) qs[i*inc] = q[aa_rx_sg_sub_config(ssg, i)]; struct aa_dvec qv = AA_DVEC_INIT(n, qs, inc);
    struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); double old[3][7]; for (int i = 0; i < 3; i++) { for (int k = 0; k < 7; k++) old[i][k] = 100*i + k; cpy(7, old[i], aa_rx_fk_ref(fk, id[i])); }
    if (root < 3) { struct aa_dvec qa = AA_DVEC_INIT(m, q, 1); struct aa_rx_fk *g = aa_rx_fk_malloc(sg); aa_rx_fk_all(g, &qa); cpy(7, aa_rx_fk_ref(g, id[root]), old[root]); cpy(7, old[root], aa_rx_fk_ref(fk, id[root])); aa_rx_fk_destroy(g); }
    aa_rx_fk_sub(fk, ssg, &qv); for (int i = 0; i < 3; i++) if (in[i]) ck_E("chain frame", aa_rx_fk_ref(fk, id[i]), T[i]); else vf_eqn("frame outside the chain kept", 7, aa_rx_fk_ref(fk, id[i]), old[i]);
    aa_rx_fk_destroy(fk); aa_rx_sg_sub_destroy(ssg); aa_rx_sg_destroy(sg);
}
/* a reparented frame has its new transform in every representation */
void h_reparent(void) {
    struct fr f[3]; memcpy(f, BASE, sizeof f); struct aa_rx_sg *sg = mk3(f, 0); size_t k = vf_pick("k", 3); int p = (int)vf_pick("p", 4) - 1; for (int a = p; a >= 0; a = f[a].parent) if (a == (int)k) { vf_reach("cycle"); return; }
    in_qv("q", "v", f[k].E, f[k].E + 4); aa_rx_sg_reparent_name(sg, p < 0 ? "" : f[p].name, f[k].name, f[k].E); f[k].parent = p; vf_true("init", 0 == aa_rx_sg_init(sg)); aa_rx_frame_id id[3]; aa_rx_config_id ci[3]; ids(sg, f, id, ci);
    double q[3], x[3], A[21], B[21], C[36], D[36], L[12]; size_t m = mkq(sg, q, "x"); values(0, ci, q, x); orel(f + k, x[k], 1, L); aa_rx_sg_tf(sg, m, q, 3, A, 7, B, 7); ck_E("quaternion-translation", A + 7*id[k], L); aa_rx_sg_tfmat(sg, m, q, 3, C, 12, D, 12); vf_eqn("matrix", 12, C + 12*id[k], L); aa_rx_sg_duqu(sg, m, q, 3, C, 8, D, 8); ck_S("dual quaternion", C + 8*id[k], L);
    double W[12]; if (p < 0) cpy(12, L, W); else { double Tp[12]; ref_qv2t(B + 7*id[p], B + 7*id[p] + 4, Tp); ref_tmul(Tp, L, W); } ck_E("absolute", B + 7*id[k], W); aa_rx_sg_destroy(sg);
}

