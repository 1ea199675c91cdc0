#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "amino.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik.h"
#include "amino/rx/scene_collision.h"
#include "amino/rx/scene_planning.h"
/* P39: motion planning: the problem handed to OMPL (omplstub), to the collision checker and to the inverse kinematics, and the path given back.
 * The checker has any outcome; the planner returns any path its contract allows. */
#define NF 5
static const char *FN[NF] = {"c", "2w", "a", "b", "1u"};   /* u, a: revolute and prismatic chain to c with w aside, b fixed beyond */
static double L[3][2]; static int haslim[3], ci[3]; static aa_rx_frame_id f[NF]; static double q0[3], FQ[4][4], FV[4][3];
static struct aa_rx_sg *sg; static struct aa_rx_sg_sub *ssg; static int J[3];
/* joints: "y" (frame u, root, revolute z), "x" (frame a under u, prismatic x), "m" (frame w, root, prismatic y; outside the chain); c is fixed under a */
static void scene(void) {
    static const double q[4] = {0, 0, 0, 1}, qz[4] = {0, 0.6, 0, 0.8}, v0[3] = {1, 2, 3}, v1[3] = {0, 0.5, 0}, v2[3] = {0.25, 0, 1}, ax[3][3] = {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}};
    sg = aa_rx_sg_create(); aa_rx_sg_add_frame_revolute(sg, "", "1u", q, v0, "y", ax[0], 0); aa_rx_sg_add_frame_prismatic(sg, "1u", "a", q, v1, "x", ax[1], 0); aa_rx_sg_add_frame_fixed(sg, "a", "c", qz, v2); aa_rx_sg_add_frame_prismatic(sg, "", "2w", q, v2, "m", ax[2], 0); aa_rx_sg_add_frame_fixed(sg, "2w", "b", q, v1);
    static const char *CN[3] = {"y", "x", "m"}; for (int i = 0; i < 3; i++) { haslim[i] = i != 1 || vf_pick("x_is_limited", 2); L[i][0] = haslim[i] ? vf_range("lower", -2, -1) : -M_PI; L[i][1] = haslim[i] ? vf_range("upper", 1, 2) : M_PI; if (haslim[i]) aa_rx_sg_set_limit_pos(sg, CN[i], L[i][0], L[i][1]); }
}
static void scene2(void) { static const char *CN[3] = {"y", "x", "m"}; vf_true("init", 0 == aa_rx_sg_init(sg)); for (int i = 0; i < NF; i++) f[i] = aa_rx_sg_frame_id(sg, FN[i]); for (int i = 0; i < 3; i++) ci[i] = (int)aa_rx_sg_config_id(sg, CN[i]); ssg = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, f[0]); vf_true("chain", aa_rx_sg_sub_config_count(ssg) == 2 && ci[2] == 1); for (int i = 0; i < 2; i++) J[i] = aa_rx_sg_sub_config(ssg, (size_t)i); }
static double lim(int c, int s) { for (int i = 0; i < 3; i++) if (ci[i] == c) return L[i][s]; return 0; }
/* sets of pairs (P30) */
struct aa_rx_cl_set { char v[NF][NF]; }; static int al0;
struct aa_rx_cl_set *aa_rx_cl_set_create(const struct aa_rx_sg *s) { vf_true("the scene", s == sg); return calloc(1, sizeof(struct aa_rx_cl_set)); } void aa_rx_cl_set_destroy(struct aa_rx_cl_set *s) { free(s); } void aa_rx_cl_set_clear(struct aa_rx_cl_set *s) { memset(s, 0, sizeof *s); }
void aa_rx_cl_set_set(struct aa_rx_cl_set *s, aa_rx_frame_id i, aa_rx_frame_id j, int v) { s->v[i][j] = s->v[j][i] = v ? 1 : 0; } int aa_rx_cl_set_get(const struct aa_rx_cl_set *s, aa_rx_frame_id i, aa_rx_frame_id j) { return s->v[i][j]; }
void aa_rx_cl_set_fill(struct aa_rx_cl_set *d, const struct aa_rx_cl_set *s) { for (int i = 0; i < NF*NF; i++) d->v[i/NF][i%NF] |= s->v[i/NF][i%NF]; } void aa_rx_cl_set_merge(struct aa_rx_cl_set *d, const struct aa_rx_cl_set *s) { aa_rx_cl_set_fill(d, s); }
void aa_rx_sg_cl_set_copy(const struct aa_rx_sg *s, struct aa_rx_cl_set *d) { vf_true("the scene", s == sg); if (al0) aa_rx_cl_set_set(d, f[0], f[1], 1); }
/* the collision checker: which of the two pairs touch is any, on each call */
struct aa_rx_cl { int n; }; static int A[2], cls, touch[2], hitmode, nchk, ngc; static double cq[3], gcq[3]; static const int PI_[2] = {0, 2}, PJ_[2] = {1, 3};
static const double *exq; static int want;   /* state that should be looked at next (in the order of the chain) */
static void full(const double *qs, double *q) { cpy(3, q0, q); for (int i = 0; i < 2; i++) q[J[i]] = qs[i]; }
static void draw(void) { for (int i = 0; i < 2; i++) touch[i] = hitmode == 2 ? (int)vf_pick("touch", 2) : hitmode == 1 ? (i == 0) : 0; }
struct aa_rx_cl *aa_rx_cl_create(const struct aa_rx_sg *s) { struct aa_rx_cl *c = malloc(sizeof *c); vf_true("the scene of the chain", s == sg); cls++; A[0] = A[1] = 0; struct aa_rx_cl_set *k = aa_rx_cl_set_create(s); aa_rx_sg_cl_set_copy(s, k); for (int i = 0; i < 2; i++) A[i] = aa_rx_cl_set_get(k, f[PI_[i]], f[PJ_[i]]); aa_rx_cl_set_destroy(k); return c; }
void aa_rx_cl_destroy(struct aa_rx_cl *c) { free(c); cls--; }
void aa_rx_cl_allow_set(struct aa_rx_cl *c, const struct aa_rx_cl_set *s) { for (int i = 0; i < 2; i++) if (aa_rx_cl_set_get(s, f[PI_[i]], f[PJ_[i]])) A[i] = 1; }
void aa_rx_cl_allow(struct aa_rx_cl *c, aa_rx_frame_id a, aa_rx_frame_id b, int v) { for (int i = 0; i < 2; i++) if ((a == f[PI_[i]] && b == f[PJ_[i]]) || (b == f[PI_[i]] && a == f[PJ_[i]])) A[i] = !!v; }
static int lastcol, track; static int seen[2];
int aa_rx_cl_check(struct aa_rx_cl *c, size_t n, const double *TF, size_t ld, struct aa_rx_cl_set *s) {
    nchk++; vf_true("all frames", n == NF && ld >= 7); vf_true("a state is asked for", exq != 0);
    if (exq) { double q[3], T[7*NF], R[7*NF]; full(exq, q); aa_rx_sg_tf(sg, 3, q, NF, R, 7, T, 7); for (size_t i = 0; i < NF; i++) (vf_eqn)("the chain moves, the other joints stay at the start", 7, TF + i*ld, T + 7*i); }
    draw(); int r = 0; for (int i = 0; i < 2; i++) if (touch[i] && !A[i]) { r = 1; if (s) { aa_rx_cl_set_set(s, f[PI_[i]], f[PJ_[i]], 1); seen[i] = 1; } } vf_true("collisions are kept when tracked", !s == !track); lastcol = r; return r;
}
void aa_rx_sg_get_collision(const struct aa_rx_sg *s, size_t n, const double *q, struct aa_rx_cl_set *k) { ngc++; vf_true("every joint", n == 3); cpy(3, q, gcq); draw(); for (int i = 0; i < 2; i++) if (touch[i]) aa_rx_cl_set_set(k, f[PI_[i]], f[PJ_[i]], 1); }
/* inverse kinematics: any answer */
struct aa_rx_ik_parm { int x; }; struct aa_rx_ik_cx { double s[3], seed[2]; struct aa_dvec start; int hs, hseed; aa_rx_frame_id fr; }; static int iks, ikr; static double ikq[2], ikE[7], smp[2]; static aa_rx_frame_id wantfr; static int nsolve;
struct aa_rx_ik_parm *aa_rx_ik_parm_create(void) { iks++; return calloc(1, sizeof(struct aa_rx_ik_parm)); } void aa_rx_ik_parm_destroy(struct aa_rx_ik_parm *p) { iks--; free(p); }
struct aa_rx_ik_cx *aa_rx_ik_cx_create(const struct aa_rx_sg_sub *s, const struct aa_rx_ik_parm *p) { vf_true("the chain", s == ssg && p); iks++; struct aa_rx_ik_cx *c = calloc(1, sizeof *c); c->start.data = c->s; c->start.len = 3; c->start.inc = 1; return c; }
void aa_rx_ik_cx_destroy(struct aa_rx_ik_cx *c) { iks--; free(c); } void aa_rx_ik_set_frame_id(struct aa_rx_ik_cx *c, aa_rx_frame_id i) { c->fr = i; }
void aa_rx_ik_set_start(struct aa_rx_ik_cx *c, const struct aa_dvec *q) { vf_true("start of every joint", q->len == 3); for (size_t i = 0; i < 3; i++) c->s[i] = q->data[i*q->inc]; c->hs = 1; }
void aa_rx_ik_set_seed(struct aa_rx_ik_cx *c, const struct aa_dvec *q) { vf_true("seed of the chain", q->len == 2); for (size_t i = 0; i < 2; i++) c->seed[i] = q->data[i*q->inc]; c->hseed++; }
struct aa_dvec *aa_rx_ik_get_start(const struct aa_rx_ik_cx *c) { return (struct aa_dvec *)&c->start; }
int aa_rx_ik_solve(const struct aa_rx_ik_cx *c, const struct aa_dmat *T, struct aa_dvec *q) { nsolve++; vf_true("started and seeded", c->hs && c->hseed == nsolve); (vf_eqn)("start of the search", 3, c->s, q0); (vf_eqn)("a new seed for each attempt", 2, c->seed, smp); vf_true("frame of the goal", c->fr == wantfr); vf_true("one pose", T->rows == 7 && T->cols == 1); (vf_eqn)("pose of the goal", 7, T->data, ikE); vf_true("result", q->len == 2);
    ikr = (int)vf_pick("inverse_kinematics", 2); for (size_t i = 0; i < 2; i++) { ikq[i] = vf_range("solution", -0.9, 0.9); q->data[i*q->inc] = ikr ? ikq[i] : 7; } exq = ikq; return ikr ? 0 : AA_RX_NO_SOLUTION | AA_RX_NO_IK; }
/* OMPL */
static int res, kind, nmid, simp, drop, rounds, sampl, noted, setup; static double mid[2][2], tmo, bl[2], bh[2]; static int nm, acc[2], inplan, distn, smpn; static double dist[2]; static int nd;
int os_solve(int k, double t) { kind = k; tmo = t; inplan = 1; exq = 0; return res; }
void os_bounds(unsigned n, const double *lo, const double *hi) { vf_true("dimension of the chain", n == 2); cpy(2, lo, bl); cpy(2, hi, bh); }
void os_fill(double *v, unsigned n, const double *lo, const double *hi) { double *d = inplan ? mid[nm++] : smp; for (unsigned i = 0; i < n; i++) d[i] = v[i] = vf_range("state", -0.9, 0.9); if (inplan) exq = d; }
int os_mid(void) { return nmid; } int os_drop(void) { return drop; } int os_sampling(void) { return sampl-- > 0; } int os_rounds(void) { return rounds; } void os_setup(int s) { vf_true("validity checker installed first", s); setup++; }
void os_simplify(void) { simp++; } void os_sample(const double *v, int ok) { vf_true("a goal exactly when inverse kinematics has one", ok == ikr); if (ok) (vf_eqn)("goal found", 2, v, ikq); } void os_note(int w) { noted |= w; }
static int ne; static aa_rx_frame_id wf[2]; static double WE[2][7];
void os_dist(const double *v, double d) { distn++; double q[3], T[7*NF], R[7*NF]; full(v, q); aa_rx_sg_tf(sg, 3, q, NF, R, 7, T, 7); double e = 0; for (int k = 0; k < ne; k++) { double *t = T + 7*wf[k], s = 0; for (int i = 0; i < 3; i++) s += (t[4+i] - WE[k][4+i])*(t[4+i] - WE[k][4+i]); e += aa_tf_qangle_rel(WE[k], t) + sqrt(s); } vf_eq("distance to the goal", d, e); }
static size_t live; static struct aa_rx_mp *mp; static double out[3];
static void begin(void) { aa_mem_region_local_destroy(); live = vf_live(); cls = iks = nchk = ngc = nsolve = hitmode = track = res = kind = nmid = simp = drop = rounds = sampl = noted = setup = nm = inplan = distn = 0; ikr = al0 = 0; exq = 0; seen[0] = seen[1] = 0; kind = -1; scene(); }
static void open_(void) { scene2(); mp = aa_rx_mp_create(ssg); vf_true("set up", setup == 1 && cls == 1); for (int i = 0; i < 2; i++) { vf_eq("lower bound", bl[i], lim(J[i], 0)); vf_eq("upper bound", bh[i], lim(J[i], 1)); } }
static void start_(void) { double x[3]; vf_reals("start", 3, x); for (int i = 0; i < 3; i++) vf_assume_le(-0.9, x[i]), vf_assume_le(x[i], 0.9); cpy(3, x, q0); int g = ngc; aa_rx_mp_set_start(mp, 3, x); (vf_eqn)("collisions at the start are allowed", 3, gcq, q0); vf_true("found once", ngc == g + 1); (vf_eqn)("start kept", 3, x, q0); for (int i = 0; i < 3; i++) x[i] = 55; }
static void close_(void) { aa_rx_mp_destroy(mp); aa_rx_sg_sub_destroy(ssg); aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); vf_true("checker and inverse kinematics released", !cls && !iks); vf_true("everything is released", vf_live() == live); }
static void path(size_t n, const double *p, const double *g) { /* start, the accepted state unless dropped, goal */
    int k = 0; double e[4][3]; cpy(3, q0, e[k++]); for (int i = 0; i < nmid; i++) if (acc[i] && !(i == 0 && drop && simp)) { full(mid[i], e[k++]); } full(g, e[k++]); vf_true("number of waypoints", n == (size_t)k); for (int i = 0; i < k; i++) (vf_eqn)("waypoint", 3, p + 3*i, e[i]);
}
/* joint space goal */
// vf: h_plan max_paths=3000 budget=200
void h_plan(void) {
    begin(); open_(); start_(); double g[2] = {vf_range("goal", -0.9, 0.9), vf_range("goal", -0.9, 0.9)}, gk[2]; cpy(2, g, gk); exq = gk; hitmode = 0; int n0 = nchk; vf_true("a valid goal", AA_RX_OK == aa_rx_mp_set_goal(mp, 2, g)); vf_true("checked", nchk == n0 + 1); (vf_eqn)("goal kept", 2, g, gk); for (int i = 0; i < 2; i++) g[i] = 44;
    int s = (int)vf_pick("simplify", 3); if (s) aa_rx_mp_set_simplify(mp, s == 1 ? 2 : 0); res = (int)vf_pick("outcome", 3); nmid = (int)vf_pick("inner", 2); drop = (int)vf_pick("drop", 2); for (int i = 0; i < 2; i++) acc[i] = 1; size_t n = 77; double *p = g, t = vf_range("timeout", 0, 9); int r = aa_rx_mp_plan(mp, t, &n, &p); vf_eq("time limit", tmo, t); vf_true("the default planner", kind == 0); vf_true("simplified only when asked", !simp == !(s == 1 && res == 2));
    if (res == 2) { vf_true("success", r == AA_RX_OK); path(n, p, gk); free(p); } else { vf_true("failure", r == (AA_RX_NO_SOLUTION | AA_RX_NO_MP)); vf_true("no path", n == 0 && p == 0); } vf_true("no sampling", !noted); close_();
}
/* states that collide are refused, by the allowances in force; the other joints stay at the start whatever is allowed */
// vf: h_valid max_paths=4000 budget=200
void h_valid(void) {
    begin(); int a0 = al0 = (int)vf_pick("allowed_in_the_scene", 2); open_(); int al[2] = {a0, 0}, m = (int)vf_pick("allow", 6), when = (int)vf_pick("order", 2); hitmode = 0;
    if (when) start_();
    if (m == 1) { hitmode = 1; double x[3] = {vf_range("allowed_configuration", -0.9, 0.9), 0.25, vf_range("allowed_configuration", -0.9, 0.9)}, k[3]; cpy(3, x, k); aa_rx_mp_allow_config(mp, 3, x); (vf_eqn)("collisions at the configuration", 3, gcq, k); al[0] = 1; hitmode = 0; } else if (m == 2) { aa_rx_mp_allow_collision(mp, f[3], f[2], 1); al[1] = 1; } else if (m == 3) { aa_rx_mp_allow_collision(mp, f[2], f[3], 5); aa_rx_mp_allow_collision(mp, f[3], f[2], 0); } else if (m == 4) { aa_rx_mp_allow_collision(mp, f[0], f[1], 0); al[0] = 0; } else if (m == 5) { aa_rx_cl_set_set(aa_rx_mp_get_allowed(mp), f[2], f[3], 1); al[1] = 1; }
    if (!when) start_();
    for (int i = 0; i < 2; i++) { vf_true("allowed pairs", !aa_rx_cl_set_get(aa_rx_mp_get_allowed(mp), f[PI_[i]], f[PJ_[i]]) == !al[i]); if (m != 5) vf_true("allowed pairs reach the checker", !A[i] == !al[i]); }
    double g[2] = {0.5, -0.5}; exq = g; hitmode = 2; int r = aa_rx_mp_set_goal(mp, 2, g); int c = (touch[0] && !al[0]) || (touch[1] && !al[1]); vf_true("goal refused iff it collides", r == (c ? AA_RX_INVALID_STATE : AA_RX_OK));
    res = 2; nmid = 1; size_t n = 7; double *p = 0; int k = nchk; int q = aa_rx_mp_plan(mp, 1, &n, &p); vf_true("checked", nchk == k + 1); acc[0] = !((touch[0] && !al[0]) || (touch[1] && !al[1])); if (c) { vf_true("no goal, no plan", q == (AA_RX_NO_SOLUTION | AA_RX_NO_MP) && n == 0 && p == 0); } else { vf_true("success", q == AA_RX_OK); path(n, p, g); free(p); } close_();
}
/* the planner chosen is the one used; collisions are kept on request */
// vf: h_choice max_paths=3000 budget=200
void h_choice(void) {
    begin(); open_(); start_(); int want_ = 0; for (int i = 0; i < 2; i++) { int k = (int)vf_pick("planner", 7); if (k == 0 || k == 1 || k == 2 || k == 3) { struct aa_rx_mp_rrt_attr *a = k == 0 ? 0 : aa_rx_mp_rrt_attr_create(); if (k == 2) aa_rx_mp_rrt_attr_set_bidirectional(a, 0); if (k == 3) { aa_rx_mp_rrt_attr_set_bidirectional(a, 0); aa_rx_mp_rrt_attr_set_bidirectional(a, 2); } aa_rx_mp_set_rrt(mp, a); if (a) aa_rx_mp_rrt_attr_destroy(a); want_ = k == 2; } else if (k == 4) { struct aa_rx_mp_sbl_attr *a = aa_rx_mp_sbl_attr_create(); aa_rx_mp_set_sbl(mp, a); aa_rx_mp_sbl_attr_destroy(a); want_ = 2; } else if (k == 5) { struct aa_rx_mp_kpiece_attr *a = aa_rx_mp_kpiece_attr_create(); aa_rx_mp_set_kpiece(mp, a); aa_rx_mp_kpiece_attr_destroy(a); want_ = 3; } }
    double g[2] = {0.5, -0.5}; exq = g; vf_true("a valid goal", AA_RX_OK == aa_rx_mp_set_goal(mp, 2, g)); size_t n = 7; double *p = 0; res = 2; vf_true("success", AA_RX_OK == aa_rx_mp_plan(mp, 1, &n, &p)); vf_true("the planner chosen", kind == want_); path(n, p, g); free(p); close_();
}
// vf: h_track max_paths=3000 budget=200
void h_track(void) {
    begin(); open_(); start_(); double g[2] = {0.5, -0.5}; exq = g; vf_true("not tracked at first", !aa_rx_mp_get_collisions(mp)); vf_true("a valid goal", AA_RX_OK == aa_rx_mp_set_goal(mp, 2, g)); for (int i = 0; i < 2; i++) { track = (int)vf_pick("track", 2); aa_rx_mp_set_track_collisions(mp, track ? 4 : 0); vf_true("collision set exists when tracked", !aa_rx_mp_get_collisions(mp) == !track); }
    hitmode = 2; for (int t = 0; t < 2; t++) { nm = 0; nmid = 1; res = 0; seen[0] = seen[1] = 0; size_t n = 7; double *p = 0; aa_rx_mp_plan(mp, 1, &n, &p); if (track) for (int i = 0; i < 2; i++) vf_true("collisions of this plan", !aa_rx_cl_set_get(aa_rx_mp_get_collisions(mp), f[PI_[i]], f[PJ_[i]]) == !seen[i]); } close_();
}
/* workspace goal */
// vf: h_goal max_paths=3000 budget=300
void h_goal(void) {
    begin(); open_(); start_(); ne = 1; int dflt = (int)vf_pick("default_frame", 2); size_t ld = 7 + 2*vf_pick("leading_dimension", 2); double E[18]; aa_rx_frame_id fr = f[2]; vf_reals("pose", 18, E); cpy(7, E, ikE); wantfr = dflt ? f[0] : f[2]; vf_true("accepted", 0 == aa_rx_mp_set_wsgoal(mp, 1, dflt ? 0 : &fr, E, ld)); for (int i = 0; i < 18; i++) E[i] = 66; fr = f[4];
    rounds = 1; sampl = (int)vf_pick("attempts", 3); int m = sampl; res = 1 + (int)vf_pick("outcome", 2); size_t n = 7; double *p = 0; int r = aa_rx_mp_plan(mp, 2, &n, &p); vf_true("sampling started and stopped", noted == 3); vf_true("as long as it fails", ikr ? nsolve <= m : nsolve == m);
    if (ikr && res == 2) { vf_true("success", r == AA_RX_OK); path(n, p, ikq); free(p); } else vf_true("failure", r == (AA_RX_NO_SOLUTION | AA_RX_NO_MP) && n == 0 && p == 0); close_();
}
/* distance to a workspace goal */
// vf: h_dist max_paths=3000 budget=300
void h_dist(void) {
    begin(); open_(); start_(); ne = 1 + (int)vf_pick("frames", 2); size_t ld = 7 + 2*vf_pick("leading_dimension", 2); double E[18]; for (int i = 0; i < 18; i++) E[i] = 3; static const double U[2][4] = {{0, 0, 0.6, 0.8}, {0, -0.8, 0, 0.6}}; for (int k = 0; k < ne; k++) { cpy(4, U[k], E + (size_t)k*ld); for (int i = 0; i < 3; i++) E[(size_t)k*ld + 4 + i] = vf_range("position", -2, 2); cpy(7, E + (size_t)k*ld, WE[k]); } wf[0] = f[0]; wf[1] = f[3]; cpy(7, WE[0], ikE);
    aa_rx_mp_set_wsgoal(mp, (size_t)ne, wf, E, ld); nmid = 1; rounds = 0; size_t n = 7; double *p = 0; vf_true("no goal found, no plan", AA_RX_OK != aa_rx_mp_plan(mp, 2, &n, &p)); vf_true("asked", distn == 1); close_();
}
