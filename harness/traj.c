#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#include "amino/ct/state.h"
#include "amino/ct/traj.h"
/* P32: trajectories start and end at their waypoints, move continuously within the limits, and can be evaluated at any time */
static struct aa_mem_region reg;
static struct aa_ct_state smin, smax; static struct aa_ct_limit lim; static double vlo[6], vhi[6], alo[6], ahi[6];
static struct aa_ct_pt_list *pts; static struct aa_ct_seg_list *segs; static double w[4][2]; static size_t nq, np; static size_t live0;
static void open_(void) { live0 = vf_live(); aa_mem_region_init(&reg, 1024); lim.min = &smin; lim.max = &smax; smin.n_q = smax.n_q = 6; smin.dq = smin.dX = vlo; smax.dq = smax.dX = vhi; smin.ddq = smin.ddX = alo; smax.ddq = smax.ddX = ahi; }
static void close_(void) { if (segs) aa_ct_seg_list_destroy(segs); aa_ct_pt_list_destroy(pts); aa_mem_region_destroy(&reg); segs = 0; pts = 0; vf_true("released", vf_live() == live0); }
/* limits: velocity limits of both signs; acceleration limits symmetric when asked */
static double rg(const char *n, size_t i, double lo, double hi) { static const char *nm[6][8] = {{"w0","w1","w2","w3","w4","w5","w6","w7"}, {"vmax0","vmax1"}, {"vmin0","vmin1"}, {"amax0","amax1"}, {"amin0","amin1"}}; for (int k = 0; k < 5; k++) if (0 == strncmp(n, nm[k][0], strlen(n))) return vf_range(nm[k][i], lo, hi); return 0; }
static int fixedlim;
static void limits(int sym) { if (fixedlim) { for (size_t j = 0; j < nq; j++) { size_t i = fixedlim == 2 ? 1 - j : j; vhi[j] = i ? 2 : 1; vlo[j] = i ? -1 : -0.5; ahi[j] = i ? 3 : 4; alo[j] = -ahi[j]; } return; } for (size_t i = 0; i < nq; i++) { vhi[i] = rg("vmax", i, 0.5, 4); vlo[i] = -rg("vmin", i, 0.5, 4); ahi[i] = rg("amax", i, 0.5, 4); alo[i] = sym ? -ahi[i] : -rg("amin", i, 0.5, 4); } }
static int points(size_t n, size_t m) { np = n; nq = m; pts = aa_ct_pt_list_create(&reg); for (size_t k = 0; k < n; k++) { double q[2]; for (size_t i = 0; i < m; i++) w[k][i] = q[i] = rg("w", 2*k + i, -3, 3); aa_ct_pt_list_add_q(pts, m, q); q[0] = q[1] = 99; } return aa_ct_pt_list_size(pts) == n; }
struct st { double q[2], dq[2], ddq[2]; };
static int ev(double t, struct st *s) { struct aa_ct_state z; memset(&z, 0, sizeof z); for (int i = 0; i < 2; i++) s->q[i] = s->dq[i] = s->ddq[i] = 55; z.n_q = nq; z.q = s->q; z.dq = s->dq; z.ddq = s->ddq; return aa_ct_seg_list_eval(segs, &z, t); }
typedef struct aa_ct_seg_list *(*gen)(struct aa_mem_region *, struct aa_ct_pt_list *, struct aa_ct_limit *);
static const gen G[3] = {aa_ct_tjq_lin_generate, aa_ct_tjq_trap_generate, aa_ct_tjq_pb_generate};
/* linear: duration of the single segment a..b */
static double ldur(const double *a, const double *b) { double d = 0; for (size_t i = 0; i < nq; i++) { double x = b[i] - a[i], t = x < 0 ? x/vlo[i] : x/vhi[i]; if (t > d) d = t; } return d; }
static void lin(size_t n, size_t m) {
    open_(); nq = m; limits(1); if (!points(n, m)) { vf_reach("repeated point"); close_(); return; } segs = aa_ct_tjq_lin_generate(&reg, pts, &lim); vf_true("configurations", aa_ct_seg_list_n_q(segs) == m);
    double T[4] = {0}, D = aa_ct_seg_list_duration(segs); for (size_t k = 1; k < n; k++) T[k] = T[k-1] + ldur(w[k-1], w[k]); vf_eq("as fast as the limits allow", D, T[n-1]); struct st s;
    if (vf_pick("visited_before", 2)) ev(vf_range("t0", -1, 20), &s);
    size_t k = vf_pick("segment", n - 1); double x = vf_range("x", 0, 1); int r = ev(T[k] + x*(T[k+1] - T[k]), &s); vf_true("inside", r == AA_CT_SEG_IN); for (size_t i = 0; i < m; i++) { vf_eq("on the line", s.q[i], w[k][i] + x*(w[k+1][i] - w[k][i])); vf_le("velocity above the minimum", vlo[i], s.dq[i]); vf_le("velocity below the maximum", s.dq[i], vhi[i]); vf_eq("no acceleration", s.ddq[i], 0); }
    x = vf_range("y", 0.01, 0.99); r = ev(T[k] + x*(T[k+1] - T[k]), &s); vf_true("inside", r == AA_CT_SEG_IN); for (size_t i = 0; i < m; i++) vf_eq("velocity is the derivative", s.dq[i]*(T[k+1] - T[k]), w[k+1][i] - w[k][i]);
    double o = vf_range("beyond", 0.001, 5); vf_true("before the start", ev(-o, &s) == AA_CT_SEG_OUT); vf_true("after the end", ev(D + o, &s) == AA_CT_SEG_OUT); r = ev(0, &s); vf_true("again from the start", r == AA_CT_SEG_IN); vf_eqn("start", m, s.q, w[0]); r = ev(D, &s); vf_true("end", r == AA_CT_SEG_IN); vf_eqn("end", m, s.q, w[n-1]); close_();
}
// vf: h_lin2 max_paths=2000
void h_lin2(void) { lin(2, 1); }
// vf: h_lin2x2 max_paths=2000
void h_lin2x2(void) { lin(2, 2); }
// vf: h_lin3 max_paths=2000
void h_lin3(void) { lin(3, 1); }
/* continuous motion within limits: for any times t, t+h, the change of velocity is at most amax h, of position at most vmax h, and position changes by velocity up to amax h^2/2 */
static void smooth(double D, size_t part) {
    struct st s, e; double t = vf_range("t", 0, 12), h = vf_range("h", 0, 12); vf_assume_le(t + h, D); int r = ev(t, &s); vf_true("inside", r == AA_CT_SEG_IN); r = ev(t + h, &e); vf_true("inside later", r == AA_CT_SEG_IN);
    for (size_t i = 0; i < nq; i++) { double A = ahi[i];
        if (part == 0) { vf_le("velocity above the minimum", vlo[i], s.dq[i]); vf_le("velocity below the maximum", s.dq[i], vhi[i]); vf_le("acceleration below the maximum", s.ddq[i], A); vf_le("acceleration above the minimum", -A, s.ddq[i]); }
        if (part == 1) { vf_le("velocity grows within the limit", e.dq[i] - s.dq[i], A*h); vf_le("velocity falls within the limit", s.dq[i] - e.dq[i], A*h); }
        if (part == 2) { double d = e.q[i] - s.q[i] - h*s.dq[i]; vf_le("position follows velocity", d, A*h*h/2); vf_le("position follows velocity (below)", -d, A*h*h/2); } }
}
static void rest(double D) { struct st s; int r = ev(0, &s); vf_true("start inside", r == AA_CT_SEG_IN); vf_eqn("start", nq, s.q, w[0]); for (size_t i = 0; i < nq; i++) vf_eq("start at rest", s.dq[i], 0); r = ev(D, &s); vf_true("end inside", r == AA_CT_SEG_IN); vf_eqn("end", nq, s.q, w[np-1]); for (size_t i = 0; i < nq; i++) vf_eq("end at rest", s.dq[i], 0); double o = vf_range("beyond", 0.001, 5); vf_true("before the start", ev(-o, &s) == AA_CT_SEG_OUT); vf_true("after the end", ev(D + o, &s) == AA_CT_SEG_OUT); r = ev(0, &s); vf_true("again from the start", r == AA_CT_SEG_IN); vf_eqn("start again", nq, s.q, w[0]); }
static void tj(gen g, size_t n, size_t m, size_t parts, int what) {
    open_(); nq = m; limits(1); if (!points(n, m)) { vf_reach("repeated point"); close_(); return; } segs = g(&reg, pts, &lim); vf_true("configurations", aa_ct_seg_list_n_q(segs) == m); double D = aa_ct_seg_list_duration(segs); if (what) smooth(D, parts); else rest(D); close_();
}
// vf: h_trap_ends max_paths=2000
void h_trap_ends(void) { tj(aa_ct_tjq_trap_generate, 2, 1, 0, 0); }
// vf: h_trap_v max_paths=2000
void h_trap_v(void) { tj(aa_ct_tjq_trap_generate, 2, 1, 0, 1); }
// vf: h_trap_a max_paths=2000
void h_trap_a(void) { tj(aa_ct_tjq_trap_generate, 2, 1, 1, 1); }
// vf: h_trap_q max_paths=2000
void h_trap_q(void) { tj(aa_ct_tjq_trap_generate, 2, 1, 2, 1); }
// vf: h_pb_ends max_paths=2000
void h_pb_ends(void) { tj(aa_ct_tjq_pb_generate, 2, 1, 0, 0); }
// vf: h_pb_v max_paths=2000
void h_pb_v(void) { tj(aa_ct_tjq_pb_generate, 2, 1, 0, 1); }
// vf: h_pb_a max_paths=2000
void h_pb_a(void) { tj(aa_ct_tjq_pb_generate, 2, 1, 1, 1); }
// vf: h_pb_q max_paths=2000
void h_pb_q(void) { tj(aa_ct_tjq_pb_generate, 2, 1, 2, 1); }

/* two joints, three points */
// vf: h_trap2_v max_paths=3000 budget=120
void h_trap2_v(void) { fixedlim = 1; tj(aa_ct_tjq_trap_generate, 2, 2, 0, 1); }
// vf: h_trap2_vs max_paths=3000 budget=120
void h_trap2_vs(void) { fixedlim = 2; tj(aa_ct_tjq_trap_generate, 2, 2, 0, 1); }
// vf: h_trap2_ends max_paths=3000 budget=120
void h_trap2_ends(void) { tj(aa_ct_tjq_trap_generate, 2, 2, 0, 0); }
// vf: h_trap2_q max_paths=3000 budget=120
void h_trap2_q(void) { fixedlim = 1; tj(aa_ct_tjq_trap_generate, 2, 2, 2, 1); }
// vf: h_trap2_a max_paths=3000 budget=120
void h_trap2_a(void) { tj(aa_ct_tjq_trap_generate, 2, 2, 1, 1); }
// vf: h_pb2_v max_paths=3000 budget=120
void h_pb2_v(void) { fixedlim = 1; tj(aa_ct_tjq_pb_generate, 2, 2, 0, 1); }
// vf: h_pb2_q max_paths=3000 budget=120
void h_pb2_q(void) { fixedlim = 1; tj(aa_ct_tjq_pb_generate, 2, 2, 2, 1); }
// vf: h_pb2_ends max_paths=3000 budget=120
void h_pb2_ends(void) { fixedlim = 1; tj(aa_ct_tjq_pb_generate, 2, 2, 0, 0); }
// vf: h_trap3_ends max_paths=3000 budget=120
void h_trap3_ends(void) { tj(aa_ct_tjq_trap_generate, 3, 1, 0, 0); }
// vf: h_trap3_v max_paths=3000 budget=120
void h_trap3_v(void) { tj(aa_ct_tjq_trap_generate, 3, 1, 0, 1); }
// vf: h_trap3_q max_paths=3000 budget=120
void h_trap3_q(void) { tj(aa_ct_tjq_trap_generate, 3, 1, 2, 1); }
/* three points: far enough apart for the blends not to overlap, or fixed ones that do */
static void pb3(size_t part, int what) {
    static const double F[3][3] = {{0, 0.05, 0.02}, {0, 1, 1.1}, {0.2, -0.1, -3}}; open_(); nq = 1; np = 3; fixedlim = 1; limits(1); size_t m = vf_pick("points", 5); double q; w[0][0] = 0; if (m < 2) { w[1][0] = m ? vf_range("w1", 1, 3) : -vf_range("w1", 1, 3); w[2][0] = w[1][0] - vf_range("w2", 1, 3); if (m == 0) w[2][0] = w[1][0] + vf_range("w3", 1, 3); } else for (int i = 0; i < 3; i++) w[i][0] = F[m-2][i];
    pts = aa_ct_pt_list_create(&reg); for (int i = 0; i < 3; i++) { q = w[i][0]; aa_ct_pt_list_add_q(pts, 1, &q); } vf_true("size", aa_ct_pt_list_size(pts) == 3); segs = aa_ct_tjq_pb_generate(&reg, pts, &lim); double D = aa_ct_seg_list_duration(segs); if (what) smooth(D, part); else rest(D); close_();
}
// vf: h_pb3_ends max_paths=3000 budget=120
void h_pb3_ends(void) { pb3(0, 0); }
// vf: h_pb3_v max_paths=3000 budget=120
void h_pb3_v(void) { pb3(0, 1); }
// vf: h_pb3_a max_paths=3000 budget=120
void h_pb3_a(void) { pb3(1, 1); }
// vf: h_pb3_q max_paths=3000 budget=120
void h_pb3_q(void) { pb3(2, 1); }

// vf: h_trap2_vl max_paths=3000 budget=200 tier=thorough
void h_trap2_vl(void) { tj(aa_ct_tjq_trap_generate, 2, 2, 0, 1); }
// vf: h_pb2_vl max_paths=3000 budget=250 tier=thorough
void h_pb2_vl(void) { tj(aa_ct_tjq_pb_generate, 2, 2, 0, 1); }
// vf: h_pb2_endsl max_paths=3000 budget=250 tier=thorough
void h_pb2_endsl(void) { tj(aa_ct_tjq_pb_generate, 2, 2, 0, 0); }
/* a waypoint repeated in position (it differs in velocity, say) makes a segment of no length, not of undefined values */
// vf: h_repeat max_paths=2000
void h_repeat(void) {
    open_(); nq = 1; np = 3; fixedlim = 1; limits(1); size_t g = vf_pick("kind", 3), at = vf_pick("at", 2); pts = aa_ct_pt_list_create(&reg); double q[1], dq[1]; struct aa_ct_state z; memset(&z, 0, sizeof z); z.n_q = 1; z.q = q; z.dq = dq; double c = vf_range("c", -2, 2), d = vf_range("d", 0.5, 2); w[0][0] = c; w[1][0] = at ? c + d : c; w[2][0] = c + d; for (int i = 0; i < 3; i++) { q[0] = w[i][0]; dq[0] = i; aa_ct_pt_list_add(pts, &z); } vf_true("kept", aa_ct_pt_list_size(pts) == 3);
    segs = G[g](&reg, pts, &lim); double D = aa_ct_seg_list_duration(segs), t = vf_range("t", 0, 20); vf_assume_le(t, D); struct st s; int r = ev(t, &s); vf_true("inside", r == AA_CT_SEG_IN); vf_le("between the points", c, s.q[0]); vf_le("between the points (above)", s.q[0], c + d); vf_le("velocity", s.dq[0], 1); vf_le("not backwards", 0, s.dq[0]); r = ev(0, &s); vf_eq("start", s.q[0], c); r = ev(D, &s); vf_eq("end", s.q[0], c + d); close_();
}
/* evaluating only some arrays */
// vf: h_wrappers max_paths=2000
void h_wrappers(void) {
    open_(); nq = 2; fixedlim = 1; limits(1); size_t g = vf_pick("kind", 3); np = 2; pts = aa_ct_pt_list_create(&reg); for (int k = 0; k < 2; k++) { double q[2]; for (int i = 0; i < 2; i++) q[i] = w[k][i] = k ? w[0][i] + (i ? -1.5 : 1) : rg("w", (size_t)i, -1, 1); aa_ct_pt_list_add_q(pts, 2, q); } segs = G[g](&reg, pts, &lim); double D = aa_ct_seg_list_duration(segs), t = vf_range("t", -1, 10), q[3], dq[3]; for (int i = 0; i < 3; i++) q[i] = dq[i] = 44; struct st s; int r = ev(t, &s); if (r == AA_CT_SEG_OUT) { vf_true("outside", !(t >= 0 && t <= D)); int z = aa_ct_seg_list_eval_q(segs, t, 2, q); vf_true("outside too", z == AA_CT_SEG_OUT); z = aa_ct_seg_list_eval_dq(segs, t, 2, q, dq); vf_true("outside too", z == AA_CT_SEG_OUT); close_(); return; }
    vf_true("inside", r == AA_CT_SEG_IN && t >= 0 && t <= D); r = aa_ct_seg_list_eval_q(segs, t, 2, q); vf_true("inside, positions", r == AA_CT_SEG_IN); vf_eqn("positions", 2, q, s.q); q[0] = q[1] = 44; r = aa_ct_seg_list_eval_dq(segs, t, 2, q, dq); vf_true("inside, velocities", r == AA_CT_SEG_IN); vf_eqn("positions", 2, q, s.q); vf_eqn("velocities", 2, dq, s.dq); vf_true("bounds", q[2] == 44 && dq[2] == 44); r = aa_ct_seg_list_eval_dq(segs, t, 2, 0, dq); vf_true("inside, no positions", r == AA_CT_SEG_IN); vf_eqn("velocities alone", 2, dq, s.dq); close_();
}
/* evaluation does not depend on what was evaluated before */
// vf: h_history max_paths=2000
void h_history(void) {
    open_(); nq = 1; np = 3; fixedlim = 1; limits(1); size_t g = vf_pick("kind", 3); pts = aa_ct_pt_list_create(&reg); static const double W[3] = {1, 3, 0}; for (int k = 0; k < 3; k++) { w[k][0] = W[k]; aa_ct_pt_list_add_q(pts, 1, W + k); } segs = G[g](&reg, pts, &lim); double D = aa_ct_seg_list_duration(segs), t = vf_range("t", 0, 40), u = vf_range("u", -1, 40); vf_assume_le(t, D); struct st a, b; int r = ev(t, &a); vf_true("inside", r == AA_CT_SEG_IN); ev(u, &b); r = ev(t, &b); vf_true("inside again", r == AA_CT_SEG_IN); vf_eqn("same position", 1, a.q, b.q); close_();
}
/* waypoint lists: order, copies, and dropping a point repeated at the same end */
// vf: h_points max_paths=3000
void h_points(void) {
    open_(); pts = aa_ct_pt_list_create(&reg); double v[6], q[2]; size_t n = 0; for (int k = 0; k < 3; k++) { double x = vf_range(k == 0 ? "x0" : k == 1 ? "x1" : "x2", -3, 3); int front = (int)vf_pick("front", 2); q[0] = x; q[1] = 2; struct aa_ct_state z; memset(&z, 0, sizeof z); z.n_q = 2; z.q = q;
        double e = n ? (front ? v[0] : v[n-1]) : 99; int same = n && x - e <= AA_EPSILON && e - x <= AA_EPSILON; if (front) aa_ct_pt_list_add_front(pts, &z); else aa_ct_pt_list_add(pts, &z);
        if (!same) { if (front) { for (size_t i = n; i > 0; i--) v[i] = v[i-1]; v[0] = x; } else v[n] = x; n++; } q[0] = q[1] = 77; vf_true("number of points", aa_ct_pt_list_size(pts) == n); vf_eq("first", aa_ct_pt_list_start_state(pts)->q[0], v[0]); vf_eq("last", aa_ct_pt_list_final_state(pts)->q[0], v[n-1]); vf_true("rest copied", aa_ct_pt_list_final_state(pts)->q[1] == 2 && aa_ct_pt_list_final_state(pts)->n_q == 2); }
    if (n == 3) { nq = 2; fixedlim = 1; limits(1); segs = aa_ct_tjq_lin_generate(&reg, pts, &lim); double T = 0; for (size_t k = 0; k < 3; k++) { struct st s; int r = ev(T, &s); vf_true("in the trajectory", r == AA_CT_SEG_IN); vf_eq("in order", s.q[0], v[k]); if (k < 2) { double d = v[k+1] - v[k]; T += d < 0 ? -d/0.5 : d; } } } close_();
}
// vf: h_state max_paths=3000
void h_state(void) {
    open_(); size_t n = vf_pick("n", 4), nt = vf_pick("tf", 3), tf = 0; struct aa_ct_state *a = aa_ct_state_alloc(&reg, n, nt); vf_true("sizes", a->n_q == n && a->n_tf == nt); double *p[3] = {a->q, a->dq, a->ddq}; for (int k = 0; k < 3; k++) for (size_t i = 0; i < n; i++) vf_true("zero at first", p[k][i] == 0); for (size_t i = 0; i < n; i++) { a->q[i] = i; a->dq[i] = 10 + i; a->ddq[i] = 20 + i; a->eff[i] = 30 + i; } for (size_t i = 0; i < 7; i++) a->X[i] = 40 + i; for (size_t i = 0; i < 6; i++) { a->dX[i] = 50 + i; a->ddX[i] = 60 + i; } (void)tf;
    vf_block("q", a->q, 8*n); vf_block("dq", a->dq, 8*n); vf_block("ddq", a->ddq, 8*n); vf_block("eff", a->eff, 8*n); vf_block("X", a->X, 56); vf_block("dX", a->dX, 48); vf_block("ddX", a->ddX, 48); for (size_t i = 0; i < n; i++) vf_true("not shared", a->q[i] == i && a->dq[i] == 10 + i && a->ddq[i] == 20 + i && a->eff[i] == 30 + i);
    size_t drop = vf_pick("drop", 8); struct aa_ct_state s = *a, c; if (nt) s.TF_abs = s.TF_rel = 0; switch (drop) { case 0: s.q = 0; break; case 1: s.dq = 0; break; case 2: s.ddq = 0; break; case 3: s.eff = 0; break; case 4: s.X = 0; break; case 5: s.dX = 0; break; case 6: s.ddX = 0; break; default:; } memset(&c, 0x55, sizeof c); aa_ct_state_clone(&reg, &c, &s);
    vf_true("clone sizes", c.n_q == n && c.n_tf == nt); vf_true("clone has the same parts", !c.q == !s.q && !c.dq == !s.dq && !c.ddq == !s.ddq && !c.eff == !s.eff && !c.X == !s.X && !c.dX == !s.dX && !c.ddX == !s.ddX); if (n) vf_true("clone is a copy", (!c.q || c.q != s.q) && (!c.X || c.X != s.X)); vf_true("equal to its clone", aa_ct_state_eq(&s, &c) && aa_ct_state_eq(&c, &s));
    for (size_t i = 0; i < n; i++) { if (c.q) vf_true("q", c.q[i] == i); if (c.dq) vf_true("dq", c.dq[i] == 10 + i); if (c.ddq) vf_true("ddq", c.ddq[i] == 20 + i); if (c.eff) vf_true("eff", c.eff[i] == 30 + i); } for (size_t i = 0; i < 7; i++) if (c.X) vf_true("X", c.X[i] == 40 + i); for (size_t i = 0; i < 6; i++) { if (c.dX) vf_true("dX", c.dX[i] == 50 + i); if (c.ddX) vf_true("ddX", c.ddX[i] == 60 + i); }
    if (drop != 3 && drop != 7) vf_true("differs when a part is missing", !aa_ct_state_eq(a, &c) && !aa_ct_state_eq(&c, a));
    double E[7]; vf_reals("E", 7, E); aa_ct_state_set_qutr(a, E); vf_eqn("pose", 7, a->X, E); aa_mem_region_destroy(&reg); vf_true("released", vf_live() == live0);
}
/* equality is within AA_EPSILON in every entry of every part */
void h_equal(void) {
    double u[7], v[7]; for (int i = 0; i < 7; i++) u[i] = v[i] = i; size_t part = vf_pick("part", 6), len = part < 3 ? 3 : part == 3 ? 7 : 6, i = vf_pick("i", 7); if (i >= len) { vf_reach("outside"); return; } double d = vf_range("d", -1, 1); v[i] += d; struct aa_ct_state a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.n_q = b.n_q = 3;
    switch (part) { case 0: a.q = u; b.q = v; break; case 1: a.dq = u; b.dq = v; break; case 2: a.ddq = u; b.ddq = v; break; case 3: a.X = u; b.X = v; break; case 4: a.dX = u; b.dX = v; break; default: a.ddX = u; b.ddX = v; } int e = aa_ct_state_eq(&a, &b), ok = d <= AA_EPSILON && d >= -AA_EPSILON; vf_true("equal exactly when close", !e == !ok); b.n_q = 2; vf_true("different sizes differ", !aa_ct_state_eq(&a, &b)); b.n_q = 3; b.n_tf = 1; vf_true("different frame counts differ", !aa_ct_state_eq(&a, &b));
}
/* checking a trajectory visits the steps in order until the end or the first failure, and leaves the trajectory usable */
struct ck { int n, stop; double t[40], q[40]; int bad; };
static int ckf(void *cx, double t, const struct aa_ct_state *s) { struct ck *c = cx; if (c->n < 40) { c->t[c->n] = t; c->q[c->n] = s->q[0]; } return c->n++ == c->stop ? 7 : 0; }
void h_check(void) {
    open_(); nq = 1; np = 3; fixedlim = 1; limits(1); size_t g = vf_pick("kind", 3); pts = aa_ct_pt_list_create(&reg); static const double W[3] = {0, 1, 0.75}; for (int k = 0; k < 3; k++) aa_ct_pt_list_add_q(pts, 1, W + k); segs = G[g](&reg, pts, &lim); double D = aa_ct_seg_list_duration(segs), dt = 0.125; int stop[3] = {-1, 0, 3}; struct ck c; memset(&c, 0, sizeof c); c.stop = stop[vf_pick("stop", 3)]; struct st s; if (vf_pick("before", 2)) ev(0.9, &s);
    void *top = aa_mem_region_ptr(aa_mem_region_local_get()); int r = aa_ct_seg_list_check(segs, dt, ckf, &c); vf_true("memory given back", aa_mem_region_ptr(aa_mem_region_local_get()) == top); vf_true("result", r == (c.stop < 0 ? 0 : 7)); int n = 0; while (n*dt <= D) n++; vf_true("every step", c.n == (c.stop < 0 ? n : c.stop + 1)); for (int i = 0; i < c.n; i++) { int z = ev(i*dt, &s); vf_true("step inside", z == AA_CT_SEG_IN); vf_eq("step time", c.t[i], i*dt); vf_eq("step position", c.q[i], s.q[0]); } aa_mem_region_local_destroy(); close_();
}
/* continuity check: accepts a continuous trajectory, rejects steps that are too large; memory is given back */
void h_check_c0(void) {
    open_(); nq = 1; np = 3; fixedlim = 1; limits(1); size_t g = vf_pick("kind", 2) ? 2 : 0; pts = aa_ct_pt_list_create(&reg); static const double W[3] = {0, 1, 0.75}; for (int k = 0; k < 3; k++) aa_ct_pt_list_add_q(pts, 1, W + k); segs = G[g](&reg, pts, &lim); struct st s; double dt = vf_pick("dt", 2) ? 0.1 : 0.25; int tight = (int)vf_pick("tight", 2); if (vf_pick("before", 2)) ev(0.9, &s);
    void *top = aa_mem_region_ptr(aa_mem_region_local_get()); int r = aa_ct_seg_list_check_c0(segs, dt, tight ? 0.5*dt : 1.05*dt, 1e-6); vf_true("memory given back", aa_mem_region_ptr(aa_mem_region_local_get()) == top); vf_true("result", r == (tight ? 1 : 0)); r = ev(0, &s); vf_true("usable afterwards", r == AA_CT_SEG_IN); vf_eq("start", s.q[0], 0); aa_mem_region_local_destroy(); close_();
}
/* SLERP: constant velocities; E1 = (exp(th u) q0, v1) */
static void ex(const double *u, double t, double *e) { e[0] = sin(t)*u[0]; e[1] = sin(t)*u[1]; e[2] = sin(t)*u[2]; e[3] = cos(t); }
static void slerp_(int far, double tau) {
    open_(); double E0[7], E1[7], u[3], e[4], x[4], X[9], dX[8], eff[2]; E0[0] = 0.5; E0[1] = -0.5; E0[2] = 0.5; E0[3] = 0.5; u[0] = 0; u[1] = 0.6; u[2] = -0.8; for (int i = 0; i < 3; i++) { E0[4+i] = i - 1; E1[4+i] = 2*i + 1; } double be = vf_range("be", 0.05, 0.7); double th = be/tau; vf_assume_le(th, 1.5); ex(u, th, e); ref_qmul(e, E0, E1); if (far) for (int i = 0; i < 4; i++) E1[i] = -E1[i]; ex(u, be, e); ref_qmul(e, E0, x);
    pts = aa_ct_pt_list_create(&reg); aa_ct_pt_list_add_qutr(pts, E0); aa_ct_pt_list_add_qutr(pts, E1); vf_true("points", aa_ct_pt_list_size(pts) == 2); segs = aa_ct_tjx_slerp_generate(&reg, pts); vf_eq("duration", aa_ct_seg_list_duration(segs), 1);
    for (int i = 0; i < 9; i++) X[i] = 66; for (int i = 0; i < 8; i++) dX[i] = 66; eff[0] = eff[1] = 66; struct aa_ct_state z; memset(&z, 0, sizeof z); z.n_q = 1; z.X = X + 1; z.dX = dX + 1; z.eff = eff; int r = aa_ct_seg_list_eval(segs, &z, tau); vf_true("inside", r == AA_CT_SEG_IN); vf_eqn("orientation", 4, X + 1, x); for (int i = 0; i < 3; i++) { vf_eq("translation", X[5+i], E0[4+i] + tau*(E1[4+i] - E0[4+i])); vf_eq("linear velocity", dX[1+i], E1[4+i] - E0[4+i]); vf_eq("angular velocity", dX[4+i], 2*th*u[i]); } vf_true("bounds", X[0] == 66 && X[8] == 66 && dX[0] == 66 && dX[7] == 66 && eff[1] == 66); close_();
}
void h_slerp_mid(void) { slerp_(0, 0.5); }
void h_slerp_far(void) { slerp_(1, 0.25); }
void h_slerp_end(void) {
    open_(); double E0[7], E1[7], X[7], dX[6]; vf_unit("q0", 4, E0); vf_reals("v0", 3, E0 + 4); vf_reals("d", 3, E1 + 4); E1[0] = -0.5; E1[1] = 0.5; E1[2] = 0.5; E1[3] = 0.5; vf_assume_le(1, E1[4]*E1[4]); for (int i = 0; i < 3; i++) E1[4+i] += E0[4+i]; double m = 0; for (int i = 0; i < 4; i++) m += E0[i]*E1[i]; vf_assume_le(0.2, m); vf_assume_le(m, 0.9);
    pts = aa_ct_pt_list_create(&reg); aa_ct_pt_list_add_qutr(pts, E0); aa_ct_pt_list_add_qutr(pts, E1); segs = aa_ct_tjx_slerp_generate(&reg, pts); struct aa_ct_state z; memset(&z, 0, sizeof z); z.n_q = 1; z.X = X; z.dX = dX;
    int r = aa_ct_seg_list_eval(segs, &z, 0); vf_true("start inside", r == AA_CT_SEG_IN); vf_eqn("start", 7, X, E0); r = aa_ct_seg_list_eval(segs, &z, 1); vf_true("end inside", r == AA_CT_SEG_IN); ck_qsame("end", X, E1); vf_eqn("end position", 3, X + 4, E1 + 4); r = aa_ct_seg_list_eval(segs, &z, 1.5); vf_true("outside", r == AA_CT_SEG_OUT); close_();
}
void h_tjx(void) {
    open_(); nq = 6; for (int i = 0; i < 6; i++) { vhi[i] = 1 + i%3; vlo[i] = -1 - i%2; ahi[i] = 2 + i%2; alo[i] = -ahi[i]; } size_t fl = vf_pick("turn", 2); double E0[7] = {0, 0, 0, 1}, E1[7]; double th = vf_range("th", 0.1, 0.7), u[3] = {0.6, 0, fl ? -0.8 : 0.8}; ex(u, th, E1); for (int i = 0; i < 3; i++) { E0[4+i] = i; E1[4+i] = i == 1 ? 3 : 0.5; } pts = aa_ct_pt_list_create(&reg); aa_ct_pt_list_add_qutr(pts, E0); aa_ct_pt_list_add_qutr(pts, E1); segs = aa_ct_tjX_pb_generate(&reg, pts, &lim); double D = aa_ct_seg_list_duration(segs), X[7]; struct aa_ct_state z; memset(&z, 0, sizeof z); z.X = X; int r = aa_ct_seg_list_eval(segs, &z, 0); vf_true("start inside", r == AA_CT_SEG_IN); vf_eqn("start", 7, X, E0); r = aa_ct_seg_list_eval(segs, &z, D); vf_true("end inside", r == AA_CT_SEG_IN); ck_qsame("end orientation", X, E1); vf_eqn("end position", 3, X + 4, E1 + 4); r = aa_ct_seg_list_eval(segs, &z, D/2); vf_true("middle inside", r == AA_CT_SEG_IN); ex(u, th/2, E1); ck_qsame("middle orientation", X, E1); for (int i = 0; i < 3; i++) vf_eq("middle position", X[4+i], (E0[4+i] + E1[4+i])/2); r = aa_ct_seg_list_eval(segs, &z, D + 0.1); vf_true("outside", r == AA_CT_SEG_OUT); close_();
}
