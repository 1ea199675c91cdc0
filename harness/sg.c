#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scenegraph_internal.h"
#include "amino/rx/scene_geom.h"
/* P26: scene graph bookkeeping */
void aa_rx_sg_frame_set_inertial(struct aa_rx_sg *, const char *, double, const double[9]); double aa_rx_sg_frame_get_mass(struct aa_rx_sg *, aa_rx_frame_id); const double *aa_rx_sg_frame_get_inertia(struct aa_rx_sg *, aa_rx_frame_id);
enum { F = AA_RX_FRAME_FIXED, R = AA_RX_FRAME_REVOLUTE, P = AA_RX_FRAME_PRISMATIC };
struct fr { char name[24]; int parent; int type; char cfg[24]; };
static const double Q0[4] = {0, 0, 0, 1}, V0[3] = {1, 2, 3}, AX[3] = {0, 0, 1};
static void addf(struct aa_rx_sg *sg, const struct fr *f, size_t i) {
    const char *p = f[i].parent < 0 ? "" : f[f[i].parent].name, *c = f[i].cfg[0] ? f[i].cfg : 0;
    if (f[i].type == F) aa_rx_sg_add_frame_fixed(sg, p, f[i].name, Q0, V0);
    else if (f[i].type == R) aa_rx_sg_add_frame_revolute(sg, p, f[i].name, Q0, V0, c, AX, 0);
    else aa_rx_sg_add_frame_prismatic(sg, p, f[i].name, Q0, V0, c, AX, 0);
}
static const char *cfg(const struct fr *f) { return f->cfg[0] ? f->cfg : f->name; }
/* everything the indices promise about a graph holding exactly these frames */
static void check(struct aa_rx_sg *sg, size_t n, const struct fr *f) {
    vf_true("frame count", aa_rx_sg_frame_count(sg) == n); vf_true("clean", aa_rx_sg_is_clean(sg));
    aa_rx_frame_id id[6]; aa_rx_config_id ci[6]; size_t m = 0;
    for (size_t i = 0; i < n; i++) { id[i] = aa_rx_sg_frame_id(sg, f[i].name); vf_true("frame id in range", id[i] >= 0 && (size_t)id[i] < n);
        for (size_t j = 0; j < i; j++) vf_true("frame ids distinct", id[i] != id[j]); }
    for (size_t i = 0; i < n; i++) {
        vf_true("name of the id", 0 == strcmp(aa_rx_sg_frame_name(sg, id[i]), f[i].name)); vf_true("type", (int)aa_rx_sg_frame_type(sg, id[i]) == f[i].type);
        aa_rx_frame_id p = aa_rx_sg_frame_parent(sg, id[i]); vf_true("parent", p == (f[i].parent < 0 ? AA_RX_FRAME_ROOT : id[f[i].parent])); vf_true("parents come first", p < id[i]);
        aa_rx_config_id c = aa_rx_sg_frame_config(sg, id[i]); ci[i] = c;
        if (f[i].type == F) vf_true("a fixed frame has no configuration", c == AA_RX_CONFIG_NONE);
        else { vf_true("configuration of a joint", c == aa_rx_sg_config_id(sg, cfg(f + i))); size_t old = 0; for (size_t j = 0; j < i; j++) if (f[j].type != F) { int same = 0 == strcmp(cfg(f + i), cfg(f + j)); if (same) old = 1; vf_true("one id per configuration name", same == (ci[i] == ci[j])); } if (!old) m++; }
    }
    vf_true("configuration count", aa_rx_sg_config_count(sg) == m);
    for (size_t i = 0; i < n; i++) if (f[i].type != F) { vf_true("configuration id in range", ci[i] >= 0 && (size_t)ci[i] < m); vf_true("name of the configuration", 0 == strcmp(aa_rx_sg_config_name(sg, ci[i]), cfg(f + i))); }
    vf_true("root", aa_rx_sg_frame_id(sg, "") == AA_RX_FRAME_ROOT && 0 == strcmp(aa_rx_sg_frame_name(sg, AA_RX_FRAME_ROOT), "") && aa_rx_sg_frame_parent(sg, AA_RX_FRAME_ROOT) == AA_RX_FRAME_NONE);
    vf_true("unknown frame", aa_rx_sg_frame_id(sg, "_none_") == AA_RX_FRAME_NONE && 0 == strcmp(aa_rx_sg_frame_name(sg, (aa_rx_frame_id)n), "?") && 0 == strcmp(aa_rx_sg_frame_name(sg, AA_RX_FRAME_NONE), "?"));
    vf_true("unknown configuration", aa_rx_sg_config_id(sg, "_none_") == AA_RX_CONFIG_NONE && 0 == strcmp(aa_rx_sg_config_name(sg, (aa_rx_config_id)m), "NONE"));
}
static void symname(char *s, const char *n) { s[0] = (char)vf_int(n, 'a', 'z'); s[1] = 0; }
/* any three distinct one-letter names, any parents, added in any order relative to the tree */
static void index3(const int *ty) {
    struct fr f[3] = {{"", -1, 0, ""}}; memset(f, 0, sizeof f); symname(f[0].name, "c0"); symname(f[1].name, "c1"); symname(f[2].name, "c2");
    vf_assume(f[0].name[0] != f[1].name[0]); vf_assume(f[0].name[0] != f[2].name[0]); vf_assume(f[1].name[0] != f[2].name[0]);
    /* the sixteen labelled forests on three nodes */
    static const int par[16][3] = {{-1,-1,-1},{-1,-1,0},{-1,-1,1},{-1,0,-1},{-1,0,0},{-1,0,1},{-1,2,-1},{-1,2,0},{1,-1,-1},{1,-1,0},{1,-1,1},{2,-1,-1},{2,-1,1},{1,2,-1},{2,0,-1},{2,2,-1}};
    const int *p = par[vf_pick("tree", 16)]; for (int i = 0; i < 3; i++) { f[i].parent = p[i]; f[i].type = ty[i]; }
    struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 3; i++) addf(sg, f, i);
    vf_true("not clean before init", !aa_rx_sg_is_clean(sg)); vf_true("init", 0 == aa_rx_sg_init(sg)); check(sg, 3, f); vf_true("init again", 0 == aa_rx_sg_init(sg)); check(sg, 3, f); aa_rx_sg_destroy(sg);
}
// vf: h_index_fixed max_paths=4000
void h_index_fixed(void) { static const int t[3] = {F, R, F}; index3(t); }
// vf: h_index_joint max_paths=4000
void h_index_joint(void) { static const int t[3] = {R, P, R}; index3(t); }
/* names: any one-letter name, any configuration names (possibly shared, possibly defaulted) */
// vf: h_configs max_paths=4000
void h_configs(void) {
    struct fr f[3]; memset(f, 0, sizeof f); strcpy(f[0].name, "m"); strcpy(f[1].name, "k"); strcpy(f[2].name, "p"); f[0].parent = -1; f[1].parent = 0; f[2].parent = (int)vf_pick("par", 3) - 1;
    for (int i = 0; i < 3; i++) f[i].type = i == 1 ? P : R;
    symname(f[0].cfg, "c0"); symname(f[1].cfg, "c1"); if (vf_pick("c2", 2)) symname(f[2].cfg, "c2");
    struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 3; i++) addf(sg, f, 2 - i); vf_true("init", 0 == aa_rx_sg_init(sg)); check(sg, 3, f); aa_rx_sg_destroy(sg);
}
/* five frames with long names, added in any order */
// vf: h_order5 max_paths=400 budget=200
void h_order5(void) {
    static const struct fr f[5] = {{"torso_link_with_long_n", -1, R, "waist_rotation_joint_0"}, {"arm", 0, P, ""}, {"a_hand_frame_long_name", 1, F, ""}, {"zz", 0, R, "waist_rotation_joint_0"}, {"camera_frame_long_name", 3, R, "c"}};
    size_t o[5] = {0, 1, 2, 3, 4}; for (size_t i = 4; i > 0; i--) { size_t j = vf_pick("o", i + 1), t = o[i]; o[i] = o[j]; o[j] = t; }
    struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 5; i++) addf(sg, f, o[i]); vf_true("init", 0 == aa_rx_sg_init(sg)); check(sg, 5, f); aa_rx_sg_destroy(sg);
}
void h_empty(void) {
    struct aa_rx_sg *sg = aa_rx_sg_create(); vf_true("an empty graph", aa_rx_sg_frame_count(sg) == 0 && aa_rx_sg_config_count(sg) == 0); check(sg, 0, 0);
    vf_true("init of an empty graph", 0 == aa_rx_sg_init(sg)); check(sg, 0, 0); aa_rx_sg_destroy(sg);
}
/* a parent that does not exist is reported, and the graph stays unusable until repaired */
void h_missing(void) {
    static const struct fr f[3] = {{"b", -1, R, ""}, {"a", 0, P, ""}, {"c", 1, F, ""}}; char miss[2]; symname(miss, "m"); size_t k = vf_pick("k", 3);
    struct aa_rx_sg *sg = aa_rx_sg_create(); for (size_t i = 0; i < 3; i++) if (i == k) aa_rx_sg_add_frame_fixed(sg, miss, f[i].name, Q0, V0); else addf(sg, f, i);
    int bad = miss[0] != 'a' && miss[0] != 'b' && miss[0] != 'c'; if (!bad) { vf_reach("parent exists"); return; }
    vf_true("missing parent reported", AA_RX_INVALID_FRAME == aa_rx_sg_init(sg)); vf_true("not clean after a failed init", !aa_rx_sg_is_clean(sg));
    addf(sg, f, k); vf_true("repaired", 0 == aa_rx_sg_init(sg)); check(sg, 3, f); aa_rx_sg_destroy(sg);
}
void h_remove(void) {
    struct fr f[4] = {{"b", -1, R, "q"}, {"a", 0, P, ""}, {"c", 1, R, "q"}, {"d", -1, P, ""}}; size_t k = vf_pick("k", 4);
    struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 4; i++) addf(sg, f, i); vf_true("init", 0 == aa_rx_sg_init(sg)); check(sg, 4, f);
    aa_rx_sg_rm_frame(sg, f[k].name); vf_true("not clean after a removal", !aa_rx_sg_is_clean(sg)); int r = aa_rx_sg_init(sg);
    if (k == 0 || k == 1) vf_true("children of a removed frame are reported", r == AA_RX_INVALID_FRAME);
    else { vf_true("init after removal", r == 0); vf_true("removed", aa_rx_sg_frame_id(sg, f[k].name) == AA_RX_FRAME_NONE); struct fr g[3]; for (size_t i = 0, j = 0; i < 4; i++) if (i != k) g[j++] = f[i]; check(sg, 3, g); vf_true("configuration gone with its last joint", (aa_rx_sg_config_id(sg, "d") == AA_RX_CONFIG_NONE) == (k == 3)); }
    aa_rx_sg_rm_frame(sg, "_none_"); addf(sg, f, k); vf_true("added again", 0 == aa_rx_sg_init(sg)); check(sg, 4, f); aa_rx_sg_destroy(sg);
}
/* adding under a used name replaces the frame */
void h_replace(void) {
    struct fr f[3] = {{"b", -1, R, "q"}, {"a", 0, P, ""}, {"c", 1, R, "q"}}; size_t k = vf_pick("k", 3); struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 3; i++) addf(sg, f, i);
    if (vf_pick("init", 2)) vf_true("init", 0 == aa_rx_sg_init(sg));
    f[k].type = (int)vf_pick("type", 3); if (k == 2) f[2].parent = (int)vf_pick("par", 3) - 1; strcpy(f[k].cfg, f[k].type == F ? "" : "z"); addf(sg, f, k); vf_true("not clean", !aa_rx_sg_is_clean(sg)); vf_true("init", 0 == aa_rx_sg_init(sg)); check(sg, 3, f); aa_rx_sg_destroy(sg);
}
void h_reparent(void) {
    struct fr f[4] = {{"b", -1, R, "q"}, {"a", 0, P, ""}, {"c", 1, R, "q"}, {"d", -1, P, ""}}; struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 4; i++) addf(sg, f, i); vf_true("init", 0 == aa_rx_sg_init(sg));
    double E[7] = {0, 0, 0, 1, 0, 0, 0}; size_t k = vf_pick("k", 4); int p = (int)vf_pick("p", 5) - 1, by = (int)vf_pick("by", 2);
    for (int a = p; a >= 0; a = f[a].parent) if (a == (int)k) { vf_reach("cycle"); return; }
    if (by) aa_rx_sg_reparent_id(sg, p < 0 ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, f[p].name), aa_rx_sg_frame_id(sg, f[k].name), E); else aa_rx_sg_reparent_name(sg, p < 0 ? "" : f[p].name, f[k].name, E);
    f[k].parent = p; vf_true("not clean", !aa_rx_sg_is_clean(sg)); vf_true("init", 0 == aa_rx_sg_init(sg)); check(sg, 4, f); aa_rx_sg_destroy(sg);
}
typedef void setl(struct aa_rx_sg *, const char *, double, double);
typedef int getl(const struct aa_rx_sg *, aa_rx_config_id, double *, double *);
static setl *const SL[4] = {aa_rx_sg_set_limit_pos, aa_rx_sg_set_limit_vel, aa_rx_sg_set_limit_acc, aa_rx_sg_set_limit_eff};
static getl *const GL[4] = {aa_rx_sg_get_limit_pos, aa_rx_sg_get_limit_vel, aa_rx_sg_get_limit_acc, aa_rx_sg_get_limit_eff};
/* any subset of the limits, set before or after the indices are built, on any configuration */
void h_limits(void) {
    static const struct fr f[3] = {{"b", -1, R, "q"}, {"a", 0, P, ""}, {"c", 1, R, "q"}}; struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 3; i++) addf(sg, f, i);
    size_t mask = vf_pick("mask", 16), late = vf_pick("late", 3); const char *nm = vf_pick("which", 2) ? "q" : "a"; double lo[4], hi[4]; vf_reals("lo", 4, lo); vf_reals("hi", 4, hi);
    if (late) vf_true("init", 0 == aa_rx_sg_init(sg)); if (late == 2) { aa_rx_sg_set_limit_vel(sg, nm, 7, 8); vf_true("init", 0 == aa_rx_sg_init(sg)); }
    for (int i = 0; i < 4; i++) if (mask >> i & 1) SL[i](sg, nm, lo[i], hi[i]);
    vf_true("init", 0 == aa_rx_sg_init(sg));
    for (int j = 0; j < 2; j++) { const char *c = j ? "q" : "a"; aa_rx_config_id id = aa_rx_sg_config_id(sg, c); int on = 0 == strcmp(c, nm);
        for (int i = 0; i < 4; i++) { double a = 11, b = 12; int r = GL[i](sg, id, &a, &b); int set = on && (mask >> i & 1); if (on && late == 2 && i == 1 && !set) { vf_eq("earlier limit kept", a, 7); vf_eq("earlier limit kept", b, 8); continue; } vf_true(set ? "limit present" : "limit absent", set ? r == 0 : r != 0); if (set) { vf_eq("lower limit", a, lo[i]); vf_eq("upper limit", b, hi[i]); } }
        vf_eq("center", aa_rx_sg_config_center(sg, id), on && (mask & 1) ? (lo[0] + hi[0])/2 : 0); }
    double q[4] = {5, 5, 5, 5}; size_t n = 1 + vf_pick("n", 3); aa_rx_sg_center_configs(sg, n, q); for (size_t i = 0; i < 4; i++) vf_eq("centers", q[i], i < n && i < 2 ? aa_rx_sg_config_center(sg, (aa_rx_config_id)i) : 5);
    aa_rx_sg_destroy(sg);
}
/* limits given for a configuration before its joint is there, or after it is gone */
void h_limits2(void) {
    static const struct fr f[2] = {{"b", -1, R, "q"}, {"a", 0, P, ""}}; struct aa_rx_sg *sg = aa_rx_sg_create(); double lo = vf_real("lo"), hi = vf_real("hi"), a, b;
    aa_rx_sg_set_limit_pos(sg, "q", lo, hi); addf(sg, f, 1); addf(sg, f, 0); vf_true("init", 0 == aa_rx_sg_init(sg)); vf_true("limit present", 0 == aa_rx_sg_get_limit_pos(sg, aa_rx_sg_config_id(sg, "q"), &a, &b)); vf_eq("lower", a, lo); vf_eq("upper", b, hi);
    vf_true("no limit", 0 != aa_rx_sg_get_limit_pos(sg, aa_rx_sg_config_id(sg, "a"), &a, &b)); aa_rx_sg_rm_frame(sg, "a"); aa_rx_sg_set_limit_pos(sg, "a", 1, 2); vf_true("init", 0 == aa_rx_sg_init(sg)); vf_true("limit present", 0 == aa_rx_sg_get_limit_pos(sg, aa_rx_sg_config_id(sg, "q"), &a, &b)); vf_eq("lower", a, lo); aa_rx_sg_destroy(sg);
}
void h_subset(void) {
    double all[5], sub[3], o[5]; vf_reals("all", 5, all); aa_rx_config_id ids[3]; for (int i = 0; i < 5; i++) o[i] = all[i]; size_t n = vf_pick("n", 4); for (size_t i = 0; i < 3; i++) { ids[i] = vf_int("id", 0, 4); sub[i] = -1; for (size_t j = 0; j < i; j++) vf_assume(ids[i] != ids[j]); }
    aa_rx_sg_config_get(0, 5, n, ids, all, sub); for (size_t i = 0; i < 3; i++) vf_eq(i < n ? "gathered" : "rest kept", sub[i], i < n ? o[ids[i]] : -1);
    double w[3]; vf_reals("w", 3, w); aa_rx_sg_config_set(0, 5, n, ids, w, all); for (aa_rx_config_id k = 0; k < 5; k++) { double e = o[k]; for (size_t i = 0; i < n; i++) if (ids[i] == k) e = w[i]; vf_eq("scattered", all[k], e); }
}
void h_indices(void) {
    static const struct fr f[3] = {{"b", -1, R, "q"}, {"a", 0, P, ""}, {"c", 1, R, "z"}}; struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 3; i++) addf(sg, f, i); vf_true("init", 0 == aa_rx_sg_init(sg)); char s[3][2]; const char *nm[3]; for (int i = 0; i < 3; i++) { symname(s[i], "s"); nm[i] = s[i]; }
    aa_rx_config_id ids[3] = {77, 77, 77}; size_t n = vf_pick("n", 4); aa_rx_sg_config_indices(sg, n, nm, ids); for (size_t i = 0; i < 3; i++) vf_true(i < n ? "configuration indices" : "rest kept", ids[i] == (i < n ? aa_rx_sg_config_id(sg, s[i]) : 77)); aa_rx_sg_destroy(sg);
}
/* a deep copy answers every question as the original does, and is independent of it */
void h_copy(void) {
    struct fr f[4] = {{"b", -1, R, "q"}, {"a", 0, P, ""}, {"c", 1, R, "q"}, {"d", -1, F, ""}}; struct aa_rx_sg *sg = aa_rx_sg_create(), *cp; for (int i = 0; i < 4; i++) addf(sg, f, i);
    double lo[2], hi[2], m = vf_real("m"), I[9], a, b; vf_reals("lo", 2, lo); vf_reals("hi", 2, hi); vf_reals("I", 9, I); size_t k = vf_pick("k", 4); SL[k](sg, "q", lo[0], hi[0]); SL[(k + 1) % 4](sg, "a", lo[1], hi[1]); if (vf_pick("in", 2)) aa_rx_sg_frame_set_inertial(sg, "a", m, I), m = m; else m = -5;
    int hasI = m != -5 ; (void)hasI; vf_true("init", 0 == aa_rx_sg_init(sg)); cp = aa_rx_sg_copy(sg); check(cp, 4, f);
    for (int w = 0; w < 2; w++) { size_t kk = (k + (size_t)w) % 4; const char *c = w ? "a" : "q"; for (size_t i = 0; i < 4; i++) { int r = GL[i](cp, aa_rx_sg_config_id(cp, c), &a, &b); vf_true("same limits", i == kk ? r == 0 : r != 0); if (i == kk) { vf_eq("same lower limit", a, lo[w]); vf_eq("same upper limit", b, hi[w]); } } }
    for (int i = 0; i < 4; i++) { const double *J0 = aa_rx_sg_frame_get_inertia(sg, aa_rx_sg_frame_id(sg, f[i].name)), *J1 = aa_rx_sg_frame_get_inertia(cp, aa_rx_sg_frame_id(cp, f[i].name)); vf_true("same inertial presence", !J0 == !J1); if (J0 && J1) { vf_true("not shared", J0 != J1); vf_eqn("same inertia", 9, J0, J1); vf_eq("same mass", aa_rx_sg_frame_get_mass(sg, aa_rx_sg_frame_id(sg, f[i].name)), aa_rx_sg_frame_get_mass(cp, aa_rx_sg_frame_id(cp, f[i].name))); } }
    if (vf_pick("first", 2)) { aa_rx_sg_destroy(sg); check(cp, 4, f); aa_rx_sg_destroy(cp); }
    else { SL[k](cp, "q", 1, 2); aa_rx_sg_rm_frame(cp, "c"); vf_true("init", 0 == aa_rx_sg_init(cp)); check(sg, 4, f); vf_true("original limits", 0 == GL[k](sg, aa_rx_sg_config_id(sg, "q"), &a, &b)); vf_eq("original lower limit", a, lo[0]); aa_rx_sg_destroy(cp); check(sg, 4, f); aa_rx_sg_destroy(sg); }
}
void h_inertial(void) {
    struct fr f[2] = {{"b", -1, R, "q"}, {"a", 0, F, ""}}; struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 2; i++) addf(sg, f, i); double m = vf_real("m"), I[9]; vf_reals("I", 9, I); size_t tw = vf_pick("twice", 2);
    if (tw) { double Z[9] = {0}; aa_rx_sg_frame_set_inertial(sg, "a", 3, Z); } aa_rx_sg_frame_set_inertial(sg, "a", m, I); double J[9]; for (int i = 0; i < 9; i++) { J[i] = I[i]; I[i] = 0; } vf_true("init", 0 == aa_rx_sg_init(sg));
    vf_eq("mass", aa_rx_sg_frame_get_mass(sg, aa_rx_sg_frame_id(sg, "a")), m); vf_eqn("inertia", 9, aa_rx_sg_frame_get_inertia(sg, aa_rx_sg_frame_id(sg, "a")), J); vf_true("none for the other frame", NULL == aa_rx_sg_frame_get_inertia(sg, aa_rx_sg_frame_id(sg, "b"))); aa_rx_sg_destroy(sg);
}
static int nd; static void dtor(void *c) { nd += *(int *)c; }
void h_destructor(void) { int k = 3; nd = 0; struct aa_rx_sg *sg = aa_rx_sg_create(); if (vf_pick("set", 2)) { aa_rx_sg_set_destructor(sg, dtor, &k); k = 4; aa_rx_sg_destroy(sg); vf_true("called once", nd == 4); } else { aa_rx_sg_destroy(sg); vf_true("not called", nd == 0); } }
