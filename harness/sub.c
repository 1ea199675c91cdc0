#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/rxerr.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_fk.h"
#include "amino/rx/scene_sub.h"
#include "amino/rx/scene_ik_internal.h"
/* P28: sub-scenegraphs select exactly the chain's frames and configurations */
enum { F = AA_RX_FRAME_FIXED, R = AA_RX_FRAME_REVOLUTE, P = AA_RX_FRAME_PRISMATIC };
size_t aa_rx_sg_config_names(const struct aa_rx_sg *, size_t, const char **);
struct aa_rx_sg_sub *aa_rx_sg_multiple_chain_create(const struct aa_rx_sg *, aa_rx_frame_id, size_t, aa_rx_frame_id *);
static const double Q0[4] = {0, 0, 0, 1}, V0[3] = {1, 2, 3}, AX[3] = {0, 0, 1};
struct fr { const char *name; int parent; int type; };
static void addf(struct aa_rx_sg *sg, const struct fr *f, size_t i) {
    const char *p = f[i].parent < 0 ? "" : f[f[i].parent].name;
    if (f[i].type == F) aa_rx_sg_add_frame_fixed(sg, p, f[i].name, Q0, V0);
    else if (f[i].type == R) aa_rx_sg_add_frame_revolute(sg, p, f[i].name, Q0, V0, 0, AX, 0);
    else aa_rx_sg_add_frame_prismatic(sg, p, f[i].name, Q0, V0, 0, AX, 0);
}
/* five frames; parents have smaller numbers here but names (and so ids) are in another order */
static struct fr f[5]; static aa_rx_frame_id id[6];
static struct aa_rx_sg *graph(int alltypes) {
    static const char *nm[2][5] = {{"e", "c", "d", "a", "b"}, {"a", "b", "c", "d", "e"}}; static const int ty[4][5] = {{R,P,R,F,R}, {F,R,F,P,R}, {R,R,P,R,F}, {P,F,R,R,P}};
    static const int par[8][5] = {{-1,0,1,2,3}, {-1,0,1,1,3}, {-1,0,0,2,1}, {-1,-1,0,1,2}, {-1,0,0,0,0}, {-1,0,1,0,3}, {-1,-1,1,2,2}, {-1,0,1,2,0}};
    size_t sh = vf_pick("shape", 8); const int *p = par[sh], *t = ty[alltypes ? vf_pick("types", 4) : sh % 4]; const char **n = nm[vf_pick("names", 2)];
    for (int i = 0; i < 5; i++) f[i] = (struct fr){n[i], p[i], t[i]}; struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 4; i >= 0; i--) addf(sg, f, (size_t)i); vf_true("init", 0 == aa_rx_sg_init(sg)); for (int i = 0; i < 5; i++) id[i] = aa_rx_sg_frame_id(sg, f[i].name); id[5] = AA_RX_FRAME_ROOT; return sg;
}
/* a sub-scenegraph holds exactly these frames (numbers, in order) */
static void check(struct aa_rx_sg *sg, struct aa_rx_sg_sub *s, size_t n, const int *fr) {
    size_t m = 0, r = 0, c = 0; vf_true("scene graph", aa_rx_sg_sub_sg(s) == sg); vf_true("all counts", aa_rx_sg_sub_all_config_count(s) == aa_rx_sg_config_count(sg) && aa_rx_sg_sub_all_frame_count(s) == 5);
    vf_true("frame count", aa_rx_sg_sub_frame_count(s) == n);
    for (size_t i = 0; i < n; i++) { vf_true("frame", aa_rx_sg_sub_frame(s, i) == id[fr[i]] && aa_rx_sg_sub_frames(s)[i] == id[fr[i]]); if (f[fr[i]].type != F) { vf_true("configurations complete", m < aa_rx_sg_sub_config_count(s)); vf_true("configuration", aa_rx_sg_sub_config(s, m) == aa_rx_sg_frame_config(sg, id[fr[i]]) && aa_rx_sg_sub_configs(s)[m] == aa_rx_sg_frame_config(sg, id[fr[i]])); m++; } }
    vf_true("configuration count", aa_rx_sg_sub_config_count(s) == m); aa_rx_sg_sub_jacobian_size(s, &r, &c); vf_true("jacobian size", r == 6 && c == m);
}
static size_t path(int root, int tip, int *o) { int t[5]; size_t n = 0; for (int i = tip; i >= 0 && i != root; i = f[i].parent) t[n++] = i; for (size_t i = 0; i < n; i++) o[i] = t[n - 1 - i]; return n; }
static int anc(int root, int tip) { if (root == 5) return 1; for (int i = tip; i >= 0; i = f[i].parent) if (i == root) return 1; return 0; }
// vf: h_chain max_paths=4000 budget=100
void h_chain(void) {
    struct aa_rx_sg *sg = graph(1); int tip = (int)vf_pick("tip", 5), root = (int)vf_pick("root", 6), fr[5]; if (!anc(root, tip)) { vf_reach("root is no ancestor"); return; } size_t n = path(root, tip, fr), m = 0; for (size_t i = 0; i < n; i++) m += f[fr[i]].type != F;
    struct aa_rx_sg_sub *s = aa_rx_sg_chain_create(sg, id[root], id[tip]); check(sg, s, n, fr); vf_true("end effector", aa_rx_sg_sub_frame_ee(s) == id[tip] && aa_rx_sg_sub_frame_ee_count(s) == 1 && aa_rx_sg_sub_frame_ees(s)[0] == id[tip]); aa_rx_sg_sub_destroy(s);
    aa_rx_frame_id cf[7]; aa_rx_config_id cc[7]; for (int i = 0; i < 7; i++) cf[i] = cc[i] = 99; vf_true("chain frame count", aa_rx_sg_chain_frame_count(sg, id[root], id[tip]) == n); aa_rx_sg_chain_frames(sg, id[root], id[tip], n, cf + 1); vf_true("bounds", cf[0] == 99 && cf[n + 1] == 99);
    vf_true("chain configuration count", aa_rx_sg_chain_config_count(sg, n, cf + 1) == m); aa_rx_sg_chain_configs(sg, n, cf + 1, m, cc + 1); vf_true("bounds", cc[0] == 99 && cc[m + 1] == 99); m = 0; for (size_t i = 0; i < n; i++) { vf_true("chain frame", cf[i + 1] == id[fr[i]]); if (f[fr[i]].type != F) { vf_true("chain configuration", cc[m + 1] == aa_rx_sg_frame_config(sg, id[fr[i]])); m++; } }
    if (n > 1) { size_t k = n - 1; for (int i = 0; i < 7; i++) cf[i] = 99; aa_rx_sg_chain_frames(sg, id[root], id[tip], k, cf + 1); for (size_t i = 0; i < k; i++) vf_true("nearest the tip when truncated", cf[i + 1] == id[fr[i + 1]]); vf_true("bounds", cf[0] == 99 && cf[k + 1] == 99); }
    aa_rx_sg_destroy(sg);
}
/* several tips: the union of the chains, each frame once, in id order */
// vf: h_multi max_paths=9000 budget=150
void h_multi(void) {
    struct aa_rx_sg *sg = graph(0); int root = vf_pick("sub", 2) ? 0 : 5; size_t nt = 1 + vf_pick("nt", 3); aa_rx_frame_id tips[3]; int in[5] = {0}, fr[5], tn[3]; size_t total = 0; for (size_t k = 0; k < nt; k++) { tn[k] = k == 2 ? (tn[0] + tn[1] + 1) % 5 : (int)vf_pick("tip", 5); if (!anc(root, tn[k])) { vf_reach("root is no ancestor"); return; } tips[k] = id[tn[k]]; int t[5]; size_t n = path(root, tn[k], t); total += n; for (size_t i = 0; i < n; i++) in[t[i]] = 1; }
    size_t n = 0; for (aa_rx_frame_id j = 0; j < 5; j++) for (int i = 0; i < 5; i++) if (id[i] == j && in[i]) fr[n++] = i;
    vf_true("upper bound of the frame count", aa_rx_sg_multiple_chain_frame_count(sg, id[root], nt, tips) == total && total >= n); struct aa_rx_sg_sub *s = aa_rx_sg_multiple_chain_create(sg, id[root], nt, tips); check(sg, s, n, fr);
    vf_true("end effector count", aa_rx_sg_sub_frame_ee_count(s) == nt); for (size_t k = 0; k < nt; k++) { aa_rx_frame_id t = tips[k]; tips[k] = -7; vf_true("end effectors copied", aa_rx_sg_sub_frame_ees(s)[k] == t); } aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg);
}
/* moving values between all configurations and the chain's */
static struct aa_rx_sg *arm(struct aa_rx_sg_sub **s, size_t *m, aa_rx_config_id *c) {
    static const struct fr g[5] = {{"e", -1, R}, {"c", 0, P}, {"d", 1, F}, {"a", 2, R}, {"b", 0, R}}; memcpy(f, g, sizeof f); struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 4; i >= 0; i--) addf(sg, f, (size_t)i); vf_true("init", 0 == aa_rx_sg_init(sg)); for (int i = 0; i < 5; i++) id[i] = aa_rx_sg_frame_id(sg, f[i].name); id[5] = AA_RX_FRAME_ROOT;
    static const int rt[4][2] = {{5,3},{0,3},{5,4},{1,3}}; const int *p = rt[vf_pick("chain", 4)]; *s = aa_rx_sg_chain_create(sg, id[p[0]], id[p[1]]); *m = aa_rx_sg_sub_config_count(*s); vf_true("size", *m <= 3 && aa_rx_sg_config_count(sg) == 4); for (size_t i = 0; i < *m; i++) c[i] = aa_rx_sg_sub_config(*s, i); return sg;
}
void h_gather(void) {
    struct aa_rx_sg_sub *s; size_t m; aa_rx_config_id c[4]; struct aa_rx_sg *sg = arm(&s, &m, c); size_t ia = 1 + vf_pick("ia", 3), is = 1 + vf_pick("is", 3); double A[12], S[9]; vf_reals("a", 12, A); vf_reals("s", 9, S); double A0[12], S0[9]; cpy(12, A, A0); cpy(9, S, S0); struct aa_dvec a = AA_DVEC_INIT(4, A, ia), v = AA_DVEC_INIT(m, S, is);
    if (vf_pick("dir", 2)) { aa_rx_sg_sub_config_gather(s, &a, &v); for (size_t i = 0; i < m; i++) S0[i*is] = A0[(size_t)c[i]*ia]; } else { aa_rx_sg_sub_config_scatter(s, &v, &a); for (size_t i = 0; i < m; i++) A0[(size_t)c[i]*ia] = S0[i*is]; } vf_eqn("all", 12, A, A0); vf_eqn("subset", 9, S, S0); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg);
}
void h_getset(void) {
    struct aa_rx_sg_sub *s; size_t m; aa_rx_config_id c[4]; struct aa_rx_sg *sg = arm(&s, &m, c); double A[5], S[4]; vf_reals("a", 5, A); vf_reals("s", 4, S); double A0[5], S0[4]; cpy(5, A, A0); cpy(4, S, S0);
    if (vf_pick("dir", 2)) { aa_rx_sg_sub_config_get(s, 4, A, m, S); for (size_t i = 0; i < m; i++) S0[i] = A0[c[i]]; } else { aa_rx_sg_sub_config_set(s, m, S, 4, A); for (size_t i = 0; i < m; i++) A0[c[i]] = S0[i]; } vf_eqn("all", 5, A, A0); vf_eqn("subset", 4, S, S0); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg);
}
void h_expand(void) {
    struct aa_rx_sg_sub *s; size_t m; aa_rx_config_id c[4]; struct aa_rx_sg *sg = arm(&s, &m, c); double st[4], sub[9], all[13], E[13]; vf_reals("st", 4, st); vf_reals("p", 9, sub); vf_reals("o", 13, all); cpy(13, all, E); size_t n = vf_pick("n", 4), w = vf_pick("start", 2);
    aa_rx_sg_sub_expand_path(s, n, w ? st : 0, sub, all); for (size_t i = 0; i < n; i++) { if (w) for (size_t j = 0; j < 4; j++) E[4*i + j] = st[j]; for (size_t j = 0; j < m; j++) E[4*i + (size_t)c[j]] = sub[m*i + j]; } vf_eqn("expanded path", 13, all, E); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg);
}
/* the result is linear in the random number: its extremes and a middle value */
int rand(void) { static const int v[3] = {0, RAND_MAX, 715827882}; return v[vf_pick("rand", 3)]; }
/* centre and random configurations respect the limits */
void h_center(void) {
    struct aa_rx_sg_sub *s; size_t m; aa_rx_config_id c[4]; struct aa_rx_sg *sg = arm(&s, &m, c); static const char *nm[4] = {"e", "c", "a", "b"}; double lo[4], hi[4]; size_t mask = vf_pick("mask", 4); for (int i = 0; i < 4; i++) { lo[i] = vf_range("lo", -5, 5); hi[i] = vf_range("hi", -5, 5); vf_assume_le(lo[i], hi[i]); if (mask & (1 << (i % 2))) aa_rx_sg_set_limit_pos(sg, nm[i], lo[i], hi[i]); } vf_true("init", 0 == aa_rx_sg_init(sg));
    double q[4], r[6]; for (int i = 0; i < 4; i++) q[i] = 77; for (int i = 0; i < 6; i++) r[i] = 77; aa_rx_sg_sub_center_configs(s, m, q); struct aa_dvec v = AA_DVEC_INIT(m, r, 2); if (m == 3) v.inc = 1; aa_rx_sg_sub_center_configv(s, &v);
    for (size_t i = 0; i < m; i++) { int k = -1; for (int j = 0; j < 4; j++) if (aa_rx_sg_config_id(sg, nm[j]) == c[i]) k = j; int has = mask >> (k % 2) & 1; vf_eq("center", q[i], has ? (lo[k] + hi[k])/2 : 0); vf_eq("center in a vector", r[i*v.inc], q[i]); }
    for (size_t i = m; i < 4; i++) vf_true("rest kept", q[i] == 77); for (size_t i = 0; i < 6; i++) if (i % v.inc || i/v.inc >= m) vf_true("rest kept", r[i] == 77);
    double z[6]; for (int i = 0; i < 6; i++) z[i] = 77; struct aa_dvec w = AA_DVEC_INIT(m, z, v.inc); aa_rx_sg_sub_rand_config(s, &w);
    for (size_t i = 0; i < m; i++) { int k = -1; for (int j = 0; j < 4; j++) if (aa_rx_sg_config_id(sg, nm[j]) == c[i]) k = j; int has = mask >> (k % 2) & 1; vf_le("random value above the minimum", has ? lo[k] : -M_PI, z[i*v.inc]); vf_le("random value below the maximum", z[i*v.inc], has ? hi[k] : M_PI); }
    for (size_t i = 0; i < 6; i++) if (i % v.inc || i/v.inc >= m) vf_true("rest kept", z[i] == 77);
    aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg);
}
/* allocation helpers give storage of the advertised size */
void h_alloc(void) {
    struct aa_rx_sg_sub *s; size_t m; aa_rx_config_id c[4]; struct aa_rx_sg *sg = arm(&s, &m, c); struct aa_mem_region reg; aa_mem_region_init(&reg, 64 + 8*vf_pick("room", 4)); double *J = aa_rx_sg_sub_alloc_jacobian(s, &reg), *q = aa_rx_sg_sub_alloc_config(s, &reg), *t = aa_rx_sg_alloc_tf(sg, &reg), *a = aa_rx_sg_alloc_config(sg, &reg);
    for (size_t i = 0; i < 6*m; i++) J[i] = 1; for (size_t i = 0; i < m; i++) q[i] = 2; for (size_t i = 0; i < 35; i++) t[i] = 3; for (size_t i = 0; i < 4; i++) a[i] = 4;
    vf_block("jacobian", J, 48*m); vf_block("config", q, 8*m); vf_block("tf", t, 280); vf_block("all", a, 32); for (size_t i = 0; i < 6*m; i++) vf_true("not shared", J[i] == 1); for (size_t i = 0; i < m; i++) vf_true("not shared", q[i] == 2); for (size_t i = 0; i < 35; i++) vf_true("not shared", t[i] == 3); aa_mem_region_destroy(&reg);
    const char *nm[5] = {0, 0, 0, 0, 0}; size_t n = vf_pick("n", 6), e = n < 4 ? n : 4; vf_true("number of names", aa_rx_sg_config_names(sg, n, nm) == e); for (size_t i = 0; i < 5; i++) if (i < e) vf_true("name", aa_rx_sg_config_id(sg, nm[i]) == (aa_rx_config_id)i && 0 == strcmp(nm[i], aa_rx_sg_config_name(sg, (aa_rx_config_id)i))); else vf_true("rest kept", nm[i] == 0); aa_rx_sg_sub_destroy(s); aa_rx_sg_destroy(sg);
}
