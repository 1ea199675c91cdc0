#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include <float.h>
#include <stdio.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_collision.h"
/* P36: collision checking.  The narrow phase answers anything; the broad phase keeps FCL's contract (fclstub/fcl/fcl.h). */
#define NG 8
#define NO 6
int aa_rx_sg_is_clean_collision(struct aa_rx_sg *);
static struct G { void *p; int kind, dead, nv, nt; double d[3], v[4][3]; unsigned t[4][3]; } G[NG]; static int ng;
static struct O { void *p; int g, dead, tfv, boxv, mgrv, reg; long fr; double R[9], v[3]; } O[NO]; static int no;
static int hit[NO][NO], pen[NO][NO], nct, mgrs, okay, ord, flip, prune, stale, calls; static double ds[NO][NO], pt[NO][NO][3], dep[NO][NO][2], cpos[NO][NO][2][3], cn[NO][NO][2][3];
static int G_(void *p) { for (int i = 0; i < ng; i++) if (G[i].p == p && !G[i].dead) return i; okay = 0; return NG - 1; }
static int O_(void *p) { for (int i = 0; i < no; i++) if (O[i].p == p && !O[i].dead) return i; okay = 0; return NO - 1; }
void fs_geom_new(void *g, int kind, double a, double b, double c) { struct G *x = G + ng++; memset(x, 0, sizeof *x); x->p = g; x->kind = kind; x->d[0] = a; x->d[1] = b; x->d[2] = c; }
void fs_geom_del(void *g) { G[G_(g)].dead = 1; }
void fs_vertex(void *g, double x, double y, double z) { struct G *k = G + G_(g); if (k->nv < 4) { k->v[k->nv][0] = x; k->v[k->nv][1] = y; k->v[k->nv][2] = z; } k->nv++; }
void fs_triangle(void *g, unsigned a, unsigned b, unsigned c) { struct G *k = G + G_(g); if (k->nt < 4) { k->t[k->nt][0] = a; k->t[k->nt][1] = b; k->t[k->nt][2] = c; } k->nt++; }
void fs_obj_new(void *o, void *g) { struct O *x = O + no++; memset(x, 0, sizeof *x); x->p = o; x->g = G_(g); x->fr = -99; }
void fs_obj_del(void *o) { O[O_(o)].dead = 1; }
void fs_obj_data(void *o, void *u) { O[O_(o)].fr = (long)u; }
void fs_obj_tf(void *o, const double *R, const double *v) { struct O *x = O + O_(o); cpy(9, R, x->R); cpy(3, v, x->v); x->tfv++; }
void fs_obj_aabb(void *o) { struct O *x = O + O_(o); x->boxv = x->tfv; }
void fs_mgr_new(void *m) { (void)m; mgrs++; } void fs_mgr_del(void *m) { (void)m; mgrs--; } void fs_mgr_setup(void *m) { (void)m; }
void fs_mgr_add(void *m, void *o) { struct O *x = O + O_(o); x->reg++; x->mgrv = x->boxv; }
void fs_mgr_update(void *m) { for (int i = 0; i < no; i++) O[i].mgrv = O[i].boxv; }
void fs_mgr_update1(void *m, void *o) { struct O *x = O + O_(o); x->mgrv = x->boxv; }
int fs_mgr_start(void *m) { calls++; return ord; } int fs_mgr_flip(void) { return flip; }
int fs_mgr_pair(void *a, void *b, int dist) { int i = O_(a), j = O_(b); if (dist) return !prune; if (O[i].mgrv == O[i].tfv && O[j].mgrv == O[j].tfv) return hit[i][j] || !prune; return !stale; }
int fs_collide(void *a, void *b) { return hit[O_(a)][O_(b)]; }
double fs_distance(void *a, void *b, double *p, double *q) { int i = O_(a), j = O_(b); cpy(3, pt[i][j], p); cpy(3, pt[j][i], q); return ds[i][j]; }
int fs_ncontact(void *a, void *b) { int i = O_(a), j = O_(b); return pen[i][j]; }
double fs_contact(void *a, void *b, double *p, double *n, int k) { int i = O_(a), j = O_(b); cpy(3, cpos[i][j][k], p); for (int x = 0; x < 3; x++) n[x] = i < j ? cn[i][j][k][x] : -cn[j][i][k][x]; return dep[i][j][k]; }
static void start(void) { ng = no = mgrs = calls = nct = 0; okay = 1; memset(hit, 0, sizeof hit); memset(pen, 0, sizeof pen); size_t k = vf_pick("broadphase", 2); ord = prune = stale = (int)k; flip = 0; }
/* the scene: frames a (fixed), b (revolute), c (prismatic under b), d (fixed under c) */
static double dim[6], sc; static float vx[12]; static const unsigned ix[6] = {0, 1, 2, 2, 1, 3}; static aa_rx_frame_id fid[4]; static const char *FN[4] = {"b", "a", "d", "c"};
static struct aa_rx_sg *frames(void) {
    static const double q[4] = {0, 0, 0, 1}, v[3] = {1, 2, 3}, ax[3] = {0, 0, 1}; struct aa_rx_sg *sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "d", "c", q, v); aa_rx_sg_add_frame_prismatic(sg, "a", "d", q, v, "y", ax, 0); aa_rx_sg_add_frame_revolute(sg, "", "a", q, v, "x", ax, 0); aa_rx_sg_add_frame_fixed(sg, "", "b", q, v); return sg;
}
static struct aa_rx_geom_opt *opt_(double s, int c) { struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_collision(o, c); aa_rx_geom_opt_set_visual(o, !c); aa_rx_geom_opt_set_scale(o, s); return o; }
/* box on b, cylinder and mesh on a, sphere on d, nothing that collides on c */
static struct aa_rx_sg *scene(int plain) {
    struct aa_rx_sg *sg = frames(); for (int i = 0; i < 6; i++) dim[i] = plain ? 1 : vf_range("dim", 0.1, 10); sc = plain ? 1 : vf_range("scale", 0.1, 10); struct aa_rx_geom_opt *o = opt_(sc, 1), *x = opt_(1, 0);
    aa_rx_geom_attach(sg, "b", aa_rx_geom_box(o, dim)); aa_rx_geom_attach(sg, "a", aa_rx_geom_cylinder(o, dim[3], dim[4])); aa_rx_geom_attach(sg, "d", aa_rx_geom_sphere(o, dim[5])); aa_rx_geom_attach(sg, "c", aa_rx_geom_box(x, dim)); aa_rx_geom_attach(sg, "b", aa_rx_geom_sphere(x, 1));
    for (int i = 0; i < 12; i++) vx[i] = (float)(i*i % 7); struct aa_rx_mesh *m = aa_rx_mesh_create(); aa_rx_mesh_set_vertices(m, 4, vx, 1); aa_rx_mesh_set_indices(m, 2, ix, 1); aa_rx_geom_attach(sg, "a", aa_rx_geom_mesh(o, m)); aa_rx_mesh_destroy(m); aa_rx_geom_opt_destroy(o); aa_rx_geom_opt_destroy(x);
    vf_true("init", 0 == aa_rx_sg_init(sg)); for (int i = 0; i < 4; i++) fid[i] = aa_rx_sg_frame_id(sg, FN[i]); return sg;
}
enum { BOX, CYL, MESH, SPH }; static const int FK_[4] = {0, 1, 1, 2};  /* frame (index into FN) of each kind */
static int kind(int o) { int k = G[O[o].g].kind; return k == 0 ? BOX : k == 2 ? CYL : k == 3 ? MESH : SPH; }
static int at(int k) { for (int i = 0; i < no; i++) if (kind(i) == k) return i; okay = 0; return 0; }
static void done(struct aa_rx_sg *sg, struct aa_rx_cl *cl, size_t live) {
    aa_rx_cl_destroy(cl); for (int i = 0; i < no; i++) vf_true("object released", O[i].dead); vf_true("manager released", mgrs == 0); for (int i = 0; i < ng; i++) vf_true("shape kept for its geometry", !G[i].dead); aa_rx_sg_destroy(sg); for (int i = 0; i < ng; i++) vf_true("shape released", G[i].dead); aa_mem_region_local_destroy(); vf_true("released", vf_live() == live); vf_true("valid calls", okay);
}
/* shapes and poses handed to the collision library are those of the scene */
void h_shapes(void) {
    aa_mem_region_local_destroy(); size_t live = vf_live(); start(); struct aa_rx_sg *sg = scene(0); vf_true("not clean before", !aa_rx_sg_is_clean_collision(sg)); aa_rx_sg_cl_init(sg); vf_true("clean", aa_rx_sg_is_clean_collision(sg)); vf_true("one shape per geometry", ng == 4); aa_rx_sg_cl_init(sg); struct aa_rx_cl *cl = aa_rx_cl_create(sg); vf_true("shapes made once", ng == 4 && no == 4);
    double s = sc; (vf_eqn)("box", 3, G[O[at(BOX)].g].d, (double[3]){s*dim[0], s*dim[1], s*dim[2]}); vf_eq("cylinder radius", G[O[at(CYL)].g].d[0], s*dim[4]); vf_eq("cylinder height", G[O[at(CYL)].g].d[1], s*dim[3]); vf_eq("sphere radius", G[O[at(SPH)].g].d[0], s*dim[5]);
    struct G *m = G + O[at(MESH)].g; vf_true("mesh size", m->nv == 4 && m->nt == 2); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) vf_eq("vertex", m->v[i][j], s*vx[3*i+j]); for (int i = 0; i < 6; i++) vf_true("triangle", m->t[i/3][i%3] == ix[i]);
    for (int i = 0; i < 4; i++) { vf_true("frame of the object", O[i].fr == fid[FK_[kind(i)]]); vf_true("registered", O[i].reg == 1); }
    double q[2] = {vf_range("q0", -3, 3), vf_range("q1", -3, 3)}, TF[4][9], R[9]; size_t ld = 7 + 2*vf_pick("ld", 2); int how = (int)vf_pick("how", 3); struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); struct aa_dvec qv = AA_DVEC_INIT(2, q, 1); struct aa_rx_cl_dist *cd = 0;
    for (int r = 0; r < 2; r++) { double E[7];
    if (how == 0) { double *T = TF[0]; for (int i = 0; i < 36; i++) T[i] = 5; for (size_t i = 0; i < 4; i++) { vf_unit(r ? "e1" : "e0", 4, T + i*ld); vf_reals(r ? "v1" : "v0", 3, T + i*ld + 4); } aa_rx_cl_check(cl, 4, T, ld, 0); for (int i = 0; i < 4; i++) { cpy(7, T + (size_t)i*ld, E); cpy(7, E, (double *)TF + 9*i); if (ld == 7) break; } }
    else { q[0] += r; aa_rx_fk_all(fk, &qv); if (how == 1) aa_rx_cl_check_fk(cl, fk, 0); else { if (!cd) cd = aa_rx_cl_dist_create(cl); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ds[i][j] = 1; aa_rx_cl_dist_check(cd, fk); } }
    for (int i = 0; i < 4; i++) { size_t f = (size_t)fid[FK_[kind(i)]]; if (how == 0) cpy(7, (double *)TF + f*ld, E); else aa_rx_fk_get_abs_qutr(fk, (aa_rx_frame_id)f, E); ref_q2r(E, R); double z = kind(i) == CYL ? s*dim[3]/2 : 0; (vf_eqn)("orientation", 9, O[i].R, R); for (int j = 0; j < 3; j++) vf_eq("position", O[i].v[j], E[4+j] + R[6+j]*z); vf_true("bounding box of the pose", O[i].mgrv == O[i].tfv); }
    }
    vf_true("checked", calls == 2); if (cd) aa_rx_cl_dist_destroy(cd); aa_rx_fk_destroy(fk); done(sg, cl, live);
}
static const double ID[28] = {0,0,0,1,0,0,0, 0,0,0,1,0,0,0, 0,0,0,1,0,0,0, 0,0,0,1,0,0,0};
static void hits(void) { for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) { int i = at(a), j = at(b); hit[i][j] = hit[j][i] = (int)vf_pick("hit", 2); } }
static int col(int *M) {    /* the pairs of frames that collide and are not allowed */
    int n = 0; for (int f = 0; f < 4; f++) for (int g = 0; g < 4; g++) { int h = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (O[i].fr == fid[f] && O[j].fr == fid[g]) h |= hit[i][j]; M[4*f+g] = f != g && h && !M[4*f+g]; n |= M[4*f+g]; } return n;
}
static void allow(int *M, int f, int g, int v) { M[4*f+g] = M[4*g+f] = v; }
/* a collision is reported for exactly the pairs of different frames that collide and are not allowed */
// vf: h_check max_paths=6000
void h_check(void) {
    aa_mem_region_local_destroy(); size_t live = vf_live(); start(); struct aa_rx_sg *sg = scene(1); int M[16] = {0}, al = (int)vf_pick("allowed", 5); if (al & 1) { aa_rx_sg_allow_collision_name(sg, "a", "b", 1); allow(M, 0, 1, 1); }
    aa_rx_sg_cl_init(sg); struct aa_rx_cl *cl = aa_rx_cl_create(sg); hits();
    if (al == 1) { aa_rx_cl_allow(cl, fid[2], fid[1], 7); allow(M, 1, 2, 1); } else if (al == 2) { aa_rx_cl_allow_name(cl, "d", "b", 1); allow(M, 0, 2, 1); } else if (al == 3) { aa_rx_cl_allow(cl, fid[1], fid[0], 0); allow(M, 0, 1, 0); } else if (al == 4) { struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg); aa_rx_cl_set_set(s, fid[1], fid[2], 1); aa_rx_cl_allow_set(cl, s); aa_rx_cl_set_destroy(s); allow(M, 1, 2, 1); }
    int any = col(M), w = (int)vf_pick("set", 2); struct aa_rx_cl_set *s = w ? aa_rx_cl_set_create(sg) : 0; int r = aa_rx_cl_check(cl, 4, ID, 7, s); vf_true("collision reported iff there is one", !r == !any);
    if (s) { for (int f = 0; f < 4; f++) for (int g = 0; g < 4; g++) vf_true("the colliding pairs", !aa_rx_cl_set_get(s, fid[f], fid[g]) == !M[4*f+g]); aa_rx_cl_set_destroy(s); }
    done(sg, cl, live);
}
/* allowed pairs add up */
// vf: h_allowed max_paths=6000
void h_allowed(void) {
    aa_mem_region_local_destroy(); size_t live = vf_live(); start(); struct aa_rx_sg *sg = scene(1); int M[16] = {0}; static const int PF[4] = {0, 0, 1, 3}, PG[4] = {1, 2, 2, 0}; int a = (int)vf_pick("first", 5), b = (int)vf_pick("second", 5), c = (int)vf_pick("third", 5), off = (int)vf_pick("off", 2);
    if (a < 4) { aa_rx_sg_allow_collision(sg, fid[PF[a]], fid[PG[a]], 1); allow(M, PF[a], PG[a], 1); } aa_rx_sg_cl_init(sg); if (off && a < 4) { aa_rx_sg_allow_collision(sg, fid[PG[a]], fid[PF[a]], 0); vf_true("to be initialized again", !aa_rx_sg_is_clean_collision(sg)); allow(M, PF[a], PG[a], 0); aa_rx_sg_cl_init(sg); }
    struct aa_rx_cl *cl = aa_rx_cl_create(sg); if (b < 4) { aa_rx_cl_allow(cl, fid[PG[b]], fid[PF[b]], 1); allow(M, PF[b], PG[b], 1); }
    struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg); if (c < 4) { aa_rx_cl_set_set(s, fid[PF[c]], fid[PG[c]], 1); allow(M, PF[c], PG[c], 1); } aa_rx_cl_allow_set(cl, s); aa_rx_cl_set_clear(s); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) hit[i][j] = i != j;
    int any = col(M); int r = aa_rx_cl_check(cl, 4, ID, 7, s); vf_true("collision reported iff there is one", !r == !any); for (int f = 0; f < 4; f++) for (int g = 0; g < 4; g++) vf_true("the colliding pairs", !aa_rx_cl_set_get(s, fid[f], fid[g]) == !M[4*f+g]); aa_rx_cl_set_destroy(s); done(sg, cl, live);
}
/* collisions at a configuration; allowing those */
// vf: h_config max_paths=6000
void h_config(void) {
    aa_mem_region_local_destroy(); size_t live = vf_live(); start(); struct aa_rx_sg *sg = scene(1); int M[16] = {0}, al = (int)vf_pick("allowed", 2); if (al) { aa_rx_sg_allow_collision_name(sg, "d", "a", 1); allow(M, 2, 1, 1); } aa_rx_sg_cl_init(sg); double q[2] = {0.25, 1.5};
    /* the objects come and go inside the call: outcomes are fixed by kind */
    static int K[4][4]; struct aa_rx_cl *c0 = aa_rx_cl_create(sg); hits(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) K[i][j] = hit[i][j]; int A[16]; memcpy(A, M, sizeof A); int any = col(M); aa_rx_cl_destroy(c0); no = 0; (void)K; (void)any;
    int w = (int)vf_pick("what", 2);
    if (w == 0) { struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg); aa_rx_sg_get_collision(sg, 2, q, s); for (int f = 0; f < 4; f++) for (int g = 0; g < 4; g++) vf_true("collisions at the configuration", !aa_rx_cl_set_get(s, fid[f], fid[g]) == !M[4*f+g]); aa_rx_cl_set_destroy(s); }
    else { aa_rx_sg_allow_config(sg, 2, q); aa_rx_sg_cl_init(sg); struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg); aa_rx_sg_cl_set_copy(sg, s); for (int f = 0; f < 4; f++) for (int g = 0; g < 4; g++) vf_true("allowed afterwards", !aa_rx_cl_set_get(s, fid[f], fid[g]) == !(A[4*f+g] || M[4*f+g])); aa_rx_cl_set_destroy(s); }
    vf_true("checked", calls == 1); for (int i = 0; i < no; i++) vf_true("object released", O[i].dead); no = 0; struct aa_rx_cl *cl = aa_rx_cl_create(sg); done(sg, cl, live);
}
/* separation distances: the least over the geometry of two frames, negative penetration when they collide */
// vf: h_dist max_paths=6000 budget=200
void h_dist(void) {
    aa_mem_region_local_destroy(); size_t live = vf_live(); start(); struct aa_rx_sg *sg = scene(1); int M[16] = {0}, al = (int)vf_pick("allowed", 2); aa_rx_sg_cl_init(sg); struct aa_rx_cl *cl = aa_rx_cl_create(sg); if (al) { aa_rx_cl_allow(cl, fid[2], fid[1], 1); allow(M, 2, 1, 1); }
    static const int SC[6][3] = {{0,0,0},{1,0,0},{2,3,0},{0,2,1},{3,3,2},{4,0,4}}; const int *m = SC[vf_pick("scenario", 6)]; int c = 0, bad = 0; static const int PA[3] = {BOX, BOX, SPH}, PB[3] = {CYL, MESH, CYL};
    for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) { int i = at(a), j = at(b); ds[i][j] = ds[j][i] = 50; for (int k = 0; k < 3; k++) pt[i][j][k] = i + k, pt[j][i][k] = j - k; }
    for (c = 0; c < 3; c++) { int i = at(PA[c]), j = at(PB[c]), k = m[c]; if (i > j) { int t = i; i = j; j = t; } for (int x = 0; x < 3; x++) { pt[i][j][x] = vf_real("p"); pt[j][i][x] = vf_real("p"); }
        if (k == 0) ds[i][j] = ds[j][i] = vf_range("distance", 0.1, 9); else { ds[i][j] = ds[j][i] = k == 4 ? 0 : -1; hit[i][j] = hit[j][i] = pen[i][j] = pen[j][i] = k == 1 || k == 3; for (int y = 0; y < 2; y++) { dep[i][j][y] = dep[j][i][y] = vf_range("depth", 0.1, 9); for (int x = 0; x < 3; x++) { cpos[i][j][y][x] = cpos[j][i][y][x] = vf_real("pos"); cn[i][j][y][x] = vf_real("normal"); } } } }
    { int x = at(BOX), y = at(CYL), z = at(MESH); if (m[0] == 0 && m[1] == 0) vf_assume_ne(ds[x][y], ds[x][z]); if (m[0] && m[1]) vf_assume_ne(dep[x][y][0], dep[x][z][0]); }    /* ties may go either way */
    struct aa_rx_fk *fk = aa_rx_fk_malloc(sg); double q[2] = {0, 0}; struct aa_dvec qv = AA_DVEC_INIT(2, q, 1); aa_rx_fk_all(fk, &qv); struct aa_rx_cl_dist *cd = aa_rx_cl_dist_create(cl); int r = aa_rx_cl_dist_check(cd, fk); if (vf_pick("again", 2)) r = aa_rx_cl_dist_check(cd, fk);
    for (int f = 0; f < 4; f++) for (int g = 0; g <= f; g++) {
        double e = f == g ? 0 : DBL_MAX, pf[3] = {0}, pg[3] = {0}; int has = f == g;
        for (int i = 0; i < no && f != g && !M[4*f+g]; i++) for (int j = 0; j < no; j++) if (O[i].fr == fid[f] && O[j].fr == fid[g]) {
            double d = ds[i][j], a[3], b[3]; cpy(3, pt[i][j], a); cpy(3, pt[j][i], b); int big = fid[f] > fid[g] ? i : j, sm = big == i ? j : i; (void)sm;
            if (d <= 0) { bad = 1; d = 0; for (int k = 0; hit[i][j] && k < (pen[i][j] < 1 ? pen[i][j] : 1); k++) if (dep[i][j][k] > d) { d = dep[i][j][k]; double *s = big == i ? a : b, *t = big == i ? b : a; for (int x = 0; x < 3; x++) { double n = (big < sm ? 1 : -1)*cn[big < sm ? big : sm][big < sm ? sm : big][k][x]; s[x] = cpos[i][j][k][x]; t[x] = s[x] + n*d; } } d = -d; }
            if (d < e) { e = d; cpy(3, a, pf); cpy(3, b, pg); has = 1; } }
        vf_eq("distance", aa_rx_cl_dist_get_dist(cd, fid[f], fid[g]), e); vf_eq("symmetric", aa_rx_cl_dist_get_dist(cd, fid[g], fid[f]), e);
        if (has) { double x[3], y[3]; vf_eq("distance with points", aa_rx_cl_dist_get_points(cd, fid[f], fid[g], x, y), e); (vf_eqn)("point on the first frame", 3, x, pf); (vf_eqn)("point on the second frame", 3, y, pg); aa_rx_cl_dist_get_points(cd, fid[g], fid[f], x, y); (vf_eqn)("points swapped", 3, y, pf); (vf_eqn)("points swapped", 3, x, pg); }
    }
    vf_true("in collision", !r == !bad); for (int f = 0; f < 4; f++) { double e = DBL_MAX; for (int g = 0; g < 4; g++) if (g != f) { double d = aa_rx_cl_dist_get_dist(cd, fid[f], fid[g]); if (d < e) e = d; } aa_rx_frame_id w = -77; double p[6], x[3], y[3]; int full = (f + (int)al) % 2; double v = aa_rx_cl_dist_get_min_dist(cd, fid[f], full ? &w : 0, full ? p : 0); vf_eq("least distance", v, e);
        if (full && e < DBL_MAX) { vf_true("a frame at that distance", w >= 0 && w < 4 && w != fid[f]); vf_eq("its distance", aa_rx_cl_dist_get_points(cd, fid[f], w, x, y), e); (vf_eqn)("its points", 3, p, x); (vf_eqn)("its points", 3, p + 3, y); } }
    aa_rx_cl_dist_destroy(cd); aa_rx_fk_destroy(fk); done(sg, cl, live);
}
