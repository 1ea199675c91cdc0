#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_geom_internal.h"
#include "amino/rx/scene_collision.h"
void aa_rx_geom_opt_set_color(struct aa_rx_geom_opt *, const double[3]); void aa_rx_geom_opt_set_specular(struct aa_rx_geom_opt *, const double[3]);
/* P30: geometry objects are shared by counted reference, keep what they were given, and are released exactly once */
extern void (*aa_gl_buffers_destroy_fun)(struct aa_gl_buffers *); extern void (*aa_rx_cl_geom_destroy_fun)(struct aa_rx_cl_geom *);
static int ncl, ngl, nmesh; static void *lastcl, *lastgl, *lastmesh;
static void dcl(struct aa_rx_cl_geom *p) { ncl++; lastcl = p; } static void dgl(struct aa_gl_buffers *p) { ngl++; lastgl = p; } static void dmesh(void *p) { nmesh++; lastmesh = p; }
static struct aa_rx_geom_opt *opts(double *c, double *sp, double *sc, int *b) {
    struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); vf_reals("colour", 4, c); vf_reals("specular", 3, sp); *sc = vf_real("scale"); for (int i = 0; i < 3; i++) b[i] = (int)vf_int("flag", -5, 300);
    aa_rx_geom_opt_set_color3(o, c[0], c[1], c[2]); aa_rx_geom_opt_set_alpha(o, c[3]); aa_rx_geom_opt_set_specular3(o, sp[0], sp[1], sp[2]); aa_rx_geom_opt_set_scale(o, *sc); aa_rx_geom_opt_set_no_shadow(o, b[0]); aa_rx_geom_opt_set_visual(o, b[1]); aa_rx_geom_opt_set_collision(o, b[2]); return o;
}
static void ckopt(const struct aa_rx_geom_opt *o, const double *c, const double *sp, double sc, const int *b) {
    vf_eq("first colour", aa_rx_geom_opt_get_color_red(o), c[0]); vf_eq("second colour", aa_rx_geom_opt_get_color_blue(o), c[1]); vf_eq("third colour", aa_rx_geom_opt_get_color_green(o), c[2]); vf_eq("alpha", aa_rx_geom_opt_get_alpha(o), c[3]);
    vf_eq("first specular", aa_rx_geom_opt_get_specular_red(o), sp[0]); vf_eq("second specular", aa_rx_geom_opt_get_specular_blue(o), sp[1]); vf_eq("third specular", aa_rx_geom_opt_get_specular_green(o), sp[2]); vf_eq("scale", aa_rx_geom_opt_get_scale(o), sc);
    vf_true("shadow flag", !aa_rx_geom_opt_get_no_shadow(o) == !b[0]); vf_true("visual flag", !aa_rx_geom_opt_get_visual(o) == !b[1]); vf_true("collision flag", !aa_rx_geom_opt_get_collision(o) == !b[2]);
}
static double dim[5];
static struct aa_rx_mesh *msh;
static const enum aa_rx_geom_shape ST[7] = {AA_RX_BOX, AA_RX_SPHERE, AA_RX_CYLINDER, AA_RX_CONE, AA_RX_GRID, AA_RX_TORUS, AA_RX_MESH}; static const char *SN[7] = {"box", "sphere", "cylinder", "cone", "grid", "torus", "mesh"};
static struct aa_rx_geom *mk(size_t k, struct aa_rx_geom_opt *o) {
    vf_reals("dim", 5, dim); double d[5]; cpy(5, dim, d); struct aa_rx_geom *g = 0;
    switch (k) {
    case 0: g = aa_rx_geom_box(o, d); break; case 1: g = aa_rx_geom_sphere(o, d[0]); break; case 2: g = aa_rx_geom_cylinder(o, d[0], d[1]); break; case 3: g = aa_rx_geom_cone(o, d[0], d[1], d[2]); break;
    case 4: g = aa_rx_geom_grid(o, d, d + 2, d[4]); break; case 5: g = aa_rx_geom_torus(o, d[0], d[1], d[2]); break;
    default: msh = aa_rx_mesh_create(); msh->destructor = dmesh; msh->destructor_context = &msh; g = aa_rx_geom_mesh(o, msh); vf_true("a geometry holds its mesh", aa_rx_mesh_refcount(msh) == 2); aa_rx_mesh_destroy(msh); vf_true("one holder", nmesh == 0 && aa_rx_mesh_refcount(msh) == 1);
    }
    for (int i = 0; i < 5; i++) d[i] = -1; return g;
}
static void ckshape(const struct aa_rx_geom *g, size_t k) {
    enum aa_rx_geom_shape t = AA_RX_NOSHAPE; void *s = aa_rx_geom_shape(g, &t); vf_true("shape type", t == ST[k] && s == aa_rx_geom_shape(g, 0)); vf_true("shape name", 0 == strcmp(aa_rx_geom_shape_str(t), SN[k]));
    switch (k) {
    case 0: (vf_eqn)("box", 3, ((struct aa_rx_shape_box *)s)->dimension, dim); break;
    case 1: vf_eq("radius", ((struct aa_rx_shape_sphere *)s)->radius, dim[0]); break;
    case 2: vf_eq("height", ((struct aa_rx_shape_cylinder *)s)->height, dim[0]); vf_eq("radius", ((struct aa_rx_shape_cylinder *)s)->radius, dim[1]); break;
    case 3: vf_eq("height", ((struct aa_rx_shape_cone *)s)->height, dim[0]); vf_eq("start radius", ((struct aa_rx_shape_cone *)s)->start_radius, dim[1]); vf_eq("end radius", ((struct aa_rx_shape_cone *)s)->end_radius, dim[2]); break;
    case 4: (vf_eqn)("extent", 2, ((struct aa_rx_shape_grid *)s)->dimension, dim); (vf_eqn)("spacing", 2, ((struct aa_rx_shape_grid *)s)->delta, dim + 2); vf_eq("width", ((struct aa_rx_shape_grid *)s)->width, dim[4]); break;
    case 5: vf_eq("angle", ((struct aa_rx_shape_torus *)s)->angle, dim[0]); vf_eq("major radius", ((struct aa_rx_shape_torus *)s)->major_radius, dim[1]); vf_eq("minor radius", ((struct aa_rx_shape_torus *)s)->minor_radius, dim[2]); break;
    default: vf_true("the mesh itself", s == msh);
    }
}
/* options hold what was set, and a geometry keeps its own copy */
void h_options(void) {
    size_t live = vf_live(); double c[4], sp[3], sc; int b[3]; struct aa_rx_geom_opt *o = opts(c, sp, &sc, b); ckopt(o, c, sp, sc, b);
    aa_rx_geom_opt_set_color(o, (double[3]){1, 2, 3}); aa_rx_geom_opt_set_specular(o, (double[3]){4, 5, 6}); double c1[4] = {1, 2, 3, c[3]}, s1[3] = {4, 5, 6}; ckopt(o, c1, s1, sc, b); aa_rx_geom_opt_destroy(o); vf_true("released", vf_live() == live);
}
void h_defaults(void) { struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); double c[4] = {.5, .5, .5, 1}, s[3] = {0}; int b[3] = {0, 1, 1}; ckopt(o, c, s, 1, b); aa_rx_geom_opt_destroy(o); }
// vf: h_shape max_paths=3000
void h_shape(void) {
    size_t live = vf_live(); ncl = ngl = nmesh = 0; aa_rx_cl_geom_destroy_fun = dcl; aa_gl_buffers_destroy_fun = dgl;
    double c[4], sp[3], sc; int b[3]; struct aa_rx_geom_opt *o = opts(c, sp, &sc, b); size_t k = vf_pick("shape", 7); struct aa_rx_geom *g = mk(k, o); aa_rx_geom_opt_set_color3(o, 9, 9, 9); aa_rx_geom_opt_set_scale(o, -1); aa_rx_geom_opt_destroy(o);
    ckshape(g, k); ckopt(aa_rx_geom_get_opt(g), c, sp, sc, b); vf_true("one holder", aa_rx_geom_refcount(g) == 1); vf_true("no collision object yet", aa_rx_geom_get_collision(g) == 0);
    int x, y; size_t own = vf_pick("own", 4); if (own & 1) { aa_rx_geom_set_collision(g, (struct aa_rx_cl_geom *)(void *)&x); vf_true("collision object", (void *)aa_rx_geom_get_collision(g) == (void *)&x); } if (own & 2) g->gl_buffers = (struct aa_gl_buffers *)(void *)&y;
    size_t n = vf_pick("copies", 4); for (size_t i = 0; i < n; i++) { vf_true("a copy is shared", aa_rx_geom_copy(g) == g && aa_rx_geom_refcount(g) == i + 2); }
    for (size_t i = 0; i < n; i++) { aa_rx_geom_destroy(g); vf_true("still held", aa_rx_geom_refcount(g) == n - i && ncl == 0 && ngl == 0 && nmesh == 0); ckshape(g, k); }
    aa_rx_geom_destroy(g); vf_true("collision object released once", ncl == (int)(own & 1) && (!ncl || lastcl == &x)); vf_true("buffers released once", ngl == (int)(own >> 1) && (!ngl || lastgl == &y)); vf_true("mesh released once", nmesh == (k == 6) && (!nmesh || lastmesh == &msh)); vf_true("released", vf_live() == live);
}
/* modifying options makes an independent geometry with the same shape */
void h_modify(void) {
    size_t live = vf_live(); ncl = ngl = nmesh = 0; aa_rx_cl_geom_destroy_fun = dcl; aa_gl_buffers_destroy_fun = dgl; struct aa_rx_geom_opt *d = aa_rx_geom_opt_create(); size_t k = vf_pick("shape", 7), w = vf_pick("order", 2); struct aa_rx_geom *g = mk(k, d); int x; if (vf_pick("cl", 2)) aa_rx_geom_set_collision(g, (struct aa_rx_cl_geom *)(void *)&x);
    double c[4], sp[3], sc; int b[3]; struct aa_rx_geom_opt *o = opts(c, sp, &sc, b); struct aa_rx_geom *m = aa_rx_geom_modify_opt(g, o); vf_true("a new object", m != g && aa_rx_geom_refcount(m) == 1 && aa_rx_geom_refcount(g) == 1 && aa_rx_geom_get_collision(m) == 0); aa_rx_geom_opt_destroy(o); ckshape(m, k); ckshape(g, k); ckopt(aa_rx_geom_get_opt(m), c, sp, sc, b);
    double c0[4] = {.5, .5, .5, 1}, s0[3] = {0}; int b0[3] = {0, 1, 1}; ckopt(aa_rx_geom_get_opt(g), c0, s0, 1, b0); if (k == 6) vf_true("mesh shared", aa_rx_mesh_refcount(msh) == 2);
    aa_rx_geom_destroy(w ? g : m); vf_true("mesh still held", nmesh == 0); ckshape(w ? m : g, k); aa_rx_geom_destroy(w ? m : g); vf_true("mesh released once", nmesh == (k == 6)); aa_rx_geom_opt_destroy(d); vf_true("released", vf_live() == live);
}
/* mesh attributes: copied when asked, otherwise referenced; setting again replaces */
static float fv[2][12]; static unsigned iv[2][12]; static uint8_t cv[2][24];
// vf: h_mesh max_paths=3000
void h_mesh(void) {
    size_t live = vf_live(); nmesh = 0; struct aa_rx_mesh *m = aa_rx_mesh_create(); vf_true("empty", aa_rx_mesh_get_vertices(m, 0) == 0 && aa_rx_mesh_get_indices(m, 0) == 0 && aa_rx_mesh_refcount(m) == 1);
    size_t what = vf_pick("what", 5), n = 0, sz = 0; int cp = 0; const void *src = 0; float of[12]; unsigned oi[12]; uint8_t oc[24];
    for (int r = 0; r < 2; r++) {
        for (int i = 0; i < 12; i++) { fv[r][i] = (float)(i + 100*r); iv[r][i] = (unsigned)vf_int("i", 0, 1000); } for (int i = 0; i < 24; i++) cv[r][i] = (uint8_t)vf_int("c", 0, 255);
        n = 1 + vf_pick("n", 3); cp = (int)vf_pick("copy", 2); memcpy(of, fv[r], sizeof of); memcpy(oi, iv[r], sizeof oi); memcpy(oc, cv[r], sizeof oc);
        switch (what) { case 0: aa_rx_mesh_set_vertices(m, n, fv[r], cp); src = fv[r]; break; case 1: aa_rx_mesh_set_normals(m, n, fv[r], cp); src = fv[r]; break; case 2: aa_rx_mesh_set_uv(m, n, fv[r], cp); src = fv[r]; break; case 3: aa_rx_mesh_set_indices(m, n, iv[r], cp); src = iv[r]; break; default: aa_rx_mesh_set_rgba(m, n, 2, cv[r], cp); src = cv[r]; }
        if (cp) { memset(fv, 0, sizeof fv); memset(iv, 0, sizeof iv); memset(cv, 0, sizeof cv); }
    }
    const void *q = 0; sz = 77; switch (what) { case 0: q = aa_rx_mesh_get_vertices(m, &sz); vf_true("number of vertices", sz == n && q == m->vertices); break; case 1: q = m->normals; break; case 2: q = m->uv; break; case 3: q = aa_rx_mesh_get_indices(m, &sz); vf_true("number of faces", sz == n && q == m->indices); break; default: q = m->rgba; vf_true("image size", m->width_rgba == n && m->height_rgba == 2); }
    vf_true("copied or referenced", (q == src) == !cp); if (what == 4) { for (size_t i = 0; i < 8*n; i++) vf_true("pixel", ((const uint8_t *)q)[i] == oc[i]); vf_block("pixels", q, 8*n); } else { size_t ld = what == 2 ? 2 : 3; vf_block("array", q, 4*ld*n); for (size_t i = 0; i < ld*n; i++) if (what == 3) vf_true("index", ((const unsigned *)q)[i] == oi[i]); else vf_true("value", ((const float *)q)[i] == of[i]); }
    aa_rx_mesh_destroy(m); vf_true("released", vf_live() == live);
}
/* a texture is the colour of the options and coordinates for every vertex */
// vf: h_texture max_paths=3000
void h_texture(void) {
    size_t live = vf_live(); struct aa_rx_mesh *m = aa_rx_mesh_create(); struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); double c[4]; size_t n = 2*vf_pick("n", 2); for (int i = 0; i < 12; i++) fv[0][i] = (float)i; aa_rx_mesh_set_vertices(m, n, fv[0], (int)vf_pick("copy", 2)); if (vf_pick("uv", 2)) aa_rx_mesh_set_uv(m, n, fv[0], 1);
    static const int L[4] = {0, 17, 128, 254}; size_t w = vf_pick("channel", 4), l = vf_pick("level", 4); for (int r = 0; r < 2; r++) { for (size_t i = 0; i < 4; i++) c[i] = i == w ? vf_range("c", (L[l] - .5)/255 < 0 ? 0 : (L[l] - .5)/255, (L[l] + 1)/255.) : (double)i/4; aa_rx_geom_opt_set_color(o, c); aa_rx_geom_opt_set_alpha(o, c[3]); aa_rx_mesh_set_texture(m, o); }
    vf_true("size", m->width_rgba == 1 && m->height_rgba == 1); vf_block("texture coordinates", m->uv, 8*n); for (size_t i = 0; i < 2*n; i++) vf_true("texture coordinate", m->uv[i] == 0); for (int i = 0; i < 4; i++) { vf_le("not above", m->rgba[i], 255*c[i]); vf_le("not below", 255*c[i], m->rgba[i] + 1); }
    aa_rx_geom_opt_destroy(o); aa_rx_mesh_destroy(m); vf_true("released", vf_live() == live);
}
/* geometry in scene graphs: visited at its frame, shared by copies, released with the last holder */
struct vis { int n; struct aa_rx_geom *g[8]; aa_rx_frame_id f[8]; };
static void visit(void *cx, aa_rx_frame_id f, struct aa_rx_geom *g) { struct vis *v = cx; if (v->n < 8) { v->g[v->n] = g; v->f[v->n] = f; } v->n++; }
static int count(struct aa_rx_sg *sg, const char *f, struct aa_rx_geom *g) { struct vis v = {0}; int n = 0; aa_rx_sg_map_geom(sg, visit, &v); for (int i = 0; i < v.n && i < 8; i++) n += v.g[i] == g && v.f[i] == aa_rx_sg_frame_id(sg, f); return n; }
static int total(struct aa_rx_sg *sg) { struct vis v = {0}; aa_rx_sg_map_geom(sg, visit, &v); return v.n; }
// vf: h_scene max_paths=3000
void h_scene(void) {
    aa_mem_region_local_destroy(); size_t live = vf_live(); static const char *nm[3] = {"c", "a", "b"}; struct aa_rx_sg *sg = aa_rx_sg_create(); for (int i = 0; i < 3; i++) aa_rx_sg_add_frame_fixed(sg, i ? nm[i-1] : "", nm[i], 0, 0); struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); struct aa_rx_geom *g[3]; size_t at[3];
    for (int i = 0; i < 3; i++) { g[i] = aa_rx_geom_sphere(o, 1 + i); aa_rx_geom_copy(g[i]); at[i] = vf_pick("frame", 3); aa_rx_geom_attach(sg, nm[at[i]], g[i]); } aa_rx_geom_opt_destroy(o); aa_rx_sg_init(sg);
    vf_true("all visited", total(sg) == 3); for (int i = 0; i < 3; i++) for (size_t k = 0; k < 3; k++) vf_true("visited at its frame", count(sg, nm[k], g[i]) == (at[i] == k)); for (int i = 0; i < 3; i++) vf_true("held", aa_rx_geom_refcount(g[i]) == 2);
    int rc[3]; for (int i = 0; i < 3; i++) rc[i] = 2; struct aa_rx_sg *cp = 0;
    switch (vf_pick("then", 4)) {
    case 0: cp = aa_rx_sg_copy(sg); for (int i = 0; i < 3; i++) { rc[i]++; vf_true("copied at its frame", count(cp, nm[at[i]], g[i]) == 1); } vf_true("all copied", total(cp) == 3); break;
    case 1: { size_t s = vf_pick("from", 3), d = (s + 1 + vf_pick("to", 2)) % 3; aa_rx_sg_copy_frame_geom(sg, nm[s], nm[d]); for (int i = 0; i < 3; i++) { if (at[i] == s) { rc[i]++; vf_true("also at the other frame", count(sg, nm[d], g[i]) == 1); } vf_true("still at its frame", count(sg, nm[at[i]], g[i]) == 1); } break; }
    case 2: aa_rx_sg_rm_frame(sg, "b"); aa_rx_sg_init(sg); for (int i = 0; i < 3; i++) if (at[i] == 2) rc[i]--; else vf_true("others stay", count(sg, nm[at[i]], g[i]) == 1); break;
    default: aa_rx_sg_add_frame_fixed(sg, "", "c", 0, 0); aa_rx_sg_init(sg); for (int i = 0; i < 3; i++) if (at[i] == 0) rc[i]--; else vf_true("others stay", count(sg, nm[at[i]], g[i]) == 1);
    }
    for (int i = 0; i < 3; i++) vf_true("holders", aa_rx_geom_refcount(g[i]) == (unsigned)rc[i]);
    if (cp) { if (vf_pick("order", 2)) { aa_rx_sg_destroy(cp); for (int i = 0; i < 3; i++) vf_true("original keeps its geometry", aa_rx_geom_refcount(g[i]) == 2 && count(sg, nm[at[i]], g[i]) == 1); cp = 0; } }
    aa_rx_sg_destroy(sg); if (cp) { for (int i = 0; i < 3; i++) vf_true("copy keeps its geometry", aa_rx_geom_refcount(g[i]) == 2 && count(cp, nm[at[i]], g[i]) == 1); aa_rx_sg_destroy(cp); }
    for (int i = 0; i < 3; i++) { vf_true("caller's reference remains", aa_rx_geom_refcount(g[i]) == 1); aa_rx_geom_destroy(g[i]); } aa_mem_region_local_destroy(); vf_true("released", vf_live() == live);
}
/* collision sets: a symmetric relation on frames */
static struct aa_rx_sg *frames(void) { static const char *nm[4] = {"c", "a", "b", "d"}; struct aa_rx_sg *sg = aa_rx_sg_create(); size_t n = 1 + vf_pick("frames", 4); for (size_t i = 0; i < n; i++) aa_rx_sg_add_frame_fixed(sg, "", nm[i], 0, 0); aa_rx_sg_init(sg); return sg; }
// vf: h_clset max_paths=3000
void h_clset(void) {
    aa_mem_region_local_destroy(); size_t live = vf_live(); struct aa_rx_sg *sg = frames(); aa_rx_frame_id n = (aa_rx_frame_id)aa_rx_sg_frame_count(sg); struct aa_rx_cl_set *s = aa_rx_cl_set_create(sg), *d = aa_rx_cl_set_create(sg); int M[4][4] = {{0}}, D[4][4] = {{0}};
    for (aa_rx_frame_id i = 0; i < n; i++) for (aa_rx_frame_id j = 0; j < n; j++) vf_true("empty at first", !aa_rx_cl_set_get(s, i, j));
    aa_rx_frame_id i0 = (aa_rx_frame_id)vf_pick("i", (size_t)n), j0 = (aa_rx_frame_id)vf_pick("j", (size_t)n), I[4] = {i0, (i0 + 1) % n, j0, 1 % n}, J[4] = {j0, (2*j0) % n, i0, 2 % n}; size_t re = vf_pick("again", 2);
    for (int k = 0; k < 4; k++) { if (k == 2 && !re) continue; aa_rx_frame_id i = I[k], j = J[k]; int v = k == 3 ? 1 : (int)vf_int("v", -2, 300); struct aa_rx_cl_set *t = k & 1 ? d : s; int (*T)[4] = k & 1 ? D : M; aa_rx_cl_set_set(t, i, j, v); for (aa_rx_frame_id a = 0; a < n; a++) for (aa_rx_frame_id b = 0; b < n; b++) if ((a == i && b == j) || (a == j && b == i)) T[a][b] = v != 0; }
    for (aa_rx_frame_id i = 0; i < n; i++) for (aa_rx_frame_id j = 0; j < n; j++) { vf_true("member", !aa_rx_cl_set_get(s, i, j) == !M[i][j]); vf_true("member of the other", !aa_rx_cl_set_get(d, i, j) == !D[i][j]); }
    switch (vf_pick("then", 3)) {
    case 0: aa_rx_cl_set_merge(d, s); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j) D[i][j] |= M[i][j]; else D[i][j] = 2; break;
    case 1: aa_rx_cl_set_fill(d, s); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) D[i][j] |= M[i][j]; break;
    default: aa_rx_cl_set_clear(d); memset(D, 0, sizeof D);
    }
    for (aa_rx_frame_id i = 0; i < n; i++) for (aa_rx_frame_id j = 0; j < n; j++) { vf_true("source unchanged", !aa_rx_cl_set_get(s, i, j) == !M[i][j]); if (D[i][j] != 2) vf_true("result", !aa_rx_cl_set_get(d, i, j) == !D[i][j]); }
    aa_rx_cl_set_destroy(s); aa_rx_cl_set_destroy(d); aa_rx_sg_destroy(sg); aa_mem_region_local_destroy(); vf_true("released", vf_live() == live);
}
