#include "vf.h"
#include "amino.h"
#include "amino/rx/wavefront.h"
#include "wavefront_internal.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
double aa_rx_wf_material_get_specular_weight(const struct aa_rx_wf_material *);
/* P37: Wavefront files: what is in the file is what the objects hold.  The scanners are regenerated by flex from /repo's
 * sources; their stdio calls go to the in-memory files below, which deliver the text in pieces of any size up to 7. */
static struct { const char *name; char text[512]; size_t pos; int open; } vfile[2]; static size_t chunk; static int nopen;
FILE *wf_fopen(const char *name, const char *mode) { (void)mode; for (int i = 0; i < 2; i++) if (vfile[i].name && 0 == strcmp(name, vfile[i].name)) { vfile[i].pos = 0; vfile[i].open = 1; nopen++; return (FILE *)(void *)&vfile[i]; } return 0; }
int wf_fclose(FILE *f) { for (int i = 0; i < 2; i++) if ((void *)f == (void *)&vfile[i]) { vf_true("closed once", vfile[i].open); vfile[i].open = 0; nopen--; } return 0; }
int wf_fileno(FILE *f) { return (void *)f == (void *)&vfile[1]; }
ssize_t wf_read(int fd, void *buf, size_t n) { size_t k = strlen(vfile[fd].text) - vfile[fd].pos; if (k > chunk) k = chunk; if (k > n) k = n; memcpy(buf, vfile[fd].text + vfile[fd].pos, k); vfile[fd].pos += k; return (ssize_t)k; }
char *dirname(char *p) { char *q = 0; for (char *c = p; *c; c++) if ('/' == *c) q = c; if (!q) return (char *)"."; *q = 0; return p; }
static char *T; static void put(const char *s) { strcat(T, s); }
static const char *NT[] = {"1", "-2.5", "3e2", "-0.125", "12d-1", "0.3333333333333333333333", "-0s1", "7."}; static const double NV[] = {1, -2.5, 300, -.125, 1.2, 1./3, 0, 7};
static size_t no; static double num(void) { size_t i = no++ % 8; put(NT[i]); return NV[i]; }
static const char *SEP[] = {" ", " \t"}, *END[] = {"\n", " \n", " # 1 2\n"}; static size_t sp, en;
static void sep(void) { put(SEP[sp]); } static void end(void) { put(END[en]); }
static void start(void) { nopen = 0; vfile[0].name = "dir/a.obj"; vfile[1].name = "dir/m.mtl"; T = vfile[0].text; T[0] = 0; vfile[1].text[0] = 0; size_t st = vf_pick("style", 3); no = 3 * st; sp = st == 1; en = st; chunk = st ? 7 : 400; }
static void near_n(const char *l, size_t n, const double *a, const double *b) { for (size_t i = 0; i < n; i++) vf_near(l, a[i], b[i], 1e-12); }
/* numbers: every character symbolic within its class */
static void number(size_t ni, size_t nf, size_t ne, int neg, int eneg, char mark) {
    char s[24]; size_t k = 0; double v = 0, x = 1; if (ni == 2) s[k++] = ' '; if (neg) s[k++] = '-';
    for (size_t i = 0; i < ni; i++) { int d = (int)vf_int("digit", 0, 9); s[k++] = (char)('0' + d); v = 10 * v + d; }
    if (nf) { s[k++] = '.'; for (size_t i = 0; i < nf; i++) { int d = (int)vf_int("fraction", 0, 9); s[k++] = (char)('0' + d); x /= 10; v += x * d; } }
    int ex = 0; if (ne) { s[k++] = mark; if (eneg) s[k++] = '-'; for (size_t i = 0; i < ne; i++) { int d = (int)vf_int("exponent", 0, 9); s[k++] = (char)('0' + d); ex = 10 * ex + d; } }
    s[k] = 0; for (int i = 0; i < ex; i++) v = eneg ? v / 10 : v * 10; if (neg) v = -v;
    double r = aa_rx_wf_parse_float(s); double t = (v < 0 ? -v : v) * 1e-12 + 1e-15; vf_near("value of the text", r, v, t);
}
// vf: h_num_int max_paths=20000
void h_num_int(void) { number(2, 0, 0, (int)vf_pick("negative", 2), 0, 0); }
// vf: h_num_frac max_paths=20000
void h_num_frac(void) { number(1, 2, 0, (int)vf_pick("negative", 2), 0, 0); }
// vf: h_num_exp max_paths=20000
void h_num_exp(void) { number(1, 0, 1, (int)vf_pick("negative", 2), (int)vf_pick("negative_exponent", 2), "eds"[vf_pick("marker", 3)]); }
// vf: h_num_fexp max_paths=20000 budget=300 tier=thorough
void h_num_fexp(void) { number(1, 1, 1, 0, (int)vf_pick("negative_exponent", 2), 'd'); }
/* an object file of up to n lines of any kind */
static double V[48], VT[48], VN[48]; static int32_t FV[48], FN[48], FT[48], FM[16]; static size_t nv, nvt, nvn, nf; static const char *mat[8]; static size_t nm; static int32_t cur;
static void idx(const char *s, int32_t *d, int32_t v) { put(s); *d = v; }
static void face(int uv, int o) {
    static const char *I[] = {"1", "2", "30", "4", "105"};
    put("f"); for (int i = 0; i < 3; i++) { sep(); idx(I[(i + o) % 5], &FV[3*nf + i], (int32_t)atoi(I[(i + o) % 5]) - 1); put("/"); if (uv) idx(I[(i + o + 1) % 5], &FT[3*nf + i], (int32_t)atoi(I[(i + o + 1) % 5]) - 1); else FT[3*nf + i] = AA_RX_WF_OBJ_FACE_NONE; put("/"); idx(I[(i + o + 2) % 5], &FN[3*nf + i], (int32_t)atoi(I[(i + o + 2) % 5]) - 1); }
    FM[nf++] = cur; end();
}
static void use(const char *n) { put("usemtl"); sep(); put(n); end(); for (size_t i = 0; i < nm; i++) if (0 == strcmp(mat[i], n)) { cur = (int32_t)i; return; } cur = (int32_t)nm; mat[nm++] = n; }
static void line(size_t k) {
    if (k != 10 && sp) put(" ");
    switch (k) {
    case 0: put("v"); for (int i = 0; i < 3; i++) { sep(); V[nv++] = num(); } end(); break;
    case 1: put("vt"); for (int i = 0; i < 2; i++) { sep(); VT[nvt++] = num(); } end(); break;
    case 2: put("vn"); for (int i = 0; i < 3; i++) { sep(); VN[nvn++] = num(); } end(); break;
    case 3: face(0, (int)nf); break; case 4: face(1, (int)nf + 2); break;
    case 5: use("red"); break; case 6: use("re"); break; case 7: put("o"); sep(); put("thing"); end(); break;
    case 8: put("s"); sep(); put("off\n"); break; case 9: put("# v 1 2 3\n"); break; case 10: put("l 1 2\n"); break; case 11: end(); break;
    default: put("v"); sep(); put("1"); sep(); put("x\n");
    }
}
static void ints(const char *l, const int32_t *a, size_t n, const int32_t *b, size_t m) { vf_true(l, n == m); for (size_t i = 0; i < m && i < n; i++) vf_true(l, a[i] == b[i]); }
static void check(struct aa_rx_wf_obj *o) {
    const double *d; const int32_t *p; size_t n; aa_rx_wf_obj_get_vertices(o, &d, &n); vf_true("number of vertices", n == nv); near_n("vertices", nv, d, V); aa_rx_wf_obj_get_normals(o, &d, &n); vf_true("number of normals", n == nvn); near_n("normals", nvn, d, VN);
    aa_rx_wf_obj_get_vertex_indices(o, &p, &n); ints("vertex indices", p, n, FV, 3*nf); aa_rx_wf_obj_get_normal_indices(o, &p, &n); ints("normal indices", p, n, FN, 3*nf); aa_rx_wf_obj_get_uv_indices(o, &p, &n); ints("texture vertex indices", p, n, FT, 3*nf); aa_rx_wf_obj_get_texture_indices(o, &p, &n); ints("material of each face", p, n, FM, nf);
    vf_true("number of materials", aa_rx_wf_obj_material_count(o) == nm); for (size_t i = 0; i < nm; i++) vf_true("material name", 0 == strcmp(aa_rx_wf_obj_get_material_name(o, i), mat[i])); vf_true("no further material", aa_rx_wf_obj_get_material_name(o, nm) == 0);
}
static void clear(void) { nv = nvt = nvn = nf = nm = 0; cur = 0; }
static void obj(size_t n) {
    size_t live = vf_live(); start(); no = vf_pick("nums", 8); clear(); int bad = 0;
    for (size_t i = 0; i < n; i++) { size_t k = vf_pick("kind", 13); line(k); if (k == 12) bad = 1; }
    struct aa_rx_wf_obj *o = aa_rx_wf_parse("dir/a.obj"); vf_true("files are closed", nopen == 0);
    if (bad) vf_true("a malformed line is refused", o == 0); else { vf_true("file is accepted", o != 0); check(o); vf_true("file name", 0 == strcmp(aa_rx_wf_obj_get_filename(o), "dir/a.obj")); vf_true("no material files", aa_rx_wf_obj_mtl_count(o) == 0 && aa_rx_wf_obj_get_mtl(o, 0) == 0 && aa_rx_wf_obj_get_mtl_filename(o, 0) == 0); aa_rx_wf_obj_destroy(o); }
    vf_true("everything is released", vf_live() == live);
}
// vf: h_obj1 max_paths=4000 budget=300
void h_obj1(void) { obj(1); }
/* materials and faces in every order */
// vf: h_faces max_paths=4000 budget=300
void h_faces(void) {
    size_t live = vf_live(); start(); clear(); line(5 + vf_pick("first", 2));
    for (int i = 0; i < 3; i++) { static const size_t K[] = {3, 4, 5, 6}; line(K[vf_pick("kind", 4)]); }
    struct aa_rx_wf_obj *o = aa_rx_wf_parse("dir/a.obj"); vf_true("file is accepted", o != 0); check(o); aa_rx_wf_obj_destroy(o); vf_true("everything is released", vf_live() == live);
}
/* vertices, texture vertices and normals interleaved, more than fit initially */
// vf: h_many max_paths=400 budget=300
void h_many(void) {
    size_t live = vf_live(); clear(); struct aa_rx_wf_obj *o = aa_rx_wf_obj_create(); aa_rx_wf_obj_set_filename(o, "a.obj"); static double x[70]; static int32_t fi[23][9]; size_t n = 62 + vf_pick("n", 8);
    for (size_t i = 0; i < n; i++) { x[i] = vf_real("x"); aa_rx_wf_obj_push_vertex(o, x[i]); if (i % 2) aa_rx_wf_obj_push_texture_vertex(o, x[i]); if (i % 3) aa_rx_wf_obj_push_normal(o, -x[i]); }
    for (size_t k = 0; k < 23; k++) { struct aa_rx_wf_obj_face f; for (int i = 0; i < 3; i++) { fi[k][i] = f.v[i] = (int32_t)vf_int("v", -5, 100000); fi[k][3+i] = f.n[i] = (int32_t)vf_int("n", -5, 100000); fi[k][6+i] = f.t[i] = (int32_t)vf_int("t", -5, 100000); } aa_rx_wf_obj_push_face(o, &f); }
    const double *d; size_t m; aa_rx_wf_obj_get_vertices(o, &d, &m); vf_true("count", m == n); for (size_t i = 0; i < n; i++) vf_eq("vertex", d[i], x[i]); aa_rx_wf_obj_get_normals(o, &d, &m); size_t j = 0; for (size_t i = 0; i < n; i++) if (i % 3) { vf_eq("normal", d[j], -x[i]); j++; } vf_true("count", m == j);
    const int32_t *p, *q, *r; aa_rx_wf_obj_get_vertex_indices(o, &p, &m); vf_true("count", m == 69); aa_rx_wf_obj_get_normal_indices(o, &q, &m); vf_true("count", m == 69); aa_rx_wf_obj_get_uv_indices(o, &r, &m); vf_true("count", m == 69);
    for (size_t k = 0; k < 23; k++) for (size_t i = 0; i < 3; i++) { vf_true("vertex index", p[3*k+i] == fi[k][i]); vf_true("normal index", q[3*k+i] == fi[k][3+i]); vf_true("texture index", r[3*k+i] == fi[k][6+i]); }
    aa_rx_wf_obj_destroy(o); vf_true("everything is released", vf_live() == live);
}
/* material files */
struct me { double ns, ni, d, k[4][3]; int hns, hni, hd, hk[4]; const char *name; }; static struct me ME[4]; static size_t nme; static int mbad;
static void mline(size_t k) {
    if (sp) put(" "); struct me *e = nme ? &ME[nme-1] : 0; static const char *K[] = {"Ka", "Kd", "Ks", "Ke"};
    if (k >= 2 && k <= 8 && !e) mbad = 1;
    static struct me junk; if (!e) e = &junk;
    switch (k) {
    case 0: case 1: put("newmtl"); sep(); e = &ME[nme++]; memset(e, 0, sizeof *e); e->name = k ? "steel" : "glass_2"; put(e->name); end(); break;
    case 2: put("Ns"); sep(); e->ns = num(); e->hns = 1; end(); break; case 3: put("Ni"); sep(); e->ni = num(); e->hni = 1; end(); break; case 4: put("d"); sep(); e->d = num(); e->hd = 1; end(); break;
    case 5: case 6: case 7: case 8: put(K[k-5]); for (int i = 0; i < 3; i++) { sep(); e->k[k-5][i] = num(); } e->hk[k-5] = 1; end(); break;
    case 9: put("illum 2\n"); break; case 10: put("map_Kd a.png\n"); break; case 11: put("# Ns 4\n"); break;
    default: put("Kz 1\n"); mbad = 1;
    }
}
static void mstart(void) { start(); T = vfile[1].text; nme = 0; mbad = 0; }
static void mcheck(const struct aa_rx_wf_mtl *m) {
    vf_true("number of materials", aa_rx_wf_mtl_material_count(m) == nme); vf_true("none further", aa_rx_wf_mtl_get_material(m, nme) == 0);
    for (size_t i = 0; i < nme; i++) {
        const struct me *e = &ME[i]; const struct aa_rx_wf_material *a = aa_rx_wf_mtl_get_material(m, i); vf_true("name", 0 == strcmp(aa_rx_wf_material_get_name(a), e->name));
        vf_true("what is specified", aa_rx_wf_material_has_specular_weight(a) == e->hns && aa_rx_wf_material_has_ior(a) == e->hni && aa_rx_wf_material_has_alpha(a) == e->hd && aa_rx_wf_material_has_ambient(a) == e->hk[0] && aa_rx_wf_material_has_diffuse(a) == e->hk[1] && aa_rx_wf_material_has_specular(a) == e->hk[2] && aa_rx_wf_material_has_emission(a) == e->hk[3]);
        if (e->hns) vf_near("Ns", aa_rx_wf_material_get_specular_weight(a), e->ns, 1e-12); if (e->hni) vf_near("Ni", aa_rx_wf_material_get_ior(a), e->ni, 1e-12); if (e->hd) vf_near("d", aa_rx_wf_material_get_alpha(a), e->d, 1e-12);
        if (e->hk[0]) near_n("Ka", 3, aa_rx_wf_material_get_ambient(a), e->k[0]); if (e->hk[1]) near_n("Kd", 3, aa_rx_wf_material_get_diffuse(a), e->k[1]); if (e->hk[2]) near_n("Ks", 3, aa_rx_wf_material_get_specular(a), e->k[2]); if (e->hk[3]) near_n("Ke", 3, aa_rx_wf_material_get_emission(a), e->k[3]);
    }
}
static void mtl(size_t n, int first) {
    size_t live = vf_live(); mstart(); if (first) mline(0); else no = vf_pick("nums", 8);
    for (size_t i = 0; i < n; i++) mline(vf_pick("kind", 13));
    struct aa_rx_wf_mtl *m = aa_rx_wf_mtl_parse("dir/m.mtl"); vf_true("files are closed", nopen == 0);
    if (mbad) vf_true("a malformed line is refused", m == 0); else { vf_true("file is accepted", m != 0); mcheck(m); aa_rx_wf_mtl_destroy(m); }
    vf_true("everything is released", vf_live() == live);
}
// vf: h_mtl1 max_paths=4000 budget=300
void h_mtl1(void) { mtl(1, 0); }
// vf: h_mtl2 max_paths=4000 budget=300
void h_mtl2(void) { mtl(2, 1); }
/* an object file naming its material file, which is looked up beside it */
// vf: h_mtllib max_paths=1000 budget=300
void h_mtllib(void) {
    size_t live = vf_live(); aa_mem_region_local_init(64); mstart(); size_t k = vf_pick("material_file", 4); mline(0); mline(2); if (k == 1) mline(12); T = vfile[0].text; clear(); put("mtllib"); sep(); put(k == 2 ? "none.mtl" : "m.mtl"); end(); line(0);
    if (k == 3) vfile[0].name = "a.obj", vfile[1].name = "./m.mtl";
    struct aa_rx_wf_obj *o = aa_rx_wf_parse(k == 3 ? "a.obj" : "dir/a.obj"); vf_true("files are closed", nopen == 0);
    if (k == 1 || k == 2) vf_true("a bad or missing material file is refused", o == 0); else { vf_true("file is accepted", o != 0); check(o); vf_true("one material file", aa_rx_wf_obj_mtl_count(o) == 1 && 0 == strcmp(aa_rx_wf_obj_get_mtl_filename(o, 0), "m.mtl")); mcheck(aa_rx_wf_obj_get_mtl(o, 0)); vf_true("none further", aa_rx_wf_obj_get_mtl(o, 1) == 0 && aa_rx_wf_obj_get_mtl_filename(o, 1) == 0); aa_rx_wf_obj_destroy(o); }
    aa_mem_region_local_destroy(); vf_true("everything is released", vf_live() == live);
}
void h_missing(void) { start(); vf_true("missing file", aa_rx_wf_parse("dir/b.obj") == 0 && aa_rx_wf_mtl_parse("dir/b.mtl") == 0); }
