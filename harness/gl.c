#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include "amino.h"
#define GL_GLEXT_PROTOTYPES
#include "amino/rx/rxtype.h"
#include "amino/rx/scenegraph.h"
#include "amino/rx/scene_geom.h"
#include "amino/rx/scene_geom_internal.h"
#include "amino/rx/scene_gl.h"
#include "amino/rx/scene_gl_internal.h"
/* P40: what is handed to OpenGL.  The functions of the GL are stand-ins that record their arguments. */
AA_API void aa_gl_tfmat2glmat(const double T[12], GLfloat M[16]); AA_API void aa_gl_qutr2glmat(const double E[7], GLfloat M[16]); AA_API void aa_geom_gl_buffers_init(struct aa_rx_geom *geom);
void init_octree(struct aa_rx_geom_octree *g) { (void)g; vf_true("no octree here", 0); }
/* ---- recorder ---- */
enum { NB = 24, NU = 16, ND = 12 };
static struct buf { int live, isbuf; size_t size; void *data; const void *src; int w, h; } B[NB]; static unsigned nb; static GLuint cur_a, cur_e, cur_t, cur_p; static int bad;
static const char *names[NU] = {"position", "normal", "UV", "light_world", "ambient", "light_color", "light_power", "specular", "texture_sampler", "camera_world", "matrix_model", "matrix_camera", "matrix_rotate"};
static float U[NU][16]; static int Uset[NU]; static int att_on[NU]; static GLuint att_buf[NU]; static int att_n[NU];
static struct draw { GLenum mode; int count, elems; GLuint e, pos, nrm, uv, tex; int npos, nnrm; float model[16], rot[9], spec[3]; } D[ND]; static unsigned nd;
static void gl_reset(void) { for (unsigned i = 0; i < NB; i++) { free(B[i].data); memset(&B[i], 0, sizeof B[i]); } nb = 0; cur_a = cur_e = cur_t = 0; bad = 0; nd = 0; memset(att_on, 0, sizeof att_on); memset(att_buf, 0, sizeof att_buf); memset(Uset, 0, sizeof Uset); }
static void gen(GLsizei n, GLuint *b, int isbuf) { for (int i = 0; i < n; i++) { if (nb + 1 >= NB) { bad = 9; return; } nb++; B[nb].live = 1; B[nb].isbuf = isbuf; b[i] = nb; } }
static void del(GLsizei n, const GLuint *b, int isbuf) { for (int i = 0; i < n; i++) { GLuint k = b[i]; if (k == 0 || k > nb || !B[k].live || B[k].isbuf != isbuf) { bad = 1; continue; } B[k].live = 0; free(B[k].data); B[k].data = 0; } }
void glGenBuffers(GLsizei n, GLuint *b) { gen(n, b, 1); } void glGenTextures(GLsizei n, GLuint *b) { gen(n, b, 2); } void glDeleteBuffers(GLsizei n, const GLuint *b) { del(n, b, 1); } void glDeleteTextures(GLsizei n, const GLuint *b) { del(n, b, 2); }
static int okb(GLuint b, int k) { return b == 0 || (b <= nb && B[b].live && B[b].isbuf == k); }
void glBindBuffer(GLenum t, GLuint b) { if (!okb(b, 1)) bad = 2; if (t == GL_ARRAY_BUFFER) cur_a = b; else if (t == GL_ELEMENT_ARRAY_BUFFER) cur_e = b; else bad = 3; }
void glBindTexture(GLenum t, GLuint b) { (void)t; if (!okb(b, 2)) bad = 2; cur_t = b; }
void glBufferData(GLenum t, GLsizeiptr size, const void *data, GLenum use) { (void)use; GLuint b = t == GL_ARRAY_BUFFER ? cur_a : cur_e; if (!b) { bad = 4; return; } vf_block("data given", data, (size_t)size); free(B[b].data); B[b].data = malloc((size_t)size); memcpy(B[b].data, data, (size_t)size); B[b].size = (size_t)size; B[b].src = data; }
void glTexImage2D(GLenum t, GLint l, GLint f, GLsizei w, GLsizei h, GLint bo, GLenum fm, GLenum ty, const void *data) { (void)t; (void)bo; if (!cur_t || l || f != GL_RGBA || fm != GL_RGBA || ty != GL_UNSIGNED_BYTE) { bad = 5; return; } size_t n = 4*(size_t)w*(size_t)h; vf_block("texture given", data, n); B[cur_t].data = malloc(n); memcpy(B[cur_t].data, data, n); B[cur_t].size = n; B[cur_t].w = w; B[cur_t].h = h; }
void glTexParameteri(GLenum a, GLenum b, GLint c) { (void)a; (void)b; (void)c; } GLenum glGetError(void) { return GL_NO_ERROR; } const GLubyte *glGetString(GLenum n) { (void)n; return (const GLubyte *)"stand-in"; }
GLuint glCreateShader(GLenum t) { (void)t; return 1; } void glShaderSource(GLuint s, GLsizei n, const GLchar *const *c, const GLint *l) { (void)s; (void)n; (void)c; (void)l; } void glCompileShader(GLuint s) { (void)s; } void glGetShaderiv(GLuint s, GLenum p, GLint *r) { (void)s; (void)p; *r = GL_TRUE; } void glGetShaderInfoLog(GLuint s, GLsizei n, GLsizei *l, GLchar *c) { (void)s; (void)n; (void)l; *c = 0; }
GLuint glCreateProgram(void) { return 7; } void glAttachShader(GLuint p, GLuint s) { (void)p; (void)s; } void glDetachShader(GLuint p, GLuint s) { (void)p; (void)s; } void glDeleteShader(GLuint s) { (void)s; } void glLinkProgram(GLuint p) { (void)p; } void glGetProgramiv(GLuint s, GLenum p, GLint *r) { (void)s; (void)p; *r = GL_TRUE; } void glGetProgramInfoLog(GLuint s, GLsizei n, GLsizei *l, GLchar *c) { (void)s; (void)n; (void)l; *c = 0; }
void glEnable(GLenum c) { (void)c; } void glBlendFunc(GLenum a, GLenum b) { (void)a; (void)b; } void glGenVertexArrays(GLsizei n, GLuint *a) { (void)n; *a = 5; } void glBindVertexArray(GLuint a) { (void)a; }
static GLint loc(const char *s) { for (int i = 0; i < NU && names[i]; i++) if (!strcmp(names[i], s)) return i; return -1; }
GLint glGetUniformLocation(GLuint p, const GLchar *n) { (void)p; return loc(n); } GLint glGetAttribLocation(GLuint p, const GLchar *n) { (void)p; return loc(n); }
void glUseProgram(GLuint p) { cur_p = p; } void glClearColor(GLfloat a, GLfloat b, GLfloat c, GLfloat d) { (void)a; (void)b; (void)c; (void)d; } static int ncleared; void glClear(GLbitfield m) { if ((m & GL_COLOR_BUFFER_BIT) && (m & GL_DEPTH_BUFFER_BIT)) ncleared++; }
static void uni(GLint l, int n, const GLfloat *v) { if (cur_p != 7 || l < 3 || l >= NU || !names[l]) { bad = 6; return; } Uset[l] = n; memcpy(U[l], v, sizeof(float)*(size_t)n); }
void glUniform1f(GLint l, GLfloat v) { uni(l, 1, &v); } void glUniform3fv(GLint l, GLsizei n, const GLfloat *v) { if (n != 1) bad = 7; uni(l, 3, v); } void glUniformMatrix4fv(GLint l, GLsizei n, GLboolean t, const GLfloat *v) { if (n != 1 || t) bad = 7; uni(l, 16, v); } void glUniformMatrix3fv(GLint l, GLsizei n, GLboolean t, const GLfloat *v) { if (n != 1 || t) bad = 7; uni(l, 9, v); }
void glVertexAttribPointer(GLuint i, GLint n, GLenum t, GLboolean nm, GLsizei st, const void *p) { if (i > 2 || t != GL_FLOAT || nm || st || p || !cur_a) { bad = 8; return; } att_buf[i] = cur_a; att_n[i] = n; } void glEnableVertexAttribArray(GLuint i) { if (i > 2) bad = 8; else att_on[i] = 1; } void glDisableVertexAttribArray(GLuint i) { if (i > 2) bad = 8; else att_on[i] = 0; }
static void rec(GLenum mode, GLsizei n, int elems) { if (nd >= ND || cur_p != 7) { bad = 9; return; } struct draw *d = &D[nd++]; d->mode = mode; d->count = n; d->elems = elems; d->e = cur_e; d->pos = att_on[0] ? att_buf[0] : 0; d->npos = att_n[0]; d->nrm = att_on[1] ? att_buf[1] : 0; d->nnrm = att_n[1]; d->uv = att_on[2] ? att_buf[2] : 0; d->tex = cur_t; if (Uset[10] != 16 || Uset[12] != 9 || Uset[7] != 3) bad = 10; memcpy(d->model, U[10], sizeof d->model); memcpy(d->rot, U[12], sizeof d->rot); memcpy(d->spec, U[7], sizeof d->spec); }
void glDrawElements(GLenum m, GLsizei n, GLenum t, const void *p) { if (t != GL_UNSIGNED_INT || p || !cur_e) bad = 11; rec(m, n, 1); } void glDrawArrays(GLenum m, GLint f, GLsizei n) { if (f) bad = 11; rec(m, n, 0); }
static void eqf(const char *l, size_t n, const float *a, const double *b) { for (size_t i = 0; i < n; i++) vf_near(l, (double)a[i], b[i], 1e-5 * (vf_symbolic() ? 1 : 1 + fabs(b[i]))); }

/* ---- matrices and camera ---- */
static void ck_tf(const char *l, const float *M, const double *T) { for (int j = 0; j < 4; j++) { for (int i = 0; i < 3; i++) vf_near(l, (double)M[4*j+i], T[3*j+i], 1e-5); vf_eq("last row", (double)M[4*j+3], j == 3); } }
void h_mats(void) {
    double q[4], E[7], T[12]; vf_unit("q", 4, q); cpy(4, q, E); for (int i = 0; i < 3; i++) E[4+i] = vf_range("v", -8, 8); float M[16]; for (int i = 0; i < 16; i++) M[i] = 3; ref_qv2t(q, E + 4, T); aa_gl_qutr2glmat(E, M); ck_tf("matrix of a pose", M, T); for (int i = 0; i < 16; i++) M[i] = 3; aa_gl_tfmat2glmat(T, M); ck_tf("matrix of a transform", M, T);
}
static void ck_persp(const float *M, double f, double a, double n, double fa) {
    double t = tan(f/2); for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) { double m = (double)M[4*j+i]; if (i == 0 && j == 0) vf_near("horizontal", m * (a*t), 1, 1e-5); else if (i == 1 && j == 1) vf_near("vertical", m * t, 1, 1e-5); else if (i == 2 && j == 2) vf_near("depth", m * (fa - n), -(fa + n), 1e-3); else if (i == 3 && j == 2) vf_eq("perspective", m, -1); else if (i == 2 && j == 3) vf_near("depth offset", m * (fa - n), -2*fa*n, 1e-3); else vf_eq("zero", m, 0); }
}
void h_persp(void) { double f = vf_range("fovy", .3, 2), a = vf_range("aspect", .25, 4), n = vf_range("near", .01, 1), fa = vf_range("far", 2, 100); float M[16]; for (int i = 0; i < 16; i++) M[i] = 3; aa_gl_mat_perspective(f, a, n, fa, M); ck_persp(M, f, a, n, fa); }
static void ck_cam(const struct aa_gl_globals *G, const double *q, const double *v) { double T[12], I[12]; ref_qv2t(q, v, T); ref_tinv(T, I); ck_tf("camera matrix is the inverse of the pose", G->cam_M_world, I); eqf("camera position", 3, G->world_v_cam, v); (vf_eqn)("camera pose kept", 4, G->world_E_cam, q); (vf_eqn)("camera pose kept", 3, G->world_E_cam + 4, v); }
// vf: h_camera budget=200
void h_camera(void) {
    size_t live = vf_live(); struct aa_gl_globals *G = aa_gl_globals_create(); vf_true("shows visuals only", G->show_visual == 1 && G->show_collision == 0); double E[2][7]; for (int k = 0; k < 2; k++) { double q[4]; vf_unit("q", 4, q); cpy(4, q, E[k]); for (int i = 0; i < 3; i++) E[k][4+i] = vf_range("v", -8, 8); }
    aa_gl_globals_set_camera(G, E[0]); ck_cam(G, E[0], E[0] + 4); aa_gl_globals_set_camera_home(G, E[1]); ck_cam(G, E[0], E[0] + 4); aa_gl_globals_home_camera(G); ck_cam(G, E[1], E[1] + 4); aa_gl_globals_set_camera(G, E[0]); ck_cam(G, E[0], E[0] + 4);
    double f = vf_range("fovy", .3, 2), a = vf_range("aspect", .25, 4), a2 = vf_range("aspect2", .25, 4), n = vf_range("near", .01, 1), fa = vf_range("far", 2, 100); aa_gl_globals_set_perspective(G, f, a, n, fa); ck_persp(G->perspective, f, a, n, fa); aa_gl_globals_set_aspect(G, a2); ck_persp(G->perspective, f, a2, n, fa);
    double L[3][3]; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) L[k][i] = vf_range("light", -8, 8); aa_gl_globals_set_light_position(G, L[0]); aa_gl_globals_set_light_color(G, L[1]); aa_gl_globals_set_ambient(G, L[2]); eqf("light position", 3, G->light_position, L[0]); eqf("light colour", 3, G->light_color, L[1]); eqf("ambient light", 3, G->ambient, L[2]); double p = vf_range("power", 0, 8); aa_gl_globals_set_light_power(G, p); vf_near("light power", (double)G->light_power, p, 1e-5);
    aa_gl_globals_destroy(G); vf_true("released", vf_live() == live);
}
/* ---- masked frames ---- */
// vf: h_mask max_paths=6000
void h_mask(void) {
    static const size_t I[] = {0, 31, 32, 200, 900}; size_t live = vf_live(); struct aa_gl_globals *G = aa_gl_globals_create(); int m[5] = {0}, un = 1 + 2*(int)vf_pick("unmask", 2);
    for (int r = 0; r < 3; r++) { if (un == r) { aa_gl_globals_unmask_all(G); memset(m, 0, sizeof m); } size_t k = vf_pick("frame", 5); int v = (int)vf_pick("value", 2); aa_gl_globals_mask(G, I[k], v); m[k] = v; for (int i = 0; i < 5; i++) { vf_true("masked", !aa_gl_globals_is_masked(G, I[i]) == !m[i]); vf_true("neighbours are not", !aa_gl_globals_is_masked(G, I[i] + 1) == !(i == 1 && m[2])); } vf_true("far frames are not", !aa_gl_globals_is_masked(G, 5000)); }
    aa_gl_globals_destroy(G); vf_true("released", vf_live() == live);
}
/* ---- meshes of shapes ---- */
static struct aa_rx_geom_opt *opts(double *c, double *sp) { struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); for (int i = 0; i < 4; i++) c[i] = .2 * (i + 1); for (int i = 0; i < 3; i++) sp[i] = vf_range("specular", 0, 1); aa_rx_geom_opt_set_color3(o, c[0], c[1], c[2]); aa_rx_geom_opt_set_alpha(o, c[3]); aa_rx_geom_opt_set_specular3(o, sp[0], sp[1], sp[2]); return o; }
static const float *V, *N; static const unsigned *F; static unsigned nv, nf; static double col[4], spc[3];
static void mesh(struct aa_rx_geom *g, int normals) {
    aa_geom_gl_buffers_init(g); struct aa_gl_buffers *b = g->gl_buffers; vf_true("buffers", b && b->has_values && b->has_indices && b->has_uv && b->has_tex2d && !b->has_normals == !normals && !bad); eqf("specular", 3, b->specular, spc);
    nv = (unsigned)(B[b->values].size / 12); nf = (unsigned)(B[b->indices].size / 12); V = B[b->values].data; F = B[b->indices].data; N = normals ? B[b->normals].data : 0; vf_true("triangles", b->mode == GL_TRIANGLES && b->count == (int)(3*nf) && b->values_size == 3 && nf > 0); vf_true("whole vertices", B[b->values].size == 12*nv && B[b->indices].size == 12*nf && B[b->uv].size == 8*nv && (!normals || (B[b->normals].size == 12*nv && b->normals_size == 3)));
    for (unsigned i = 0; i < 3*nf; i++) vf_true("index in range", F[i] < nv); const uint8_t *t = B[b->tex2d].data; vf_true("one texel", B[b->tex2d].w == 1 && B[b->tex2d].h == 1); for (int i = 0; i < 4; i++) vf_true("colour", t[i] >= 51*(i+1) - 1 && t[i] <= 51*(i+1)); const float *uv = B[b->uv].data; for (unsigned i = 0; i < 2*nv; i++) vf_true("that texel", uv[i] == 0);
    aa_geom_gl_buffers_init(g); vf_true("made once", g->gl_buffers == b);
}
static void fin(struct aa_rx_geom *g, struct aa_rx_geom_opt *o, size_t live) { aa_rx_geom_destroy(g); aa_gl_buffers_cleanup(); for (unsigned i = 1; i <= nb; i++) vf_true("GL objects released", !B[i].live); vf_true("each once", !bad); aa_gl_buffers_cleanup(); vf_true("each once", !bad); aa_rx_geom_opt_destroy(o); gl_reset(); aa_mem_region_local_destroy(); vf_true("memory released", vf_live() == live); }
static size_t begin(struct aa_rx_geom_opt **o) { aa_gl_init(); gl_reset(); aa_mem_region_local_destroy(); size_t live = vf_live(); *o = opts(col, spc); return live; }
// vf: h_box max_paths=2000
void h_box(void) {
    struct aa_rx_geom_opt *o; size_t live = begin(&o); double d[3]; for (int i = 0; i < 3; i++) d[i] = vf_range("dimension", .01, 8); struct aa_rx_geom *g = aa_rx_geom_box(o, d); mesh(g, 1);
    int cnt[6] = {0}; unsigned cover[6][2]; vf_true("two triangles a face", nf == 12);
    for (unsigned t = 0; t < nf; t++) {
        int s[3][3]; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) { float x = V[3*F[3*t+k]+i]; s[k][i] = x > 0; vf_near("corner", (double)x, s[k][i] ? d[i]/2 : -d[i]/2, 1e-5); }
        int ax = -1; for (int i = 0; i < 3; i++) { float n = N[3*F[3*t]+i]; if (n > .5f || n < -.5f) ax = 2*i + (n > 0); } vf_true("a face", ax >= 0); if (ax < 0) continue; for (int k = 0; k < 3; k++) { vf_true("on its face", s[k][ax/2] == ax % 2); for (int i = 0; i < 3; i++) vf_true("outward normal", N[3*F[3*t+k]+i] == (i != ax/2 ? 0 : ax % 2 ? 1 : -1)); }
        unsigned m = 0; for (int k = 0; k < 3; k++) m |= 1u << (2*s[k][(ax/2+1)%3] + s[k][(ax/2+2)%3]); if (cnt[ax] < 2) cover[ax][cnt[ax]] = m; cnt[ax]++;
    }
    for (int a = 0; a < 6; a++) { vf_true("two triangles", cnt[a] == 2); if (cnt[a] != 2) continue; unsigned m = 15u & ~cover[a][0], n = 15u & ~cover[a][1]; vf_true("cover the face", (m | n) == 9 || (m | n) == 6); vf_true("without overlap", m != n && (m & (m-1)) == 0 && (n & (n-1)) == 0); }
    fin(g, o, live);
}
// vf: h_grid max_paths=2000 budget=200
void h_grid(void) {
    struct aa_rx_geom_opt *o; size_t live = begin(&o); double d[2], e[2], w = vf_range("width", .001, .01); e[0] = vf_pick("dx", 2) ? 1 : .5; e[1] = 1; d[0] = vf_range("x", .1, 1.4); d[1] = vf_range("y", 0, 2.9); struct aa_rx_geom *g = aa_rx_geom_grid(o, d, e, w); mesh(g, 0);
    size_t top = (size_t)((char *)aa_mem_region_ptr(aa_mem_region_local_get()) - (char *)aa_mem_region_local_get()->node->d); vf_true("scratch memory given back", top < 32);
    int m[2]; for (int a = 0; a < 2; a++) { m[a] = 0; while ((m[a] + 1) * e[a] <= d[a]) m[a]++; } int seen[2][9] = {{0}}; unsigned need = (unsigned)(2 * (2*m[0] + 1 + 2*m[1] + 1)); vf_true("two triangles a line", nf == need);
    for (unsigned t = 0; t < nf; t++) {
        int ok = 0; for (int a = 0; a < 2 && !ok; a++) for (int i = -m[a]; i <= m[a] && !ok; i++) { int in = 1; unsigned c = 0; for (int k = 0; k < 3 && in; k++) { double x = (double)V[3*F[3*t+k]+a] - i*e[a], y = (double)V[3*F[3*t+k]+1-a], Y = m[1-a]*e[1-a]; in = fabs(x) < .02 && x != 0 && V[3*F[3*t+k]+2] == 0 && (Y > 0 ? fabs(y) > Y - .02 : y == 0); if (in && Y == 0) c |= 16; if (in) { vf_near("line width", fabs(x), w/2, 1e-6); vf_near("line length", fabs(y), Y, 1e-6); c |= 1u << (2*(x > 0) + (y > 0)); } }
            if (in) { if (c & 16) { ok = 1; seen[a][i+4]++; break; } unsigned q = 15u & ~c; vf_true("three corners", q && !(q & (q-1))); ok = 1; seen[a][i+4]++; } }
        vf_true("triangle of a line", ok);
    }
    for (int a = 0; a < 2; a++) for (int i = -m[a]; i <= m[a]; i++) vf_true("every line drawn", seen[a][i+4] == 2);
    fin(g, o, live);
}
/* positions are a linear function of the sizes (decided), and the surface for fixed sizes is closed and right */
static void lin(unsigned n, const float *v, double s, const float *a, double t, const float *b) { for (unsigned i = 0; i < n; i++) vf_near("vertices scale with the sizes", (double)v[i], s*(double)a[i] + t*(double)b[i], 1e-4); }
static float KV[2][3*400]; static void keep(int i) { memcpy(KV[i], V, 12*nv); }
// vf: h_cone max_paths=200 budget=300
void h_cone(void) {
    struct aa_rx_geom_opt *o; size_t live = begin(&o); int cyl = (int)vf_pick("cylinder", 2); double h = vf_range("height", .1, 4), r0 = vf_range("radius", .1, 4), r1 = cyl ? r0 : vf_range("end_radius", 0, 4);
    struct aa_rx_geom *u = aa_rx_geom_cone(o, 1, 1, 2), *g = cyl ? aa_rx_geom_cylinder(o, h, r0) : aa_rx_geom_cone(o, h, r0, r1); mesh(u, 1); unsigned n0 = nv, f0 = nf; vf_true("room", nv <= 400); if (nv > 400) return; keep(0);
    static unsigned char id[400]; static unsigned char E[80][80]; memset(E, 0, sizeof E); int P = 0;
    for (unsigned i = 0; i < nv; i++) { double x = V[3*i], y = V[3*i+1], z = V[3*i+2], r = sqrt(x*x + y*y); int top = z > .5; vf_near("on an end", z, top, 1e-5); double nn = (double)(N[3*i]*N[3*i] + N[3*i+1]*N[3*i+1] + N[3*i+2]*N[3*i+2]); vf_near("unit normal", nn, 1, 1e-5); if (N[3*i+2] != 0) vf_true("end normal outward", N[3*i+2] == (top ? 1 : -1) && N[3*i] == 0 && N[3*i+1] == 0); else { vf_near("side normal outward", x, r*(double)N[3*i], 1e-5); vf_near("side normal outward", y, r*(double)N[3*i+1], 1e-5); } if (r < .01) id[i] = (unsigned char)(72 + top); else { vf_near("on its circle", r, top ? 2 : 1, 1e-5); double k = atan2(y, x) / (2*M_PI/36); int j = (int)floor(k + .5); vf_near("evenly spaced", k, j, 1e-3); id[i] = (unsigned char)(2*((j + 36) % 36) + top); } }
    for (unsigned t = 0; t < nf; t++) { int e = 0; for (int k = 0; k < 3; k++) { unsigned a = id[F[3*t+k]], b = id[F[3*t+(k+1)%3]]; vf_true("proper edge", a != b); E[a][b]++; E[b][a]++; e += N[3*F[3*t+k]+2] != 0; } vf_true("normals of one face", e == 0 || e == 3); P += e == 3; }
    for (int a = 0; a < 74; a++) for (int b = 0; b < a; b++) vf_true("closed surface", E[a][b] == 0 || E[a][b] == 2); vf_true("two ends and a side", nf == 144 && P == 72);
    static unsigned FK[3*150]; memcpy(FK, F, 12*nf); static float NK[3*400]; memcpy(NK, N, 12*nv); mesh(g, 1); vf_true("same triangles", nv == n0 && nf == f0 && !memcmp(F, FK, 12*nf) && !memcmp(N, NK, 12*nv));
    for (unsigned i = 0; i < nv; i++) { int top = KV[0][3*i+2] > .5f; vf_near("height", (double)V[3*i+2], top ? h : 0, 1e-5); for (int k = 0; k < 2; k++) vf_near("radius", (double)V[3*i+k], (double)KV[0][3*i+k] * (top ? r1/2 : r0), 1e-4); }
    aa_rx_geom_destroy(u); fin(g, o, live);
}
// vf: h_torus max_paths=200 budget=300
void h_torus(void) {
    struct aa_rx_geom_opt *o; size_t live = begin(&o); static const double A[] = {.3, .75}; double an = A[vf_pick("angle", 2)], R = vf_range("major", 1, 4), r = vf_range("minor", .1, 1); struct aa_rx_geom *u[3] = {aa_rx_geom_torus(o, an, 1, 0), aa_rx_geom_torus(o, an, 0, 1), aa_rx_geom_torus(o, an, R, r)}; mesh(u[0], 1); unsigned n = nv; vf_true("room", nv <= 400); if (nv > 400) return; keep(0); mesh(u[1], 1); vf_true("same size", nv == n); keep(1);
    int nm = (int)(n / 36); vf_true("rings", nm >= 8 && (unsigned)nm*36 == n && nf == (unsigned)(72*(nm-1))); static int ri[400], ci[400]; static unsigned char E[400][3];
    for (unsigned i = 0; i < n; i++) { const float *a = KV[0] + 3*i, *b = KV[1] + 3*i; double ph = atan2(a[1], a[0]), k = ph / (an/(nm-1)); ri[i] = (int)floor(k + .5); vf_near("evenly spaced rings", k, ri[i], 1e-3); vf_near("on the major circle", (double)(a[0]*a[0] + a[1]*a[1]), 1, 1e-5); vf_near("in the plane", (double)a[2], 0, 1e-5); double c = b[0]*cos(ph) + b[1]*sin(ph), j = atan2(b[2], c) / (2*M_PI/36); vf_near("radial", -b[0]*sin(ph) + b[1]*cos(ph), 0, 1e-5); vf_near("on the minor circle", c*c + (double)(b[2]*b[2]), 1, 1e-5); ci[i] = (int)floor(j + .5); vf_near("evenly spaced", j, ci[i], 1e-3); ci[i] = (ci[i] + 36) % 36; for (int q = 0; q < 3; q++) vf_near("outward normal", (double)N[3*i+q], (double)b[q], 1e-5); vf_true("rings in range", ri[i] >= 0 && ri[i] < nm); }
    memset(E, 0, sizeof E);
    for (unsigned t = 0; t < nf; t++) { int lo = 999, hi = -1; for (int k = 0; k < 3; k++) { int x = ri[F[3*t+k]]; if (x < lo) lo = x; if (x > hi) hi = x; } vf_true("between neighbouring rings", hi == lo + 1); for (int k = 0; k < 3; k++) { unsigned a = F[3*t+k], b = F[3*t+(k+1)%3]; int dr = ri[b] - ri[a], dc = (ci[b] - ci[a] + 36) % 36; if (dc == 35) { dr = -dr; dc = 1; unsigned x = a; a = b; b = x; } else if (dc == 0 && dr < 0) { dr = -dr; a = b; } vf_true("neighbouring vertices", dc <= 1 && (dc || dr)); if (dc == 1 && dr == 0) E[36*ri[a] + ci[a]][0]++; else if (dc == 0) E[36*ri[a] + ci[a]][1]++; else E[36*(dr > 0 ? ri[a] : ri[a] - 1) + ci[a]][2]++; } }
    for (int i = 0; i < nm; i++) for (int j = 0; j < 36; j++) { int p = 36*i + j; vf_true("each patch covered", E[p][0] == (i == 0 || i == nm-1 ? 1 : 2) && E[p][1] == (i < nm-1 ? 2 : 0) && E[p][2] == (i < nm-1 ? 2 : 0)); }
    static unsigned FK[3*800]; memcpy(FK, F, 12*nf); mesh(u[2], 1); vf_true("same triangles", nv == n && !memcmp(F, FK, 12*nf)); lin(3*n, V, R, KV[0], r, KV[1]); aa_rx_geom_destroy(u[0]); aa_rx_geom_destroy(u[1]); fin(u[2], o, live);
}
// vf: h_sphere max_paths=20 budget=300
void h_sphere(void) {
    struct aa_rx_geom_opt *o; size_t live = begin(&o); double r = 2; struct aa_rx_geom *g = aa_rx_geom_sphere(o, r); mesh(g, 1); double bad2 = 0, badn = 0, lo = 99, hi = 0, area = 0;
    for (unsigned i = 0; i < nv; i++) { double s = 0; for (int k = 0; k < 3; k++) { s += (double)(V[3*i+k]*V[3*i+k]); badn = fmax(badn, fabs((double)N[3*i+k]*r - (double)V[3*i+k])); } bad2 = fmax(bad2, fabs(s - r*r)); } vf_le("on the sphere", bad2, 1e-4); vf_le("outward normals", badn, 1e-4);
    for (unsigned t = 0; t < nf; t++) { double a[3], b[3], c[3]; const float *x = V + 3*F[3*t], *y = V + 3*F[3*t+1], *z = V + 3*F[3*t+2]; for (int k = 0; k < 3; k++) { a[k] = (double)(y[k] - x[k]); b[k] = (double)(z[k] - x[k]); } ref_cross(a, b, c); double ar = sqrt(ref_dot(c, c)) / 2; lo = fmin(lo, ar); hi = fmax(hi, ar); area += ar; }
    vf_true("triangles of about one size", lo > .02 && hi < .06); vf_near("cover the sphere once", area, 4*M_PI*r*r, .5); fin(g, o, live);
}
/* ---- a scene ---- */
static void tri(struct aa_rx_geom **g, struct aa_rx_geom_opt *o, int idx, int nrm, float *v, unsigned *f) { struct aa_rx_mesh *m = aa_rx_mesh_create(); aa_rx_mesh_set_vertices(m, 3, v, 0); if (idx) aa_rx_mesh_set_indices(m, 1, f, 0); if (nrm) aa_rx_mesh_set_normals(m, 3, v, 0); *g = aa_rx_geom_mesh(o, m); aa_rx_mesh_destroy(m); }
// vf: h_render max_paths=6000 budget=400
void h_render(void) {
    aa_gl_init(); gl_reset(); aa_mem_region_local_destroy(); size_t live = vf_live(); struct aa_rx_sg *sg = aa_rx_sg_create(); double q1[4] = {0, 0, 0, 1}, z[3] = {0}; static const char *FN[3] = {"a", "b", "c"}; for (int i = 0; i < 3; i++) aa_rx_sg_add_frame_fixed(sg, i == 2 ? "a" : "", FN[i], q1, z); aa_rx_sg_init(sg);
    static float v[3][9]; static unsigned f[3] = {2, 0, 1}; struct aa_rx_geom *g[3]; int vis[3], cl[3], fr[3] = {2, 0, 0}; double sc[3], sp[3][3]; size_t what = vf_pick("flags", 4);
    for (int k = 0; k < 3; k++) { for (int i = 0; i < 9; i++) v[k][i] = (float)(10*k + i); struct aa_rx_geom_opt *o = aa_rx_geom_opt_create(); vis[k] = (k + (int)what) % 2; cl[k] = ((k + (int)what) / 2) % 2; if (what == 3) vis[k] = cl[k] = k != 1; sc[k] = vf_range("scale", .1, 4); for (int i = 0; i < 3; i++) sp[k][i] = vf_range("specular", 0, 1); aa_rx_geom_opt_set_visual(o, vis[k]); aa_rx_geom_opt_set_collision(o, cl[k]); aa_rx_geom_opt_set_scale(o, sc[k]); aa_rx_geom_opt_set_specular3(o, sp[k][0], sp[k][1], sp[k][2]); tri(&g[k], o, k != 1, k == 0, v[k], f); aa_rx_geom_opt_destroy(o); aa_rx_geom_attach(sg, FN[fr[k]], g[k]); }
    struct aa_gl_globals *G = aa_gl_globals_create(); int sv = (int)vf_pick("show_visual", 2), scl = (int)vf_pick("show_collision", 2), mk = (int)vf_pick("masked", 3); aa_gl_globals_set_show_visual(G, sv); aa_gl_globals_set_show_collision(G, scl); if (mk == 1) aa_gl_globals_mask(G, (size_t)aa_rx_sg_frame_id(sg, "a"), 1); if (mk == 2) aa_gl_globals_mask(G, (size_t)aa_rx_sg_frame_id(sg, "c"), 1);
    double TF[3*8], E[7]; for (int i = 0; i < 24; i++) TF[i] = 50; for (int i = 0; i < 3; i++) { vf_unit("q", 4, TF + 8*i); for (int k = 4; k < 7; k++) TF[8*i+k] = vf_range("v", -4, 4); } vf_unit("cam", 4, E); for (int k = 4; k < 7; k++) E[k] = vf_range("cam", -4, 4); aa_gl_globals_set_camera(G, E); double f0 = 1, a0 = vf_range("aspect", .5, 2); aa_gl_globals_set_perspective(G, f0, a0, .5, 1.5); double LP[3]; for (int k = 0; k < 3; k++) LP[k] = vf_range("light", -4, 4); aa_gl_globals_set_light_position(G, LP);
    for (int rep = 0; rep < 2; rep++) {
        nd = 0; ncleared = 0; memset(Uset, 0, sizeof Uset); aa_rx_sg_render(sg, G, 3, TF, 8); vf_true("cleared once, in order", ncleared == 1 && !bad && cur_p == 0);
        eqf("light", 3, U[3], LP); eqf("camera position", 3, U[9], E + 4); vf_true("uniforms set", Uset[3] == 3 && Uset[4] == 3 && Uset[5] == 3 && Uset[6] == 1 && Uset[9] == 3 && Uset[11] == 16);
        { double T[12], I[12], M[16] = {0}, P[16] = {0}, C[16], t = tan(f0/2); ref_qv2t(E, E + 4, T); ref_tinv(T, I); for (int j = 0; j < 4; j++) { for (int i = 0; i < 3; i++) M[4*j+i] = I[3*j+i]; M[4*j+3] = j == 3; } P[0] = 1/(a0*t); P[5] = (double)(float)(1/t); P[10] = -2; P[11] = -1; P[14] = -1.5; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { C[4*j+i] = 0; for (int k = 0; k < 4; k++) C[4*j+i] += P[4*k+i]*M[4*j+k]; } for (int i = 0; i < 16; i++) vf_near("camera and perspective", (double)U[11][i], C[i], 1e-4); }
        unsigned n = 0;
        for (int k = 0; k < 3; k++) {
            struct aa_gl_buffers *b = g[k]->gl_buffers; vf_true("has buffers", b != 0); if (!b) continue; int id = (int)aa_rx_sg_frame_id(sg, FN[fr[k]]), want = ((vis[k] && sv) || (cl[k] && scl)) && !(mk == 1 && fr[k] == 0) && !(mk == 2 && fr[k] == 2); struct draw *d = 0; for (unsigned i = 0; i < nd; i++) if (D[i].pos == b->values) { vf_true("drawn once", !d); d = &D[i]; } vf_true("drawn exactly when shown", !d == !want); if (!d) continue; n++;
            double T[12]; ref_qv2t(TF + 8*id, TF + 8*id + 4, T); for (int j = 0; j < 4; j++) { for (int i = 0; i < 3; i++) { vf_near("at the pose of its frame, scaled", (double)d->model[4*j+i], j < 3 ? sc[k]*T[3*j+i] : T[9+i], 1e-4); if (j < 3) vf_near("normals rotate with the frame", (double)d->rot[3*j+i], T[3*j+i], 1e-4); } vf_eq("last row", (double)d->model[4*j+3], j == 3); } eqf("specular", 3, d->spec, sp[k]);
            vf_true("as triangles", d->mode == GL_TRIANGLES && d->count == 3 && d->npos == 3); vf_true("vertices", B[d->pos].size == 36 && !memcmp(B[d->pos].data, v[k], 36)); vf_true("indices exactly when given", d->elems == (k != 1) && (k == 1 || (d->e == b->indices && B[d->e].size == 12 && !memcmp(B[d->e].data, f, 12)))); vf_true("normals exactly when given", k == 0 ? d->nrm == b->normals && d->nnrm == 3 && B[d->nrm].size == 36 && !memcmp(B[d->nrm].data, v[k], 36) : d->nrm == 0); vf_true("no texture here", d->uv == 0 && d->tex == 0);
        }
        vf_true("nothing else is drawn", n == nd);
    }
    aa_gl_globals_destroy(G); aa_rx_sg_destroy(sg); unsigned lb = 0; for (unsigned i = 1; i <= nb; i++) lb += B[i].live != 0; vf_true("GL objects wait for the GL thread", lb == nb && !bad); aa_gl_buffers_cleanup(); for (unsigned i = 1; i <= nb; i++) vf_true("GL objects released", !B[i].live); vf_true("each once", !bad); gl_reset(); aa_mem_region_local_destroy(); vf_true("memory released", vf_live() == live);
}
