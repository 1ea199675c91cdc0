#include "ref.h"
#include "amino.h"
#include "amino/mat.h"
#include "amino/diffeq.h"
/* P31: integration of differential equations */
/* ---- order of the one-step methods: a method of order p integrates the system of every rooted tree with at most p nodes exactly */
static const signed char T[17][5] = {   /* children of each tree's root: trees of 1..5 nodes */
    {-1}, {0,-1}, {0,0,-1}, {1,-1}, {0,0,0,-1}, {0,1,-1}, {2,-1}, {3,-1},
    {0,0,0,0,-1}, {0,0,1,-1}, {0,2,-1}, {0,3,-1}, {1,1,-1}, {4,-1}, {5,-1}, {6,-1}, {7,-1}};
static const int ORD[17] = {1,2,3,3,4,4,4,4,5,5,5,5,5,5,5,5,5};
struct trees { int use_t; double t0; const double *s; };
static void ftree(const void *cx_, double t, const double *x, double *dx) {   /* dx_tau = s_tau * product of the children; the one-node tree as a state or as the time */
    const struct trees *c = cx_; double X[17]; for (int i = 0; i < 17; i++) X[i] = x[i]; if (c->use_t) X[0] = t - c->t0;
    for (int i = 0; i < 17; i++) { double p = c->s[i]; for (int j = 0; T[i][j] >= 0; j++) p *= X[(int)T[i][j]]; dx[i] = p; }
}
static double exact(const double *s, int use_t, int i, double h) {   /* product over children of exact solutions, integrated */
    double p = (i || !use_t ? s[i] : 1); for (int j = 0; T[i][j] >= 0; j++) p *= exact(s, use_t, T[i][j], h); return p * h / ORD[i];
}
static void order_check(const char *l, const struct trees *c, const double *x, double h, int p) { for (int i = 0; i < 17; i++) if (ORD[i] <= p && !(i == 0 && c->use_t)) vf_eq(l, x[i], exact(c->s, c->use_t, i, h)); }
static double tsetup(struct trees *c, double *s, double *x0) { for (int i = 0; i < 17; i++) { s[i] = 1; x0[i] = 0; } s[0] = vf_range("s", -2, 2); s[1] = vf_range("s1", -2, 2); c->use_t = (int)vf_pick("use_t", 2); c->t0 = vf_range("t0", -5, 5); c->s = s; if (c->use_t) s[0] = 1; return vf_range("h", -2, 2); }
#define TS struct trees c; double s[17], x0[17], x[17], y[17], k[17*6]; double h = tsetup(&c, s, x0); (void)y; (void)k
void h_order_rk1(void) { TS; aa_odestep_rk1(17, ftree, &c, c.t0, h, x0, x); order_check("RK1 first order", &c, x, h, 1); }
void h_order_rk2(void) { TS; aa_odestep_rk2(17, ftree, &c, c.t0, h, x0, x); order_check("RK2 second order", &c, x, h, 2); }
void h_order_rk4(void) { TS; aa_odestep_rk4(17, ftree, &c, c.t0, h, x0, x); order_check("RK4 fourth order", &c, x, h, 4); }
void h_order_rkf45(void) { TS; ftree(&c, c.t0, x0, k); aa_odestep_rkf45(17, ftree, &c, c.t0, h, x0, k, x, y); order_check("Fehlberg fourth order output", &c, x, h, 4); order_check("Fehlberg fifth order output", &c, y, h, 5); }
void h_order_rkck45(void) { TS; ftree(&c, c.t0, x0, k); aa_odestep_rkck45(17, ftree, &c, c.t0, h, x0, k, x, y); order_check("Cash-Karp fourth order output", &c, x, h, 4); order_check("Cash-Karp fifth order output", &c, y, h, 5); }
void h_order_dorpri45(void) { TS; double f[17]; ftree(&c, c.t0, x0, k); aa_odestep_dorpri45(17, ftree, &c, c.t0, h, x0, k, x, y); order_check("Dormand-Prince order of the first output", &c, x, h, 4); order_check("Dormand-Prince order of the second output", &c, y, h, 4);
    ftree(&c, c.t0 + h, x, f); vf_eqn("last column of k: derivative at the first output", 17, k + 5*17, f); }
void h_order_rkbs23(void) { TS; double f[17]; ftree(&c, c.t0, x0, k); aa_odestep_rkbs23(17, ftree, &c, c.t0, h, x0, k, x, y); order_check("Bogacki-Shampine order of the first output", &c, x, h, 2); order_check("Bogacki-Shampine order of the second output", &c, y, h, 2);
    ftree(&c, c.t0 + h, x, f); vf_eqn("last column of k: derivative at the first output", 17, k + 3*17, f); }
/* one output of each embedded pair has the higher order */
void h_pair_order(void) { TS; int which = (int)vf_pick("method", 2), p = which ? 3 : 5; ftree(&c, c.t0, x0, k); if (which) aa_odestep_rkbs23(17, ftree, &c, c.t0, h, x0, k, x, y); else aa_odestep_dorpri45(17, ftree, &c, c.t0, h, x0, k, x, y); order_check("an output of the higher order", &c, x, h, p); }
void h_dp_x5(void) { TS; ftree(&c, c.t0, x0, k); aa_odestep_dorpri45(17, ftree, &c, c.t0, h, x0, k, x, y); order_check("x5 fifth order", &c, y, h, 5); }
void h_bs_x3(void) { TS; ftree(&c, c.t0, x0, k); aa_odestep_rkbs23(17, ftree, &c, c.t0, h, x0, k, x, y); order_check("x3 third order", &c, y, h, 3); }
/* ---- general states: x' = M x + g + w t, M nilpotent: exact solution is a polynomial of degree <= 4 (n = 3, p >= 4), 2n-1 otherwise */
struct lin { double M[9], g[3], w[3]; size_t n; };
static void flin(const void *cx_, double t, const double *x, double *dx) { const struct lin *c = cx_; for (size_t i = 0; i < c->n; i++) { double a = c->g[i] + c->w[i]*t; for (size_t j = i+1; j < c->n; j++) a += c->M[i + 3*j]*x[j]; dx[i] = a; } }
static void lin_exact(const struct lin *c, double t0, const double *x0, double h, double *x) {   /* sum of h^k/k! d^k x */
    double d[3], v[3]; size_t n = c->n; flin(c, t0, x0, d); for (size_t i = 0; i < n; i++) x[i] = x0[i] + h*d[i]; double f = h;
    for (int k = 2; k <= 5; k++) { f = f*h/k; for (size_t i = 0; i < n; i++) { v[i] = k == 2 ? c->w[i] : 0; for (size_t j = i+1; j < n; j++) v[i] += c->M[i + 3*j]*d[j]; } for (size_t i = 0; i < n; i++) { d[i] = v[i]; x[i] += f*d[i]; } }
}
static void lin_setup(struct lin *c, size_t n, int w, double *x0) { c->n = n; vf_reals("M", 9, c->M); vf_reals("g", 3, c->g); for (int i = 0; i < 3; i++) c->w[i] = w ? vf_real("w") : 0; vf_reals("x0", 3, x0); }
void h_lin(void) {
    struct lin c; int m = (int)vf_pick("method", 9); size_t n = m == 0 ? 1 : m == 1 || m >= 6 ? 2 : 3; int w = !(m == 0 || m == 1); if (m >= 6) w = m == 6; double x0[3], x[4] = {0,0,0,7}, y[4] = {0,0,0,7}, e[3], k[18]; lin_setup(&c, n, w, x0); double t0 = vf_real("t0"), h = vf_real("h"); x[n] = y[n] = 7;
    double o[3] = {x0[0], x0[1], x0[2]}; lin_exact(&c, t0, x0, h, e); flin(&c, t0, x0, k); const char *l = "one step";
    switch (m) { case 0: aa_odestep_rk1(n, flin, &c, t0, h, x0, x); break; case 1: aa_odestep_rk2(n, flin, &c, t0, h, x0, x); break; case 2: aa_odestep_rk4(n, flin, &c, t0, h, x0, x); break; case 3: aa_odestep_rkf45(n, flin, &c, t0, h, x0, k, x, y); break; case 4: aa_odestep_rkck45(n, flin, &c, t0, h, x0, k, x, y); break; case 5: aa_odestep_dorpri45(n, flin, &c, t0, h, x0, k, x, y); break;
        case 6: aa_odestep_rkbs23(n, flin, &c, t0, h, x0, k, x, y); break; case 7: aa_odestep_rkbs23(n, flin, &c, t0, h, x0, k, x, y); break; default: aa_odestep_euler(n, h, k, x0, x); for (size_t i = 0; i < n; i++) e[i] = x0[i] + h*k[i]; }
    vf_eqn(l, n, x, e); if (m >= 3 && m <= 7 && m != 6) vf_eqn("one step, second output", n, y, e); vf_eq("nothing beyond the state written", x[n], 7); vf_eq("nothing beyond the state written", y[n], 7); vf_eqn("start unchanged", 3, x0, o);
}
/* ---- linear simulation */
void h_lsim(void) {
    size_t m = 1 + vf_pick("m", 3), n = vf_pick("n", 3); double A[9], B[9], x[3], u[3], y[4], dt = vf_real("dt"); vf_reals("A", 9, A); vf_reals("B", 9, B); vf_reals("x", 3, x); vf_reals("u", 3, u); n++; y[m] = 7; double d[3];
    for (size_t i = 0; i < m; i++) { d[i] = 0; for (size_t j = 0; j < m; j++) d[i] += A[i + j*m]*x[j]; for (size_t j = 0; j < n; j++) d[i] += B[i + j*m]*u[j]; }
    aa_lsim_dstep(m, n, A, B, x, u, y); vf_eqn("x1 = A x + B u", m, y, d); aa_lsim_estep(m, n, dt, A, B, x, u, y); for (size_t i = 0; i < m; i++) vf_eq("x1 = x + dt (A x + B u)", y[i], x[i] + dt*d[i]); vf_eq("nothing beyond", y[m], 7);
    double dx[3]; aa_sys_affine_t a; a.n = m; a.A = A; a.D = u; aa_sys_affine(&a, 0, x, dx); for (size_t i = 0; i < m; i++) { double s = u[i]; for (size_t j = 0; j < m; j++) s += A[i + j*m]*x[j]; vf_eq("affine system", dx[i], s); }
}
void h_lsim_rk4(void) {   /* fourth-order truncation of the exponential, dimension 1..2 */
    size_t m = 1 + vf_pick("m", 2), n = 1 + vf_pick("n", 2); double A[4], B[4], x[2], u[2], y[2], dt = vf_real("dt"), d[2], v[2], e[2]; vf_reals("A", 4, A); vf_reals("B", 4, B); vf_reals("x", 2, x); vf_reals("u", 2, u);
    for (size_t i = 0; i < m; i++) { d[i] = 0; for (size_t j = 0; j < m; j++) d[i] += A[i + j*m]*x[j]; for (size_t j = 0; j < n; j++) d[i] += B[i + j*m]*u[j]; e[i] = x[i] + dt*d[i]; } double f = dt;
    for (int k = 2; k <= 4; k++) { f = f*dt/k; for (size_t i = 0; i < m; i++) { v[i] = 0; for (size_t j = 0; j < m; j++) v[i] += A[i + j*m]*d[j]; } for (size_t i = 0; i < m; i++) { d[i] = v[i]; e[i] += f*d[i]; } }
    aa_lsim_rk4step(m, n, dt, A, B, x, u, y); vf_eqn("fourth-order step", m, y, e);
}
/* ---- the solver */
#define MAXP 8
struct log { size_t n, cnt, stop; int ret; double t[MAXP], x[MAXP][2], y[MAXP][2]; };
static int chk(void *cx_, double t, double *x, double *y) { struct log *l = cx_; if (l->cnt < MAXP) { l->t[l->cnt] = t; for (size_t i = 0; i < l->n; i++) { l->x[l->cnt][i] = x[i]; l->y[l->cnt][i] = y[i]; } } l->cnt++; return l->cnt >= l->stop ? l->ret : 0; }
static void f2(const void *cx_, double t, const double *x, double *dx) { const double *c = cx_; dx[0] = c[0]*x[1] + c[1]*t; dx[1] = c[2] + c[3]*x[0]; }
static aa_odestep_fixed *const FX[3] = {aa_odestep_rk1, aa_odestep_rk2, aa_odestep_rk4};
void h_sol_fixed(void) {
    static const enum aa_ode_integrator I[3] = {AA_ODE_RK1, AA_ODE_RK2, AA_ODE_RK4}; size_t w = vf_pick("method", 3); double c[4], x0[2], x1[3], o[2], e[2], f[2]; vf_reals("c", 4, c); vf_reals("x0", 2, x0); if (w == 2) c[3] = 0; double t0 = vf_real("t0"), dt = vf_real("dt"); x1[2] = 7;
    struct log l; l.n = 2; l.cnt = 0; l.stop = 1 + vf_pick("steps", 3); l.ret = vf_pick("ret", 2) ? 1 : -3; struct aa_ode_sol_opts op = {0}; for (int i = 0; i < 2; i++) o[i] = x0[i];
    int r = aa_ode_sol(I[w], &op, 2, f2, c, chk, &l, t0, dt, x0, x1); vf_true("result", r == (l.ret > 0 ? 0 : l.ret)); vf_true("stops as soon as the check says so", l.cnt == l.stop);
    double t = t0; for (size_t k = 0; k < l.stop; k++) { FX[w](2, f2, c, t, dt, o, e); t += dt; vf_eq("time passed to the check", l.t[k], t); vf_eqn("state passed to the check", 2, l.x[k], e); f2(c, t, e, f); vf_eqn("derivative passed to the check", 2, l.y[k], f); o[0] = e[0]; o[1] = e[1]; }
    vf_eqn("final state", 2, x1, o); vf_eq("nothing beyond", x1[2], 7);
}
static void f1(const void *cx_, double t, const double *x, double *dx) { const double *c = cx_; dx[0] = c[0]*t*t*t*t + c[1] + 0*x[0]; }   /* error of the embedded pair: K (c0 h^5)^2 */
static void f1b(const void *cx_, double t, const double *x, double *dx) { const double *c = cx_; dx[0] = c[0]*t*t + c[1] + 0*x[0]; }
static aa_odestep_adaptive *const AD[4] = {aa_odestep_rkf45, aa_odestep_rkck45, aa_odestep_dorpri45, aa_odestep_rkbs23};
static void adapt(size_t w) {
    static const enum aa_ode_integrator I[4] = {AA_ODE_RK45_F, AA_ODE_RK45_CK, AA_ODE_RK45_DP, AA_ODE_RK23_BS}; double c[2], x0[1], x1[2]; c[0] = vf_range("c", 0.5, 4); c[1] = vf_range("d", -1, 1); x0[0] = vf_range("x0", -1, 1); x1[1] = 7; double dt = 0.5, t0 = 0.25;
    aa_sys_fun *f = w == 3 ? f1b : f1; struct log l; l.n = 1; l.cnt = 0; l.stop = 1 + vf_pick("steps", 2); l.ret = vf_pick("ret", 2) ? 2 : -1; static const double TD[4] = {1e-12, 1e-13, 1e-12, 1e-7};
    struct aa_ode_sol_opts op = {.adapt_tol_dec = TD[w]*vf_range("tol", 1, 10), .adapt_tol_inc = 0, .adapt_factor_dec = 0.5, .adapt_factor_inc = 1.5}; op.adapt_tol_inc = op.adapt_tol_dec/100;
    int r = aa_ode_sol(I[w], &op, 1, f, c, chk, &l, t0, dt, x0, x1); vf_true("result", r == (l.ret > 0 ? 0 : l.ret)); vf_true("stops as soon as the check says so", l.cnt == l.stop);
    double t = t0, x = x0[0]; for (size_t k = 0; k < l.stop; k++) {
        double K[6], a[1], b[1], g[1], h = l.t[k] - t, err; vf_true("time advances", h > 0); f(c, t, &x, K); AD[w](1, f, c, t, h, &x, K, a, b); vf_eq("state passed to the check: one step of the method", l.x[k][0], b[0]); err = (a[0]-b[0])*(a[0]-b[0]); vf_le("accepted step is within the tolerance", err, op.adapt_tol_dec);
        f(c, l.t[k], l.x[k], g); vf_eq("derivative passed to the check", l.y[k][0], g[0]);
        /* the step tried first, shrunk while its error is too large */
        double q = dt; for (int z = 0; z < 12; z++) { f(c, t, &x, K); AD[w](1, f, c, t, q, &x, K, a, b); double eq = (a[0]-b[0])*(a[0]-b[0]); if (eq > op.adapt_tol_dec) q *= op.adapt_factor_dec; else { vf_eq("step size", h, q); dt = eq < op.adapt_tol_inc ? q*op.adapt_factor_inc : q; break; } }
        t = l.t[k]; x = l.x[k][0]; }
    vf_eq("final state", x1[0], x); vf_eq("nothing beyond", x1[1], 7);
}
void h_sol_f(void) { adapt(0); }
void h_sol_ck(void) { adapt(1); }
void h_sol_dp(void) { adapt(2); }
void h_sol_bs(void) { adapt(3); }
void h_path(void) {
    double c[4], x0[2], o[2], e[2]; vf_reals("c", 4, c); vf_reals("x0", 2, x0); double t0 = vf_real("t0"), dt = vf_real("dt"); int loc = (int)vf_pick("local", 2); struct aa_mem_region *reg = loc ? aa_mem_region_local_get() : aa_mem_region_create(256); void *mark = aa_mem_region_ptr(aa_mem_region_local_get());
    struct log l; l.n = 2; l.cnt = 0; l.stop = 1 + vf_pick("steps", 3); l.ret = vf_pick("ret", 2) ? 1 : -3; struct aa_ode_sol_opts op = {0}; size_t np = 99; double *path = NULL;
    int r = aa_ode_path(AA_ODE_RK2, &op, 2, f2, c, chk, &l, t0, dt, x0, reg, &np, &path); vf_true("result", r == (l.ret > 0 ? 0 : l.ret)); vf_true("number of points", np == l.stop + 1); vf_block("path storage", path, np*2*sizeof(double));
    if (!loc) vf_true("nothing left in the local region", aa_mem_region_ptr(aa_mem_region_local_get()) == mark);
    o[0] = x0[0]; o[1] = x0[1]; double t = t0; for (size_t k = 0; k < np; k++) { vf_eqn("point on the path", 2, path + 2*k, o); aa_odestep_rk2(2, f2, c, t, dt, o, e); t += dt; o[0] = e[0]; o[1] = e[1]; }
    if (loc) aa_mem_region_pop(reg, path); else { aa_mem_region_destroy(reg); }
}
/* ---- finite differences: exact for quadratics */
static double q2(void *cx, const struct aa_dvec *v) { const double *c = cx; double x = v->data[0], y = v->len > 1 ? v->data[v->inc] : 0; return c[0] + c[1]*x + c[2]*y + c[3]*x*x + c[4]*x*y + c[5]*y*y; }
static void v2(void *cx, const struct aa_dvec *v, struct aa_dvec *o) { double *c = cx; for (size_t i = 0; i < o->len; i++) o->data[i*o->inc] = q2(c + 6*i, v); }
void h_grad(void) {
    size_t n = 1 + vf_pick("n", 2), ix = 1 + vf_pick("incx", 2), iy = 1 + vf_pick("incy", 2); double c[6], x[4], o[4], y[4] = {7,7,7,7}, eps = vf_range("eps", 1e-3, 1); vf_reals("c", 6, c); vf_reals("x", 4, x); for (int i = 0; i < 4; i++) o[i] = x[i]; struct aa_dvec vx = AA_DVEC_INIT(n, x, ix), vy = AA_DVEC_INIT(n, y, iy);
    aa_de_grad_fd(q2, c, &vx, eps, &vy); double X = x[0], Y = n > 1 ? x[ix] : 0; vf_eq("d/dx", y[0], c[1] + 2*c[3]*X + c[4]*Y); if (n > 1) vf_eq("d/dy", y[iy], c[2] + c[4]*X + 2*c[5]*Y); vf_eqn("argument unchanged", 4, x, o); for (size_t i = 0; i < 4; i++) if (i % iy || i / iy >= n) vf_eq("nothing else written", y[i], 7);
}
void h_jac(void) {
    size_t m = 1 + vf_pick("m", 2), n = 1 + vf_pick("n", 2), ix = 1 + vf_pick("incx", 2), ld = m + vf_pick("pad", 2); double c[12], x[4], J[6] = {7,7,7,7,7,7}, eps = vf_range("eps", 1e-3, 1); vf_reals("c", 12, c); vf_reals("x", 4, x); struct aa_dvec vx = AA_DVEC_INIT(n, x, ix); struct aa_dmat mj = AA_DMAT_INIT(m, n, J, ld);
    aa_de_jac_fd(v2, c, &vx, eps, &mj); double X = x[0], Y = n > 1 ? x[ix] : 0; for (size_t i = 0; i < m; i++) { const double *d = c + 6*i; vf_eq("df/dx", J[i], d[1] + 2*d[3]*X + d[4]*Y); if (n > 1) vf_eq("df/dy", J[i + ld], d[2] + d[4]*X + 2*d[5]*Y); }
    for (size_t k = 0; k < 6; k++) if (k % ld >= m || k / ld >= n) vf_eq("nothing else written", J[k], 7);
}
/* ---- planar two-link arm */
void h_planar_ik(void) {   /* a reachable target: elbow at e */
    double l[2], e[2], x[2], d[2], ta[2], tb[2]; for (int i = 0; i < 2; i++) { e[i] = vf_range("e", -2, 2); x[i] = vf_range("x", -2, 2); d[i] = x[i] - e[i]; } double w = x[1]*(e[0]*x[1] - e[1]*x[0]); if (vf_pick("side", 2)) vf_assume_lt(0.01, w); else vf_assume_lt(w, -0.01); vf_assume_lt(0.01, x[1]*x[1]); vf_assume_lt(0.04, e[0]*e[0] + e[1]*e[1]); vf_assume_lt(0.04, d[0]*d[0] + d[1]*d[1]);
    l[0] = sqrt(e[0]*e[0] + e[1]*e[1]); l[1] = sqrt(d[0]*d[0] + d[1]*d[1]); vf_hint_root(2*x[1]*(e[0]*x[1] - e[1]*x[0]));
    int r = aa_kin_planar2_ik_theta2(l, x, ta, tb); vf_true("reachable", r == 0); vf_eq("x (a)", l[0]*cos(ta[0]) + l[1]*cos(ta[1]), x[0]); vf_eq("y (a)", l[0]*sin(ta[0]) + l[1]*sin(ta[1]), x[1]); vf_eq("x (b)", l[0]*cos(tb[0]) + l[1]*cos(tb[1]), x[0]); vf_eq("y (b)", l[0]*sin(tb[0]) + l[1]*sin(tb[1]), x[1]);
}
