#include "ref.h"
#include "amino.h"
#include "amino/mat.h"
/* P12: derivatives of exponential and logarithm.  q = s exp(th u), perturbed along ds, dth and du (perpendicular to u):
 * ln q = (th u, ln s), so d ln q = (dth u + th du, ds/s). */
struct in { double u[3], th, s, q[4], ds, dth, du[3], dq[4]; };
static void dir(const char *n, const struct in *x, double *ds, double *dth, double *du) {
    double m[3]; char b[8] = "m_"; b[1] = n[0]; b[2] = 0; vf_reals(b, 3, m); ref_cross(x->u, m, du);
    b[0] = 's'; *ds = vf_real(b); b[0] = 't'; *dth = vf_real(b);
}
static void val(const struct in *x, double *q) { for (int i = 0; i < 3; i++) q[i] = x->s*sin(x->th)*x->u[i]; q[3] = x->s*cos(x->th); }
static void der(const struct in *x, double ds, double dth, const double *du, double *dq) {
    double s = sin(x->th), c = cos(x->th);
    for (int i = 0; i < 3; i++) dq[i] = ds*s*x->u[i] + x->s*(c*dth*x->u[i] + s*du[i]);
    dq[3] = ds*c - x->s*s*dth;
}
static void setup(struct in *x, int unit, double lo, double hi) {
    vf_unit("u", 3, x->u); x->th = vf_range("th", lo, hi); x->s = unit ? 1 : vf_range("s", 0.1, 10);
    val(x, x->q); dir("a", x, &x->ds, &x->dth, x->du); if (unit) x->ds = 0; der(x, x->ds, x->dth, x->du, x->dq);
}
static void mv(int n, const double *J, size_t ld, const double *x, double *y) { for (int i = 0; i < n; i++) { y[i] = 0; for (int j = 0; j < n; j++) y[i] += J[i + ld*j]*x[j]; } }
void h_qln_jac(void) {
    struct in x; setup(&x, 0, 0.01, 3.1); size_t ld = 4 + vf_pick("ld", 2); double J[20], r[4]; struct aa_dmat M; aa_dmat_view(&M, 4, 4, J, ld);
    for (int i = 0; i < 20; i++) J[i] = 7;
    aa_tf_qln_jac(x.q, &M); mv(4, J, ld, x.dq, r);
    for (int i = 0; i < 3; i++) vf_eq("qln_jac", r[i], x.dth*x.u[i] + x.th*x.du[i]);
    vf_eq("qln_jac w", r[3]*x.s, x.ds);
}
void h_qln_jac_id(void) {
    double s = vf_range("s", 0.1, 10), q[4] = {0,0,0,s}, J[16], E[16]; struct aa_dmat M; aa_dmat_view(&M, 4, 4, J, 4); aa_tf_qln_jac(q, &M);
    for (int i = 0; i < 16; i++) E[i] = i % 5 ? 0 : 1/s;
    vf_eqn("qln_jac at identity", 16, J, E);
}
void h_qduln(void) {
    struct in x; setup(&x, 1, 0.01, 3.1); double r[3], E[3]; for (int i = 0; i < 3; i++) E[i] = x.dth*x.u[i] + x.th*x.du[i];
    aa_tf_qduln(x.q, x.dq, r); vf_eqn("qduln", 3, r, E);
    aa_tf_qdulnj(x.q, x.dq, r); vf_eqn("qdulnj", 3, r, E);
}
void h_qdpexp(void) {
    struct in x; setup(&x, 1, 0.01, 6); double e[3], de[3], r[4]; for (int i = 0; i < 3; i++) { e[i] = x.th*x.u[i]; de[i] = x.dth*x.u[i] + x.th*x.du[i]; }
    aa_tf_qdpexp(e, de, r); vf_eqn("qdpexp", 4, r, x.dq);
    aa_tf_qdpexpj(e, de, r); vf_eqn("qdpexpj", 4, r, x.dq);
}
void h_qdpexp_0(void) {
    double e[3] = {0,0,0}, de[3], r[4], E[4]; vf_reals("de", 3, de); cpy(3, de, E); E[3] = 0;
    aa_tf_qdpexp(e, de, r); vf_eqn("qdpexp at zero", 4, r, E);
    aa_tf_qdpexpj(e, de, r); vf_eqn("qdpexpj at zero", 4, r, E);
}
/* second derivative: q(a,b) with q_a = d, q_b = x, q_ab = m; J_dr(q,d) x + J_rr m = (ln q)_ab */
void h_duqu_ln_jac(void) {
    struct in x; setup(&x, 0, 0.05, 3.05);
    double s2, t2, r[3], qb[4], m[4], S[8], J[8*9], y[4], z[4], pr, s = sin(x.th), c = cos(x.th); size_t ld = 8 + vf_pick("ld", 2);
    dir("b", &x, &s2, &t2, r); der(&x, s2, t2, r, qb); pr = ref_dot(x.du, r);
    for (int i = 0; i < 3; i++) m[i] = x.ds*(c*t2*x.u[i] + s*r[i]) + s2*(c*x.dth*x.u[i] + s*x.du[i])
            + x.s*(-s*x.dth*t2*x.u[i] + c*x.dth*r[i] + c*t2*x.du[i] - s*pr*x.u[i]);
    m[3] = -x.ds*s*t2 - s2*s*x.dth - x.s*c*x.dth*t2;
    cpy(4, x.q, S); cpy(4, x.dq, S+4);
    struct aa_dmat M; aa_dmat_view(&M, 8, 8, J, ld); for (int i = 0; i < 72; i++) J[i] = 7;
    aa_tf_duqu_ln_jac(S, &M);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { vf_eq("duqu_ln_jac rd", J[i + ld*(4+j)], 0); vf_eq("duqu_ln_jac dd=rr", J[4+i + ld*(4+j)], J[i + ld*j]); }
    mv(4, J, ld, qb, y); for (int i = 0; i < 3; i++) vf_eq("duqu_ln_jac rr", y[i], t2*x.u[i] + x.th*r[i]); vf_eq("duqu_ln_jac rr w", y[3]*x.s, s2);
    mv(4, J + 4, ld, qb, y); mv(4, J, ld, m, z);
    for (int i = 0; i < 3; i++) vf_eq("duqu_ln_jac dr", y[i] + z[i], x.dth*r[i] + t2*x.du[i] - x.th*pr*x.u[i]);
    vf_eq("duqu_ln_jac dr w", (y[3] + z[3])*x.s*x.s, -x.ds*s2);
}
void h_duqu_ln_jac_id(void) {
    double s = vf_range("s", 0.1, 10), S[8] = {0,0,0,s}, J[64], E[64]; struct aa_dmat M; aa_dmat_view(&M, 8, 8, J, 8); vf_reals("d", 4, S+4); aa_tf_duqu_ln_jac(S, &M);
    for (int i = 0; i < 64; i++) E[i] = i % 9 ? 0 : 1/s;
    const double *d = S+4;      /* D2 ln(s)[d,x] = -(d x + x d)/(2 s^2) */
    for (int i = 0; i < 3; i++) { E[4+i + 8*i] = -d[3]/(s*s); E[4+i + 24] = -d[i]/(s*s); E[7 + 8*i] = d[i]/(s*s); }
    E[7 + 24] = -d[3]/(s*s);
    vf_eqn("duqu_ln_jac at identity", 64, J, E);
}
void h_conj_jac(void) {
    size_t ld = 8 + vf_pick("ld", 2); double S[8], C[8], r[8], J[72]; vf_reals("S", 8, S); struct aa_dmat M; aa_dmat_view(&M, 8, 8, J, ld); for (int i = 0; i < 72; i++) J[i] = 7;
    aa_tf_duqu_conj_jac(&M); ref_dconj(S, C); mv(8, J, ld, S, r); vf_eqn("duqu_conj_jac", 8, r, C);
}
/* small-angle branches: outputs are linear in (dth, du), so two tangents; three axes, every angle in the branch */
static double small(double *u, double *du) {
    static const double U[3][3] = {{1,0,0}, {0,0.6,-0.8}, {2./3,-1./3,2./3}}, D[3][3] = {{0,0.6,0.8}, {1,0,0}, {2./3,2./3,-1./3}};
    size_t k = vf_pick("axis", 3), t = vf_pick("tangent", 2);
    for (int i = 0; i < 3; i++) { u[i] = U[k][i]; du[i] = t ? D[k][i] : 0; }
    return t ? 0 : 1;
}
// vf: h_small_qduln taylor=1
void h_small_qduln(void) {
    double u[3], du[3], q[4], dq[4], r[3], dth = small(u, du), th = vf_range("th", 1e-9, 1.2e-4);
    for (int i = 0; i < 3; i++) { q[i] = sin(th)*u[i]; dq[i] = cos(th)*dth*u[i] + sin(th)*du[i]; } q[3] = cos(th); dq[3] = -sin(th)*dth;
    aa_tf_qduln(q, dq, r); for (int i = 0; i < 3; i++) vf_near("qduln small", r[i], dth*u[i] + th*du[i], 1e-9);
}
// vf: h_small_qdpexp taylor=1
void h_small_qdpexp(void) {
    double u[3], du[3], e[3], de[3], r[4], dth = small(u, du), th = vf_range("th", 1e-9, 1.2e-4);
    for (int i = 0; i < 3; i++) { e[i] = th*u[i]; de[i] = dth*u[i] + th*du[i]; }
    aa_tf_qdpexp(e, de, r); for (int i = 0; i < 3; i++) vf_near("qdpexp small", r[i], cos(th)*dth*u[i] + sin(th)*du[i], 1e-12);
    vf_near("qdpexp small w", r[3], -sin(th)*dth, 1e-12);
}
