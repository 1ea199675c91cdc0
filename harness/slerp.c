#include "ref.h"
#include "amino.h"
/* P10: slerp.  q2 = +-exp(th u) q1 with th in (0,pi/2): the short arc from q1 to q2 turns by th about u. */
static void ex(const double *u, double t, double *e) { e[0] = sin(t)*u[0]; e[1] = sin(t)*u[1]; e[2] = sin(t)*u[2]; e[3] = cos(t); }
struct in { double q1[4], q2[4], u[3], th, be, tau, E[4], D[4]; };
static void setup(struct in *s, int body) {
    double e[4];
    vf_unit("q1", 4, s->q1); vf_unit("u", 3, s->u); s->th = vf_range("th", 0.05, 1.5); s->be = vf_range("be", 0.05, 1.6); if (vf_pick("back", 2)) s->be = -s->be;
    s->tau = s->be / s->th;
    ex(s->u, s->th, e); if (body) ref_qmul(s->q1, e, s->q2); else ref_qmul(e, s->q1, s->q2);
    if (vf_pick("far", 2)) for (int i = 0; i < 4; i++) s->q2[i] = -s->q2[i];
    ex(s->u, s->be, e); if (body) ref_qmul(s->q1, e, s->E); else ref_qmul(e, s->q1, s->E);
    double w[4] = {s->th*s->u[0], s->th*s->u[1], s->th*s->u[2], 0}; if (body) ref_qmul(s->E, w, s->D); else ref_qmul(w, s->E, s->D);
}
void h_slerp(void) { struct in s; double r[4]; setup(&s, 0); aa_tf_qslerp(s.tau, s.q1, s.q2, r); vf_eqn("qslerp", 4, r, s.E); }
void h_slerpalg(void) { struct in s; double r[4]; setup(&s, 1); aa_tf_qslerpalg(s.tau, s.q1, s.q2, r); vf_eqn("qslerpalg", 4, r, s.E); }
void h_diff(void) { struct in s; double r[4]; setup(&s, 0); aa_tf_qslerpdiff(s.tau, s.q1, s.q2, r); vf_eqn("qslerpdiff", 4, r, s.D); }
void h_diffalg(void) { struct in s; double r[4]; setup(&s, 1); aa_tf_qslerpdiffalg(s.tau, s.q1, s.q2, r); vf_eqn("qslerpdiffalg", 4, r, s.D); }
void h_ends(void) {
    double q1[4], q2[4], r[4], u[3], e[4]; vf_unit("q1", 4, q1); vf_unit("u", 3, u); double th = vf_range("th", 0.001, 1.57), tau = vf_pick("tau", 2);
    ex(u, th, e); ref_qmul(e, q1, q2); if (vf_pick("far", 2)) for (int i = 0; i < 4; i++) q2[i] = -q2[i];
    aa_tf_qslerp(tau, q1, q2, r); ck_qsame("qslerp end", r, tau ? q2 : q1);
    aa_tf_qslerpalg(tau, q1, q2, r); ck_qsame("qslerpalg end", r, tau ? q2 : q1);
}
void h_same(void) {
    double q1[4], q2[4], r[4], z[4] = {0,0,0,0}; vf_unit("q1", 4, q1); double tau = vf_range("tau", 0, 1);
    cpy(4, q1, q2);
    aa_tf_qslerp(tau, q1, q2, r); vf_eqn("qslerp equal ends", 4, r, q1);
    aa_tf_qslerpalg(tau, q1, q2, r); vf_eqn("qslerpalg equal ends", 4, r, q1);
    aa_tf_qslerpdiff(tau, q1, q2, r); vf_eqn("qslerpdiff equal ends", 4, r, z);
    aa_tf_qslerpdiffalg(tau, q1, q2, r); vf_eqn("qslerpdiffalg equal ends", 4, r, z);
}
/* q1(t) and q2(t) = +-exp(th(t) u(t)) q1(t) move; the derivative of slerp(tau(t), q1(t), q2(t)) = exp(be(t) u(t)) q1(t), be = tau th */
void h_chain(void) {
    double q1[4], dq1[4], q2[4], dq2[4], u[3], du[3], w[3], e[4], de[4], f[4], df[4], r[4], dr[4], E[4], D[4], a[4], b[4];
    vf_unit("q1", 4, q1); vf_unit("u", 3, u); vf_reals("w", 3, w); vf_reals("m", 3, a);
    double W[4] = {w[0]/2, w[1]/2, w[2]/2, 0}; ref_qmul(W, q1, dq1); ref_cross(u, a, du);
    double th = vf_range("th", 0.05, 1.5), be = vf_range("be", -1.6, 1.6), dth = vf_real("dth"), dtau = vf_real("dtau"), tau = be / th, dbe = dtau * th + tau * dth;
    ex(u, th, e); ex(u, be, f);
    for (int i = 0; i < 3; i++) { de[i] = cos(th)*dth*u[i] + sin(th)*du[i]; df[i] = cos(be)*dbe*u[i] + sin(be)*du[i]; }
    de[3] = -sin(th)*dth; df[3] = -sin(be)*dbe;
    ref_qmul(e, q1, q2); ref_qmul(de, q1, a); ref_qmul(e, dq1, b); for (int i = 0; i < 4; i++) dq2[i] = a[i] + b[i];
    ref_qmul(f, q1, E); ref_qmul(df, q1, a); ref_qmul(f, dq1, b); for (int i = 0; i < 4; i++) D[i] = a[i] + b[i];
    if (vf_pick("far", 2)) for (int i = 0; i < 4; i++) { q2[i] = -q2[i]; dq2[i] = -dq2[i]; }
    aa_tf_qslerpchaindiff(tau, dtau, q1, dq1, q2, dq2, r, dr);
    vf_eqn("qslerpchaindiff q", 4, r, E); vf_eqn("qslerpchaindiff dq", 4, dr, D);
}
/* equal ends moving with the same derivative: slerp stays on q1 */
void h_chain_same(void) {
    double q1[4], dq1[4], q2[4], dq2[4], w[3], r[4], dr[4]; vf_unit("q1", 4, q1); vf_reals("w", 3, w); double W[4] = {w[0], w[1], w[2], 0}; ref_qmul(W, q1, dq1);
    double s = vf_pick("far", 2) ? -1 : 1; for (int i = 0; i < 4; i++) { q2[i] = s*q1[i]; dq2[i] = s*dq1[i]; }
    aa_tf_qslerpchaindiff(vf_range("tau", 0, 1), vf_real("dtau"), q1, dq1, q2, dq2, r, dr);
    vf_eqn("qslerpchaindiff q equal ends", 4, r, q1); vf_eqn("qslerpchaindiff dq equal ends", 4, dr, dq1);
}
