#include "ref.h"
#include "amino.h"
/* P06: one integration step with constant velocity is multiplication by the exponential. */
static void ref_exp6(const double *u, double th, const double *p, double *T) {
    double s = sin(th), c = cos(th), K[9] = {0, u[2], -u[1], -u[2], 0, u[0], u[1], -u[0], 0}, V[9];
    ref_aa2r(u, th, T);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) V[i+3*j] = (i == j)*s/th + (1-c)/th * K[i+3*j] + (th - s)/th * u[i]*u[j];
    ref_mv(V, p, T+9);
}
/* w = u th/dt */
#define ROT double u[3], w[3], q0[4], q1[4], e[4], r[4], R0[9], R1[9], E[9], RR[9]; vf_unit("u", 3, u); vf_unit("q", 4, q0); \
    double th = vf_range("th", 0.02, 6.0), dt = vf_range("dt", 0.01, 10) * (vf_pick("backwards", 2) ? -1 : 1); for (int i = 0; i < 3; i++) w[i] = u[i]*th/dt; \
    ref_aa2q(u, th, e); ref_qmul(e, q0, r);
void h_qsvel(void) { ROT
    aa_tf_qsvel(q0, w, dt, q1); vf_eqn("qsvel", 4, q1, r);
    double x[4] = {w[0]/2, w[1]/2, w[2]/2, 0}, dq[4]; ref_qmul(x, q0, dq);
    aa_tf_qsdiff(q0, dq, dt, q1); vf_eqn("qsdiff", 4, q1, r);
}
void h_rsvel(void) { ROT
    ref_q2r(q0, R0); ref_aa2r(u, th, E); ref_rmul(E, R0, RR);
    aa_tf_rotmat_svel(R0, w, dt, R1); vf_eqn("rotmat_svel", 9, R1, RR);
}
void h_qsacc(void) {    /* acceleration along the velocity axis: the angle is v dt + a dt^2/2 */
    double u[3], v[3], a[3], q0[4], q1[4], e[4], r[4]; vf_unit("u", 3, u); vf_unit("q", 4, q0);
    double th = vf_range("th", 0.02, 6.0), dt = vf_range("dt", 0.01, 10) * (vf_pick("backwards", 2) ? -1 : 1), k = vf_real("k");
    for (int i = 0; i < 3; i++) { a[i] = k*u[i]; v[i] = u[i]*(th/dt - k*dt/2); }
    ref_aa2q(u, th, e); ref_qmul(e, q0, r);
    aa_tf_qsacc(q0, v, a, dt, q1); vf_eqn("qsacc", 4, q1, r);
}
void h_rk(void) {       /* one RK1/RK4 step of dq/dt = 1/2 w q: the truncated exponential series */
    double q[4], w[3], dq[4], r1[4], r4[4], q1[4]; vf_reals("q", 4, q); vf_reals("w", 3, w); double dt = vf_real("dt");
    double x[4] = {w[0]*dt/2, w[1]*dt/2, w[2]*dt/2, 0}, t[4], n[4]; double f = 1;
    cpy(4, q, t); cpy(4, q, r4);
    for (int k = 1; k <= 4; k++) { ref_qmul(x, t, n); cpy(4, n, t); f *= k; for (int i = 0; i < 4; i++) r4[i] += t[i]/f; if (k == 1) for (int i = 0; i < 4; i++) r1[i] = q[i] + t[i]; }
    aa_tf_qvelrk1(q, w, dt, q1); vf_eqn("qvelrk1", 4, q1, r1);
    aa_tf_qvelrk4(q, w, dt, q1); vf_eqn("qvelrk4", 4, q1, r4);
    vf_reals("dq", 4, dq); aa_tf_qrk1(q, dq, dt, q1); for (int i = 0; i < 4; i++) vf_eq("qrk1", q1[i], q[i] + dt*dq[i]);
}
#define RIG double u[3], q0[4], v0[3], dx[6], T0[12], T1[12], X[12], RT[12], c[3], p[3]; vf_unit("u", 3, u); in_qv("q", "v", q0, v0); \
    double th = vf_range("th", 0.02, 6.0), dt = vf_range("dt", 0.01, 10) * (vf_pick("backwards", 2) ? -1 : 1); vf_reals("dv", 3, dx); for (int i = 0; i < 3; i++) dx[3+i] = u[i]*th/dt; \
    ref_qv2t(q0, v0, T0); ref_cross(v0, dx+3, c); for (int i = 0; i < 3; i++) p[i] = dt*(dx[i] + c[i]); ref_exp6(u, th, p, X); ref_tmul(X, T0, RT);
void h_tsvel(void) { RIG aa_tf_tfmat_svel(T0, dx, dt, T1); vf_eqn("tfmat_svel", 12, T1, RT); }
static void dqof(const double *q, const double *w, double *dq) { double x[4] = {w[0]/2, w[1]/2, w[2]/2, 0}; ref_qmul(x, q, dq); }
void h_esvel(void) { RIG double E0[7], E1[7], dE[7]; cpy(4, q0, E0); cpy(3, v0, E0+4);
    aa_tf_qutr_svel(E0, dx, dt, E1); ref_qv2t(E1, E1+4, T1); vf_eqn("qutr_svel", 12, T1, RT);
    dqof(q0, dx+3, dE); cpy(3, dx, dE+4);
    aa_tf_qutr_sdiff(E0, dE, dt, E1); ref_qv2t(E1, E1+4, T1); vf_eqn("qutr_sdiff", 12, T1, RT);
}
static void ckD(const char *l, const double *S, const double *T) {     /* dual quaternion S is the rigid transform T */
    double A[12], v[8], c[4]; ref_q2r(S, A); ref_qconj(S, c); ref_qmul(S+4, c, v);
    for (int i = 0; i < 3; i++) A[9+i] = 2*v[i];
    vf_eqn(l, 12, A, T); vf_eq(l, S[0]*S[4]+S[1]*S[5]+S[2]*S[6]+S[3]*S[7], 0);
}
void h_dsvel(void) { RIG double S0[8], S1[8]; ref_qv2d(q0, v0, S0);
    aa_tf_duqu_svel(S0, dx, dt, S1); ckD("duqu_svel", S1, RT); }
void h_dstwist(void) { RIG double S0[8], S1[8], t[8]; ref_qv2d(q0, v0, S0);
    for (int i = 0; i < 3; i++) { t[i] = dx[3+i]; t[4+i] = dx[i] + c[i]; } t[3] = t[7] = 0;
    aa_tf_duqu_stwist(S0, t, dt, S1); ckD("duqu_stwist", S1, RT); }
void h_dsdiff(void) { RIG double S0[8], S1[8], d[8], a[4] = {v0[0]/2, v0[1]/2, v0[2]/2, 0}, b[4] = {dx[0]/2, dx[1]/2, dx[2]/2, 0}, x[4], y[4]; ref_qv2d(q0, v0, S0);
    dqof(q0, dx+3, d); ref_qmul(b, q0, x); ref_qmul(a, d, y); for (int i = 0; i < 4; i++) d[4+i] = x[i] + y[i];
    aa_tf_duqu_sdiff(S0, d, dt, S1); ckD("duqu_sdiff", S1, RT); }
void h_still(void) {    /* zero angular velocity: the rotation is kept and the translation moves on a line */
    double q0[4], v0[3], dx[6] = {0}, T0[12], T1[12], RT[12], E0[7], E1[7], S0[8], S1[8], q1[4]; in_qv("q", "v", q0, v0); vf_reals("dv", 3, dx); double dt = vf_real("dt");
    ref_qv2t(q0, v0, T0); cpy(12, T0, RT); for (int i = 0; i < 3; i++) RT[9+i] += dt*dx[i];
    aa_tf_tfmat_svel(T0, dx, dt, T1); vf_eqn("tfmat_svel still", 12, T1, RT);
    cpy(4, q0, E0); cpy(3, v0, E0+4); aa_tf_qutr_svel(E0, dx, dt, E1); ref_qv2t(E1, E1+4, T1); vf_eqn("qutr_svel still", 12, T1, RT);
    ref_qv2d(q0, v0, S0); aa_tf_duqu_svel(S0, dx, dt, S1); ckD("duqu_svel still", S1, RT);
    aa_tf_qsvel(q0, dx+3, dt, q1); vf_eqn("qsvel still", 4, q1, q0);
}
