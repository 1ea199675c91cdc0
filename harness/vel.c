#include "ref.h"
#include "amino.h"
AA_API void aa_tf_tfmat_vel2diff(const double T[12], const double dx[6], double dT[12]);
AA_API void aa_tf_tfmat_diff2vel(const double T[12], const double dT[12], double dx[6]);
/* P05: velocities, time derivatives and twists.  Reference: the derivative of the defining product. */
#define QV(q,v,n) double q[4], v[3]; in_qv(n "q", n "v", q, v);
static void ref_dq(const double *q, const double *w, double *dq) {      /* 1/2 w q */
    double x[4] = {w[0]/2, w[1]/2, w[2]/2, 0}; ref_qmul(x, q, dq);
}
static void ref_dS(const double *q, const double *v, const double *dq, const double *dv, double *dS) {
    double a[4] = {v[0]/2, v[1]/2, v[2]/2, 0}, b[4] = {dv[0]/2, dv[1]/2, dv[2]/2, 0}, x[4], y[4];
    cpy(4, dq, dS); ref_qmul(b, q, x); ref_qmul(a, dq, y); for (int i = 0; i < 4; i++) dS[4+i] = x[i] + y[i];
}
void h_q(void) {
    double q[4], w[3], d[4], r[4], x[3]; vf_unit("q", 4, q); vf_reals("w", 3, w);
    ref_dq(q, w, r);
    aa_tf_qvel2diff(q, w, d); (vf_eqn)("qvel2diff", 4, d, r);
    aa_tf_qdiff2vel(q, r, x); vf_eqn("qdiff2vel", 3, x, w);
    vf_eq("tangent", d[0]*q[0]+d[1]*q[1]+d[2]*q[2]+d[3]*q[3], 0);
}
void h_q_point(void) {      /* d/dt (q p q*) = w x (q p q*) */
    double q[4], w[3], d[4], p[3], P[4], a[4], b[4], c[4], e[4], s[3], x[3], r[3]; vf_unit("q", 4, q); vf_reals("w", 3, w); vf_reals("p", 3, p);
    aa_tf_qvel2diff(q, w, d); cpy(3, p, P); P[3] = 0;
    ref_qmul(d, P, a); ref_qconj(q, c); ref_qmul(a, c, b);
    ref_qmul(q, P, a); ref_qconj(d, c); ref_qmul(a, c, e);
    ref_qrot(q, p, s); ref_cross(w, s, x); for (int i = 0; i < 3; i++) r[i] = b[i] + e[i];
    vf_eqn("velocity of a rotated point", 3, r, x);
}
void h_R(void) {
    double R[9], w[3], d[9], e[9], x[3], dT[12], T[12], dx[6], y[6]; in_rotmat("R", R); vf_reals("w", 3, w);
    for (int j = 0; j < 3; j++) ref_cross(w, R+3*j, e+3*j);
    aa_tf_rotmat_vel2diff(R, w, d); vf_eqn("rotmat_vel2diff", 9, d, e);
    aa_tf_rotmat_diff2vel(R, e, x); vf_eqn("rotmat_diff2vel", 3, x, w);
    cpy(9, R, T); vf_reals("p", 3, T+9); vf_reals("v", 3, dx); cpy(3, w, dx+3);
    aa_tf_tfmat_vel2diff(T, dx, dT); (vf_eqn)("tfmat_vel2diff R", 9, dT, e); (vf_eqn)("tfmat_vel2diff v", 3, dT+9, dx);
    aa_tf_tfmat_diff2vel(T, dT, y); vf_eqn("tfmat_diff2vel", 6, y, dx);
}
void h_qutr(void) {
    QV(q, v, "a") double E[7], dE[7], dx[6], y[6], r[4]; cpy(4, q, E); cpy(3, v, E+4); vf_reals("dx", 6, dx); ref_dq(q, dx+3, r);
    aa_tf_qutr_vel2diff(E, dx, dE); (vf_eqn)("qutr_vel2diff q", 4, dE, r); (vf_eqn)("qutr_vel2diff v", 3, dE+4, dx);
    aa_tf_qutr_diff2vel(E, dE, y); vf_eqn("qutr_diff2vel", 6, y, dx);
}
void h_twist(void) {
    QV(q, v, "a") double w[3], dv[3], tw[3], tv[3], c[3], a[3], b[3], e[3]; vf_reals("w", 3, w); vf_reals("dv", 3, dv);
    ref_cross(v, w, c); for (int i = 0; i < 3; i++) e[i] = dv[i] + c[i];
    aa_tf_qv_vel2twist(q, v, w, dv, tw, tv); vf_eqn("twist w", 3, tw, w); vf_eqn("twist v", 3, tv, e);
    aa_tf_qv_twist2vel(q, v, w, e, a, b); vf_eqn("twist2vel w", 3, a, w); vf_eqn("twist2vel v", 3, b, dv);
    double E[7], t[6], x[6]; cpy(4, q, E); cpy(3, v, E+4); cpy(3, e, t); cpy(3, w, t+3);
    aa_tf_qutr_twist2vel(E, t, x); vf_eqn("qutr_twist2vel v", 3, x, dv); vf_eqn("qutr_twist2vel w", 3, x+3, w);
}
void h_duqu(void) {
    QV(q, v, "a") double S[8], dS[8], dx[6], y[6], r[4], D[8], t[8], tr[8], e[3]; vf_reals("dx", 6, dx); ref_dq(q, dx+3, r);
    ref_qv2d(q, v, S); ref_dS(q, v, r, dx, dS);
    ref_cross(v, dx+3, e); for (int i = 0; i < 3; i++) { tr[i] = dx[3+i]; tr[4+i] = dx[i] + e[i]; } tr[3] = tr[7] = 0;
    aa_tf_duqu_vel2diff(S, dx, D); vf_eqn("duqu_vel2diff", 8, D, dS);
    aa_tf_duqu_diff2vel(S, dS, y); vf_eqn("duqu_diff2vel", 6, y, dx);
    aa_tf_duqu_vel2twist(S, dx, t); vf_eqn("duqu_vel2twist", 8, t, tr);
    aa_tf_duqu_twist2vel(S, tr, y); vf_eqn("duqu_twist2vel", 6, y, dx);
    aa_tf_duqu_twist2diff(S, tr, D); vf_eqn("duqu_twist2diff", 8, D, dS);
    aa_tf_duqu_diff2twist(S, dS, t); vf_eqn("duqu_diff2twist", 8, t, tr);
}
void h_duqu_jac(void) {     /* the velocity Jacobian mapped to the derivative Jacobian, column by column */
    QV(q, v, "a") double S[8], Jv[20], Js[24], D[8]; ref_qv2d(q, v, S);
    vf_reals("J0", 6, Jv); vf_reals("J1", 6, Jv+8);
    struct aa_dmat A = {.rows = 6, .cols = 2, .data = Jv, .ld = 8}, B = {.rows = 8, .cols = 2, .data = Js, .ld = 9};
    for (int i = 0; i < 24; i++) Js[i] = 7;
    aa_tf_duqu_jac_vel2diff(S, &A, &B);
    for (int j = 0; j < 2; j++) { double r[4]; ref_dq(q, Jv+8*j+3, r); ref_dS(q, v, r, Jv+8*j, D); vf_eqn("duqu_jac_vel2diff", 8, Js+9*j, D); }
    vf_eq("padding untouched", Js[8], 7);
}
void h_qdiff_chain(void) {  /* product rule on the real code: (ab)' = a'b + ab' has angular velocity wa + a wb */
    double a[4], b[4], wa[3], wb[3], da[4], db[4], c[4], x[4], y[4], w[3], r[3], e[3];
    vf_unit("a", 4, a); vf_unit("b", 4, b); vf_reals("wa", 3, wa); vf_reals("wb", 3, wb);
    aa_tf_qvel2diff(a, wa, da); aa_tf_qvel2diff(b, wb, db);
    aa_tf_qmul(a, b, c); ref_qmul(da, b, x); ref_qmul(a, db, y); for (int i = 0; i < 4; i++) x[i] += y[i];
    aa_tf_qdiff2vel(c, x, w); ref_qrot(a, wb, r); for (int i = 0; i < 3; i++) e[i] = wa[i] + r[i];
    vf_eqn("angular velocities add", 3, w, e);
}
