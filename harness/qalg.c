#include "ref.h"
#include "amino.h"
/* P01 quaternion algebra */
void h_mul(void) {
    double a[4], b[4], c[4], r[4], d[4];
    vf_reals("a", 4, a); vf_reals("b", 4, b);
    ref_qmul(a, b, r);
    aa_tf_qmul(a, b, c); vf_eqn("qmul", 4, c, r);
    double M[16]; aa_tf_qmatrix_l(a, M, 4);
    for (int i = 0; i < 4; i++) { d[i] = 0; for (int k = 0; k < 4; k++) d[i] += M[i+4*k]*b[k]; }
    vf_eqn("qmatrix_l", 4, d, r);
    double N[20]; aa_tf_qmatrix_r(b, N, 5);
    for (int i = 0; i < 4; i++) { d[i] = 0; for (int k = 0; k < 4; k++) d[i] += N[i+5*k]*a[k]; }
    vf_eqn("qmatrix_r", 4, d, r);
}
void h_mulc(void) {
    double a[4], b[4], c[4], t[4], r[4];
    vf_reals("a", 4, a); vf_reals("b", 4, b);
    ref_qconj(b, t); ref_qmul(a, t, r); aa_tf_qmulc(a, b, c); vf_eqn("qmulc", 4, c, r);
    ref_qconj(a, t); ref_qmul(t, b, r); aa_tf_qcmul(a, b, c); vf_eqn("qcmul", 4, c, r);
    aa_tf_qconj(a, c); vf_eqn("qconj", 4, c, t);
    cpy(4, a, c); aa_tf_qconj1(c); vf_eqn("qconj1", 4, c, t);
}
void h_mulvq(void) {
    double q[4], v[3], c[4], r[4];
    vf_reals("q", 4, q); vf_reals("v", 3, v);
    double x[4] = {v[0], v[1], v[2], 0};
    ref_qmul(q, x, r); aa_tf_qmul_qv(q, v, c); vf_eqn("qmul_qv", 4, c, r);
    ref_qmul(x, q, r); aa_tf_qmul_vq(v, q, c); vf_eqn("qmul_vq", 4, c, r);
}
void h_linear(void) {
    double a[4], b[4], c[4], r[4]; double k = vf_real("k");
    vf_reals("a", 4, a); vf_reals("b", 4, b);
    for (int i = 0; i < 4; i++) r[i] = a[i] + b[i];
    aa_tf_qadd(a, b, c); vf_eqn("qadd", 4, c, r);
    cpy(4, a, c); aa_tf_qiadd(c, b); vf_eqn("qiadd", 4, c, r);
    for (int i = 0; i < 4; i++) r[i] = a[i] - b[i];
    aa_tf_qsub(a, b, c); vf_eqn("qsub", 4, c, r);
    cpy(4, a, c); aa_tf_qisub(c, b); vf_eqn("qisub", 4, c, r);
    for (int i = 0; i < 4; i++) r[i] = a[i] * k;
    cpy(4, a, c); aa_tf_qscal(c, k); vf_eqn("qscal", 4, c, r);
    vf_eq("qdot", aa_tf_qdot(a, b), a[0]*b[0] + a[1]*b[1] + a[2]*b[2] + a[3]*b[3]);
    double s = 0; for (int i = 0; i < 4; i++) s += (a[i]-b[i])*(a[i]-b[i]);
    double ss = aa_tf_qssd(a, b); vf_eq("qssd", ss*ss, s);
}
void h_norm(void) {
    double a[4], c[4], r[4];
    vf_reals("a", 4, a);
    double n2 = a[0]*a[0] + a[1]*a[1] + a[2]*a[2] + a[3]*a[3];
    vf_assume_lt(1e-3, n2);
    double n = aa_tf_qnorm(a);
    vf_eq("qnorm", n*n, n2); vf_le("qnorm>=0", 0, n);
    cpy(4, a, c); aa_tf_qnormalize(c);
    for (int i = 0; i < 4; i++) vf_eq("qnormalize", c[i]*n, a[i]);
    aa_tf_qnormalize2(a, c);
    for (int i = 0; i < 4; i++) vf_eq("qnormalize2", c[i]*n, a[i]);
    aa_tf_qinv(a, c); ref_qmul(a, c, r);
    double id[4] = {0,0,0,1};
    vf_eqn("a*inv(a)=1", 4, r, id);
    ref_qmul(c, a, r); vf_eqn("inv(a)*a=1", 4, r, id);
}
void h_mulnorm(void) {
    double a[4], b[4], c[4], r[4];
    vf_unit("a", 4, a); vf_unit("b", 4, b);
    double k = vf_range("k", 0.25, 4);
    ref_qmul(a, b, r);
    double ak[4]; for (int i = 0; i < 4; i++) ak[i] = a[i] * k;
    aa_tf_qmulnorm(ak, b, c); vf_eqn("qmulnorm", 4, c, r);
}
void h_minimize(void) {
    double a[4], c[4], d[4];
    vf_reals("a", 4, a);
    cpy(4, a, c); aa_tf_qminimize(c); aa_tf_qminimize2(a, d);
    (vf_eqn)("minimize agree", 4, c, d);
    vf_le("w>=0", 0, c[3]);
    ck_qsame("same rotation", c, a);
}
void h_rot(void) {
    double q[4], v[3], p[3], r[3];
    vf_unit("q", 4, q); vf_reals("v", 3, v);
    ref_qrot(q, v, r);
    aa_tf_qrot(q, v, p); vf_eqn("qrot", 3, p, r);
    cpy(3, v, p); aa_tf_qrot1(q, p); (vf_eqn)("qrot1", 3, p, r);
    vf_eq("norm preserved", ref_dot(p, p), ref_dot(v, v));
}
void h_rel(void) {
    double a[4], b[4], c[4], t[4], r[4];
    vf_unit("a", 4, a); vf_unit("b", 4, b);
    ref_qconj(b, t); ref_qmul(a, t, r);
    aa_tf_qrel(a, b, c); ck_qsame("qrel", c, r);
}
/* group laws on the real code itself */
void h_assoc(void) {
    double a[4], b[4], c[4], ab[4], abc[4], bc[4], abc2[4];
    vf_reals("a", 4, a); vf_reals("b", 4, b); vf_reals("c", 4, c);
    aa_tf_qmul(a, b, ab); aa_tf_qmul(ab, c, abc);
    aa_tf_qmul(b, c, bc); aa_tf_qmul(a, bc, abc2);
    vf_eqn("assoc", 4, abc, abc2);
}
void h_rotcompose(void) {
    double a[4], b[4], c[4], v[3], p[3], r[3], s[3];
    vf_unit("a", 4, a); vf_unit("b", 4, b); vf_reals("v", 3, v);
    aa_tf_qmul(a, b, c); aa_tf_qrot(c, v, p);
    aa_tf_qrot(b, v, r); aa_tf_qrot(a, r, s);
    vf_eqn("rot(ab)=rot a rot b", 3, p, s);
}
void h_angle(void) {   /* qangle: half-angle-free rotation angle recovered from q */
    double u[3], q[4]; vf_unit("u", 3, u);
    double th = vf_range("th", 0.01, 3.1);
    ref_aa2q(u, th, q);
    double a = aa_tf_qangle(q);
    vf_eq("qangle sin", sin(a), sin(th/2)); vf_eq("qangle cos", cos(a), cos(th/2));
    vf_eq("qangle", a, th/2);
}
// vf: h_angle_rel atomK=4
void h_angle_rel(void) {
    double u[3], q[4], p[4], d[4]; vf_unit("u", 3, u); vf_unit("p", 4, p);
    double th = vf_range("th", 0.01, 3.1);
    ref_aa2q(u, th, d); ref_qmul(p, d, q);
    vf_eq("qangle_rel", aa_tf_qangle_rel(q, p), th/2);
    vf_eq("quhypangle2", aa_tf_quhypangle2(q, p), th/2);
}
void h_vec(void) {    /* 3-vector helpers the algebra is built on */
    double a[3], b[3], c[3], d[3], e[3]; vf_reals("a", 3, a); vf_reals("b", 3, b); vf_reals("c", 3, c);
    double x[3] = {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]};
    aa_tf_cross(a, b, d); vf_eqn("cross", 3, d, x);
    for (int i = 0; i < 3; i++) { e[i] = c[i] + x[i]; d[i] = c[i]; }
    aa_tf_cross_a(a, b, d); vf_eqn("cross_a", 3, d, e);
    vf_eq("vdot", aa_tf_vdot(a, b), a[0]*b[0]+a[1]*b[1]+a[2]*b[2]);
    double n = aa_tf_vnorm(a); vf_eq("vnorm", n*n, a[0]*a[0]+a[1]*a[1]+a[2]*a[2]); vf_le("vnorm >= 0", 0, n);
    double s = aa_tf_vssd(a, b); vf_eq("vssd", s*s, (a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1])+(a[2]-b[2])*(a[2]-b[2])); vf_le("vssd >= 0", 0, s);
    vf_assume_lt(1e-3, a[0]*a[0]+a[1]*a[1]+a[2]*a[2]);
    for (int i = 0; i < 3; i++) d[i] = a[i];
    aa_tf_vnormalize(d); for (int i = 0; i < 3; i++) vf_eq("vnormalize", d[i]*n, a[i]);
}
void h_qmat(void) {   /* matrix views with a leading dimension larger than 4 write only their 4x4 block */
    double q[4], p[4], b[40], r[4], e[4]; vf_reals("q", 4, q); vf_reals("p", 4, p);
    int side = (int)vf_pick("side", 2);
    for (int i = 0; i < 40; i++) b[i] = 100 + i;
    struct aa_dmat M = {.rows = 4, .cols = 4, .data = b, .ld = 7};
    if (side) aa_tf_qmat_r(q, &M); else aa_tf_qmat_l(q, &M);
    for (int i = 0; i < 4; i++) { r[i] = 0; for (int j = 0; j < 4; j++) r[i] += b[i+7*j]*p[j]; }
    if (side) ref_qmul(p, q, e); else ref_qmul(q, p, e);
    vf_eqn("qmat p", 4, r, e);
    for (int i = 0; i < 40; i++) if (i % 7 >= 4 || i >= 25) vf_eq("outside the block", b[i], 100 + i);
}
