#include "ref.h"
#include "amino.h"
/* P07: Euler angle conventions: intrinsic rotations R = R_a(e1) R_b(e2) R_c(e3). */
static void ax(char c, double *u) { u[0] = c == 'x'; u[1] = c == 'y'; u[2] = c == 'z'; }
static void ref_euler(const char *s, double a, double b, double c, double *R) {
    double u[3], A[9], B[9], C[9], T[9];
    ax(s[0], u); ref_aa2r(u, a, A); ax(s[1], u); ref_aa2r(u, b, B); ax(s[2], u); ref_aa2r(u, c, C);
    ref_rmul(A, B, T); ref_rmul(T, C, R);
}
#define EUL(l) { double a = vf_range("e1", -6, 6), b = vf_range("e2", -6, 6), c = vf_range("e3", -6, 6), R[9], E[9], q[4]; \
    ref_euler(#l, a, b, c, E); aa_tf_euler##l##2rotmat(a, b, c, R); vf_eqn("euler2rotmat", 9, R, E); \
    aa_tf_euler##l##2quat(a, b, c, q); ref_q2r(q, R); vf_eqn("euler2quat", 9, R, E); vf_eq("unit", q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3], 1); }
void h_xyz(void) EUL(xyz)
void h_xzy(void) EUL(xzy)
void h_yxz(void) EUL(yxz)
void h_yzx(void) EUL(yzx)
void h_zyx(void) EUL(zyx)
void h_zxy(void) EUL(zxy)
void h_xyx(void) EUL(xyx)
void h_xzx(void) EUL(xzx)
void h_yxy(void) EUL(yxy)
void h_yzy(void) EUL(yzy)
void h_zxz(void) EUL(zxz)
void h_zyz(void) EUL(zyz)
void h_r2zyx(void) {      /* recovered angles, away from the gimbal-lock poles */
    double R[9], e[3], E[9]; double a = vf_range("a", -3.1, 3.1), b = vf_range("b", -1.5, 1.5), c = vf_range("c", -3.1, 3.1);
    ref_euler("zyx", a, b, c, R); aa_tf_rotmat2eulerzyx(R, e);
    vf_eq("rotmat2eulerzyx z", e[0], a); vf_eq("rotmat2eulerzyx y", e[1], b); vf_eq("rotmat2eulerzyx x", e[2], c);
}
void h_q2zyx(void) {
    double q[4], x[4], y[4], z[4], t[4], e[3], ux[3] = {1,0,0}, uy[3] = {0,1,0}, uz[3] = {0,0,1};
    double a = vf_range("a", -3.1, 3.1), b = vf_range("b", -1.5, 1.5), c = vf_range("c", -3.1, 3.1);
    ref_aa2q(uz, a, z); ref_aa2q(uy, b, y); ref_aa2q(ux, c, x); ref_qmul(z, y, t); ref_qmul(t, x, q);
    if (vf_pick("neg", 2)) for (int i = 0; i < 4; i++) q[i] = -q[i];
    aa_tf_quat2eulerzyx(q, e);
    vf_eq("quat2eulerzyx z", e[0], a); vf_eq("quat2eulerzyx y", e[1], b); vf_eq("quat2eulerzyx x", e[2], c);
}
