#include "ref.h"
#include "amino.h"
/* P09: Denavit-Hartenberg transforms.
 * proximal: Rx(alpha) Tx(a) Rz(phi) Tz(d);  distal: Rz(phi) Tz(d) Tx(a) Rx(alpha) */
static void rt(int axis, double th, double x, double z, double *T) { double u[3] = {axis == 0, 0, axis == 2}; ref_aa2r(u, th, T); T[9] = x; T[10] = 0; T[11] = z; }
#define DH double al = vf_range("alpha", -6, 6), a = vf_real("a"), d = vf_real("d"), ph = vf_range("phi", -6, 6), A[12], B[12], T[12], M[12], E[7], S[8], q[4], v[3], D[8]; (void)D; \
    rt(0, al, a, 0, A); rt(2, ph, 0, d, B);
static void all(const char *l, const double *E, const double *q, const double *v, const double *S, const double *T) {
    double M[12], x[4], c[4];
    ref_qv2t(E, E+4, M); vf_eqn("qutr", 12, M, T);
    ref_qv2t(q, v, M); vf_eqn("qv", 12, M, T);
    ref_q2r(S, M); ref_qconj(S, c); ref_qmul(S+4, c, x); for (int i = 0; i < 3; i++) M[9+i] = 2*x[i];
    vf_eqn("duqu", 12, M, T); vf_eq("duqu unit", S[0]*S[0]+S[1]*S[1]+S[2]*S[2]+S[3]*S[3], 1); vf_eq("duqu orthogonal", S[0]*S[4]+S[1]*S[5]+S[2]*S[6]+S[3]*S[7], 0);
    vf_eq("quat unit", q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3], 1);
}
void h_prox(void) { DH ref_tmul(A, B, T);
    aa_tf_dhprox2tfmat(al, a, d, ph, M); vf_eqn("dhprox2tfmat", 12, M, T);
    aa_tf_dhprox2qutr(al, a, d, ph, E); aa_tf_dhprox2qv(al, a, d, ph, q, v); aa_tf_dhprox2duqu(al, a, d, ph, S); all("prox", E, q, v, S, T); }
void h_dist(void) { DH ref_tmul(B, A, T);
    aa_tf_dhdist2tfmat(al, a, d, ph, M); vf_eqn("dhdist2tfmat", 12, M, T);
    aa_tf_dhdist2qutr(al, a, d, ph, E); aa_tf_dhdist2qv(al, a, d, ph, q, v); aa_tf_dhdist2duqu(al, a, d, ph, S); all("dist", E, q, v, S, T); }
