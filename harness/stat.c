#include "ref.h"
#include "amino.h"
#include "amino/cv.h"
double aa_la_d_mad2(size_t, size_t, const double *, const double *, size_t);
/* P16: statistics, angles, colours */
#define N 4
void h_mean(void) {
    size_t n = 2 + vf_pick("n", 3); double x[N], s = 0, q = 0; vf_reals("x", N, x); for (size_t i = 0; i < n; i++) s += x[i];
    double m = aa_stat_mean(n, x), sd = aa_stat_std(n, x); vf_eq("mean", m * (double)n, s); for (size_t i = 0; i < n; i++) q += (x[i] - s/(double)n)*(x[i] - s/(double)n);
    vf_le("std >= 0", 0, sd); vf_eq("sample variance", sd*sd*(double)(n-1), q); vf_eq("mean of one", aa_stat_mean(1, x), x[0]);
}
void h_vecstd(void) {
    size_t n = 2 + vf_pick("n", 2), inc = 1 + vf_pick("inc", 2); double x[6], q = 0, mu = vf_real("mu"); vf_reals("x", 6, x); for (size_t i = 0; i < n; i++) q += (x[i*inc]-mu)*(x[i*inc]-mu);
    double s = aa_la_d_vecstd(n, x, inc, mu); vf_le("std >= 0", 0, s); vf_eq("std about mu", s*s*(double)(n-1), q);
}
void h_score(void) { double z = vf_real("z"), m = vf_real("mu"), s = vf_real("sigma"); vf_assume_ne(s, 0); vf_eq("z2x", aa_stat_z2x(z, m, s), m + z*s); vf_eq("x2z", aa_stat_x2z(m + z*s, m, s), z); }
void h_excluded(void) {   /* three close samples in any order with one far away: the far one is dropped */
    double x[4], y[3], mu, sd, s = 0, q = 0; size_t far = vf_pick("far", 4); vf_reals("y", 3, y); for (int i = 0; i < 3; i++) { vf_assume_le(-1, y[i]); vf_assume_le(y[i], 1); }
    int z = 0; for (size_t i = 0; i < 4; i++) if (i != far) { x[i] = y[z]; s += y[z]; z++; }
    x[far] = vf_pick("sign", 2) ? vf_range("xfar", 100, 200) : -vf_range("xfar", 100, 200);
    for (int i = 0; i < 3; i++) q += (y[i] - s/3)*(y[i] - s/3);
    vf_assume_lt(1e-4, q);
    aa_stat_excluded_mean_std(4, x, &mu, &sd, -1.4, 1.4, 10); vf_eq("mean without outlier", mu*3, s); vf_le("std >= 0", 0, sd); vf_eq("variance without outlier", sd*sd*2, q);
}
void h_excluded_none(void) {   /* wide limits exclude nothing */
    double x[3], mu, sd, s = 0, q = 0; vf_reals("x", 3, x); for (int i = 0; i < 3; i++) s += x[i]; for (int i = 0; i < 3; i++) q += (x[i] - s/3)*(x[i] - s/3);
    aa_stat_excluded_mean_std(3, x, &mu, &sd, -3, 3, 10); vf_eq("mean", mu*3, s); vf_eq("variance", sd*sd*2, q);
}
void h_circ(void) {   /* angles: the mean direction is that of the summed unit vectors, the deviation its resultant length */
    size_t n = 1 + vf_pick("n", 2); double x[3], s = 0, c = 0, m0 = vf_range("m", -3.2, 3.2), h = vf_pick("side", 2) ? vf_range("d", 0, 1.5) : vf_range("d", 1.65, 3.2); x[0] = n == 1 ? m0 : m0 - h; x[1] = m0 + h; for (size_t i = 0; i < n; i++) { s += sin(x[i]); c += cos(x[i]); }
    double m = aa_stat_circ_mean(n, x); vf_eq("mean direction", sin(m)*c, cos(m)*s); vf_le("not the opposite direction", 0, sin(m)*s + cos(m)*c);
}
void h_circ_std(void) {   /* any two directions: m -+ d */
    double x[2], m = vf_range("m", -1.5, 1.5), h = vf_range("d", 0.15, 1.4); x[0] = m - h; x[1] = m + h;
    double d = aa_stat_circ_std(2, x); vf_le("std >= 0", 0, d); vf_eq("R = exp(-std^2/2)", exp(-d*d), cos(h)*cos(h));
}
void h_circ_excluded(void) {
    double x[2], mu, sd, m = vf_range("m", -1.5, 1.5), h = vf_range("d", 0.15, 1.4); x[0] = m - h; x[1] = m + h; double s = sin(x[0]) + sin(x[1]), c = cos(x[0]) + cos(x[1]);
    aa_stat_excluded_circ_mean_std(2, x, &mu, &sd, -100, 100, 1);
    vf_eq("mean direction", sin(mu)*c, cos(mu)*s); vf_le("not the opposite direction", 0, sin(mu)*s + cos(mu)*c); vf_eq("R = exp(-std^2/2)", exp(-sd*sd), cos(h)*cos(h));
}
void h_cov(void) {   /* column covariance, block of a larger array into a block of a larger array */
    size_t m = 1 + vf_pick("m", 3), n = 2 + vf_pick("n", 2), lda = m + vf_pick("pad", 2), lde = m + vf_pick("epad", 2); double A[12], E[15], E0[15], x[3]; vf_reals("A", 12, A); vf_reals("x", 3, x); vf_reals("E", 15, E); memcpy(E0, E, sizeof(E));
    aa_la_d_colcov(m, n, A, lda, x, E, lde);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += (A[i + k*lda]-x[i])*(A[j + k*lda]-x[j]); vf_eq("covariance", E[i + j*lde]*(double)(n-1), s); }
    for (size_t k = 0; k < 15; k++) if (k % lde >= m || k / lde >= m) vf_eq("outside the block", E[k], E0[k]);
    double B[12], mu[3], F[9]; vf_reals("B", 12, B); aa_stat_vmean_cov(m, n, B, mu, F);
    for (size_t i = 0; i < m; i++) { double s = 0; for (size_t k = 0; k < n; k++) s += B[i + k*m]; vf_eq("mean vector", mu[i]*(double)n, s); }
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { double s = 0; for (size_t k = 0; k < n; k++) s += (B[i + k*m]-mu[i])*(B[j + k*m]-mu[j]); vf_eq("covariance about the mean", F[i + j*m]*(double)(n-1), s); }
}
void h_mahal(void) {   /* sqrt(d' E_inv d) for symmetric positive definite E_inv = L L' */
    size_t m = 1 + vf_pick("m", 2); double L[4], E[4], x[2], mu[2], y[2], q = 0; vf_reals("x", 2, x); vf_reals("mu", 2, mu); L[0] = vf_range("l00", 0.3, 2); L[1] = vf_range("l10", -2, 2); L[3] = vf_range("l11", 0.3, 2);
    if (m == 1) { E[0] = L[0]*L[0]; y[0] = (x[0]-mu[0])*L[0]; q = y[0]*y[0]; }
    else { E[0] = L[0]*L[0]; E[1] = E[2] = L[0]*L[1]; E[3] = L[1]*L[1] + L[3]*L[3]; y[0] = L[0]*(x[0]-mu[0]) + L[1]*(x[1]-mu[1]); y[1] = L[3]*(x[1]-mu[1]); q = y[0]*y[0] + y[1]*y[1]; }
    double d = aa_stat_mahalanobis(m, x, mu, E); vf_le("distance >= 0", 0, d); vf_eq("Mahalanobis distance", d*d, q);
}
static void med_check(const char *l, size_t n, const double *y, double m) {   /* y: the n values */
    if (!vf_symbolic()) { double z[4]; for (size_t i = 0; i < n; i++) z[i] = y[i]; for (size_t i = 0; i < n; i++) for (size_t j = i+1; j < n; j++) if (z[j] < z[i]) { double t = z[i]; z[i] = z[j]; z[j] = t; } vf_eq(l, m, n % 2 ? z[n/2] : (z[n/2]+z[n/2-1])/2); return; }
    if (n % 2) { size_t b = 0, a = 0; int is = 0; for (size_t i = 0; i < n; i++) { b += y[i] < m; a += y[i] > m; is |= y[i] == m; } vf_true(l, is && b <= n/2 && a <= n/2); return; }
    int ok = 0;   /* even: mean of two elements that split the rest */
    for (size_t p = 0; p < n; p++) for (size_t q = p+1; q < n; q++) { double lo = fmin(y[p], y[q]), hi = fmax(y[p], y[q]); size_t b = 0, a = 0; for (size_t i = 0; i < n; i++) if (i != p && i != q) { b += y[i] <= lo; a += y[i] >= hi; } ok |= 2*m == lo + hi && b + a >= n - 2 && b >= n/2 - 1 && a >= n/2 - 1; }
    vf_true(l, ok);
}
// vf: h_median max_paths=4000
void h_median(void) {
    size_t n = 1 + vf_pick("n", 3), inc = 1 + vf_pick("inc", 2); double x[6], y[4]; vf_reals("x", 6, x); for (size_t i = 0; i < n; i++) y[i] = x[i*inc];
    med_check("median", n, y, aa_la_d_median(n, x, inc));
}
// vf: h_median_s max_paths=4000
void h_median_s(void) {   /* single precision */
    size_t n = 1 + vf_pick("n", 3), inc = 1 + vf_pick("inc", 2); double x[6], y[4]; float f[6]; vf_reals("x", 6, x); for (int i = 0; i < 6; i++) f[i] = (float)x[i]; for (size_t i = 0; i < n; i++) y[i] = f[i*inc];
    float m = aa_la_s_median(n, f, inc); if (n % 2 || vf_symbolic()) med_check("median (single)", n, y, m);
}
// vf: h_mad max_paths=4000
void h_mad(void) {
    size_t n = 1 + vf_pick("n", 3), inc = 1 + vf_pick("inc", 2); double x[6], y[4], u = vf_real("u"); vf_reals("x", 6, x); for (size_t i = 0; i < n; i++) y[i] = fabs(x[i*inc] - u);
    med_check("median absolute deviation", n, y, aa_la_d_mad(n, u, x, inc));
}
// vf: h_mad2 max_paths=4000
void h_mad2(void) {
    size_t m = 1 + vf_pick("m", 2), n = 1 + vf_pick("n", 3), ld = m + vf_pick("pad", 2); double A[9], u[2], d[3]; vf_reals("A", 9, A); vf_reals("u", 2, u); for (size_t j = 0; j < n; j++) { d[j] = 0; for (size_t i = 0; i < m; i++) d[j] += (A[i + j*ld]-u[i])*(A[i + j*ld]-u[i]); }
    double r = aa_la_d_mad2(m, n, u, A, ld); vf_le(">= 0", 0, r);
    size_t below = 0, above = 0; for (size_t j = 0; j < n; j++) { below += d[j] < r*r; above += d[j] > r*r; } if (vf_symbolic()) { vf_true("median distance", below <= n/2 && above <= n/2); if (n % 2) { int is = 0; for (size_t j = 0; j < n; j++) is |= d[j] == r*r; vf_true("an element", is); } } else vf_reach("mad2");
    if (!vf_symbolic() && n % 2) { double best = 1e300; for (size_t j = 0; j < n; j++) { size_t b = 0, a = 0; for (size_t k = 0; k < n; k++) { b += d[k] < d[j]; a += d[k] > d[j]; } if (b <= n/2 && a <= n/2) best = d[j]; } vf_eq("median distance", r*r, best); }
}
void h_angle(void) {   /* angle between vectors: cosine and sine agree with the definition, within [0, pi] */
    size_t n = 2 + vf_pick("n", 2), i1 = 1 + vf_pick("incx", 2), i2 = 1 + vf_pick("incy", 2); double x[6], y[6], nx = 0, ny = 0, d = 0; vf_reals("x", 6, x); vf_reals("y", 6, y);
    for (size_t i = 0; i < n; i++) { nx += x[i*i1]*x[i*i1]; ny += y[i*i2]*y[i*i2]; d += x[i*i1]*y[i*i2]; } vf_assume_lt(1e-3, nx); vf_assume_lt(1e-3, ny);
    double t = aa_la_d_angle(n, x, i1, y, i2), h = t/2; vf_le("at least 0", 0, sin(h)); vf_le("at most pi", 0, cos(h));
    double c = cos(h)*cos(h) - sin(h)*sin(h); vf_eq("cosine", c * sqrt(nx) * sqrt(ny), d);
}
/* ---- angles */
void h_ang(void) {
    double a = vf_range("a", -9, 9), b = vf_range("b", -9, 9);
    vf_eq("degrees", aa_ang_rad2deg(a) * M_PI, a*180); vf_eq("radians", aa_ang_deg2rad(a)*180, a*M_PI);
    double p = aa_ang_norm_2pi(a), q = aa_ang_norm_pi(a), d = aa_ang_delta(a, b);
    vf_true("[0,2pi)", p >= 0 && p < 2*M_PI); vf_true("[-pi,pi]", q >= -M_PI && q <= M_PI); vf_true("difference in [-pi,pi]", d >= -M_PI && d <= M_PI);
#define MULT(v) ({ int ok = 0; for (int k = -5; k <= 5; k++) ok |= vf_symbolic() ? (v) == k*2*M_PI : fabs((v) - k*2*M_PI) < 1e-9; ok; })
    vf_true("same angle (2pi)", MULT(a - p)); vf_true("same angle (pi)", MULT(a - q)); vf_true("same difference", MULT(a - b - d));
}
void h_fmod(void) {
    double a = vf_range("a", -10, 10); static const double B[4] = {4, 4.5, 6, 7.25}; double b = B[vf_pick("b", 4)], m = aa_fmodulo(a, b), r = aa_fremainder(a, b);
    vf_true("modulo in [0,b)", m >= 0 && m < b); int ok = 0, kr = 0; for (int k = -4; k <= 4; k++) { ok |= vf_symbolic() ? a - m == k*b : fabs(a - m - k*b) < 1e-9; kr |= vf_symbolic() ? a - r == k*b : fabs(a - r - k*b) < 1e-9; }
    vf_true("modulo congruent", ok); vf_true("remainder congruent", kr); vf_true("remainder has the dividend's sign", fabs(r) < b && (a >= 0 ? r >= 0 : r <= 0));
}
void h_horner(void) { double x = vf_real("x"), a = vf_real("a0"), b = vf_real("a1"), c = vf_real("a2"), s, k; vf_eq("horner", aa_horner3(x, a, b, c), a + b*x + c*x*x); double t = vf_range("t", -3, 3); aa_sincos(t, &s, &k); vf_eq("sin", s, sin(t)); vf_eq("cos", k, cos(t)); }
void h_box_muller(void) {
    double x1 = vf_range("x1", 0.01, 0.99), x2 = vf_range("x2", 0, 1), a, b; aa_stat_box_muller(x1, x2, &a, &b); double t = 2*M_PI*x2;
    vf_eq("radius", exp(-(a*a + b*b)/2), x1); vf_eq("direction", a*sin(t), b*cos(t)); vf_le("orientation", 0, a*cos(t) + b*sin(t));
}
void h_hsv(void) {
    double c[3], h[3]; for (int i = 0; i < 3; i++) c[i] = vf_range("c", 0, 1); double al = c[0] - (c[1] + c[2])/2, be = sqrt(3)/2*(c[1] - c[2]), k = al*al + be*be; aa_cv_rgb2hsv(c, h);
    double mx = fmax(c[0], fmax(c[1], c[2])); vf_eq("value", h[2], mx); if (k == 0) { vf_eq("grey: no saturation", h[1], 0); return; }
    vf_le("saturation >= 0", 0, h[1]); vf_eq("saturation", h[1]*h[1]*mx*mx, k); vf_eq("hue direction", sin(h[0])*al, cos(h[0])*be); vf_le("hue orientation", 0, cos(h[0])*al + sin(h[0])*be);
}
