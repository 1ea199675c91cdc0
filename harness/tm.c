#include "vf.h"
#include "amino.h"
/* P21: time arithmetic on normalised timespecs, modulo arithmetic */
#define G 1000000000L
#define S 3000000000L
static struct timespec ts(void) { return aa_tm_make((time_t)vf_int("sec", -S, S), (long)vf_int("nsec", 0, G - 1)); }
static int norm(struct timespec t) { return t.tv_nsec >= 0 && t.tv_nsec < G; }
void h_make_norm(void) { long s = vf_int("s", -S, S), n = vf_int("n", -40 * G, 40 * G); struct timespec t = aa_tm_make_norm(s, n); vf_true("normalised", norm(t)); vf_true("same instant", (t.tv_sec - s) * G + t.tv_nsec == n); }
void h_add(void) { struct timespec a = ts(), b = ts(), c = aa_tm_add(a, b); vf_true("normalised", norm(c)); vf_true("sum", (c.tv_sec - a.tv_sec - b.tv_sec) * G + c.tv_nsec == a.tv_nsec + b.tv_nsec); }
void h_sub(void) { struct timespec a = ts(), b = ts(), c = aa_tm_sub(a, b); vf_true("normalised", norm(c)); vf_true("difference", (c.tv_sec - a.tv_sec + b.tv_sec) * G + c.tv_nsec == a.tv_nsec - b.tv_nsec); }
void h_addsub(void) { struct timespec a = ts(), b = ts(), c = aa_tm_sub(aa_tm_add(a, b), b); vf_true("subtracting undoes adding", c.tv_sec == a.tv_sec && c.tv_nsec == a.tv_nsec); }
static int lt(struct timespec a, struct timespec b) { return (a.tv_sec < b.tv_sec) | ((a.tv_sec == b.tv_sec) & (a.tv_nsec < b.tv_nsec)); }
static int eq(struct timespec a, struct timespec b) { return (a.tv_sec == b.tv_sec) & (a.tv_nsec == b.tv_nsec); }
void h_cmp(void) { struct timespec a = ts(), b = ts(); long c = aa_tm_cmp(a, b); vf_true("negative iff earlier", (c < 0) == lt(a, b)); vf_true("zero iff equal", (c == 0) == eq(a, b)); vf_true("positive iff later", (c > 0) == lt(b, a)); }
void h_minmax(void) { struct timespec a = ts(), b = ts(), m = aa_tm_min(a, b), M = aa_tm_max(a, b); vf_true("min", eq(m, a) | eq(m, b)); vf_true("max", eq(M, a) | eq(M, b)); vf_true("min is not later", !lt(a, m) & !lt(b, m)); vf_true("max is not earlier", !lt(M, a) & !lt(M, b)); }
void h_usec(void) { struct timespec a = ts(); int64_t u = aa_tm_timespec2usec(a), m = aa_tm_timespec2msec(a); long du = (u - a.tv_sec * 1000000L) * 1000, dm = (m - a.tv_sec * 1000L) * 1000000; vf_true("microseconds", du <= a.tv_nsec && a.tv_nsec < du + 1000); vf_true("milliseconds", dm <= a.tv_nsec && a.tv_nsec < dm + 1000000); }
void h_valid(void) { struct timespec a = ts(), b = ts(), c = ts(); vf_true("valid iff within [before, after]", (aa_valid_timespec(a, b, c) == 0) == (!lt(a, b) & !lt(c, a))); }
static long dv(void) { static const long d[] = {1, 2, 3, 7, 10, 64, 360, 1000}; long b = d[vf_pick("b", 8)]; return vf_pick("sign", 2) ? -b : b; }
void h_modulo(void) { long a = vf_int("a", -100000, 100000), b = dv(); long r = aa_lmodulo(a, b); vf_true("sign of divisor", r == 0 || (r > 0) == (b > 0)); vf_true("smaller than divisor", (b > 0) ? r < b : r > b); vf_true("congruent", (a - r) % b == 0); }
void h_imodulo(void) { int a = (int)vf_int("a", -100000, 100000), b = (int)dv(); int r = aa_imodulo(a, b); vf_true("sign of divisor", r == 0 || (r > 0) == (b > 0)); vf_true("smaller than divisor", (b > 0) ? r < b : r > b); vf_true("congruent", (a - r) % b == 0); int q = aa_iremainder(a, b); vf_true("remainder has the sign of the dividend", q == 0 || (q > 0) == (a > 0)); vf_true("remainder congruent", (a - q) % b == 0); }
void h_imodulo64(void) { int64_t a = vf_int("a", -100000, 100000), b = dv(); int64_t r = aa_imodulo64(a, b); vf_true("sign of divisor", r == 0 || (r > 0) == (b > 0)); vf_true("smaller than divisor", (b > 0) ? r < b : r > b); vf_true("congruent", (a - r) % b == 0); }
