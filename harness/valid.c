#include "ref.h"
#include "amino.h"
int aa_valid_f(double, double, double); int aa_valid_v(double *, size_t, double *, double *, size_t); int aa_valid_vunit(double *, size_t, double);
/* P25: range validation, clamping, tolerant comparison */
void h_valid_f(void) { double v = vf_real("v"), a = vf_real("a"), b = vf_real("b"); vf_true("accepts exactly [min,max]", (aa_valid_f(v, a, b) == 0) == (v >= a && v <= b)); }
void h_valid_v(void) {
    size_t n = vf_pick("n", 4), w = vf_pick("want", 4); double v[3], a[3], b[3]; vf_reals("v", 3, v); vf_reals("a", 3, a); vf_reals("b", 3, b); int hm = (int)vf_pick("min", 2), hx = (int)vf_pick("max", 2);
    int r = aa_valid_v(v, n, hm ? a : NULL, hx ? b : NULL, w), e = 0; if (n != w) { vf_true("wrong length", r < 0); return; }
    for (size_t i = 0; i < n && !e; i++) if ((hm && v[i] < a[i]) || (hx && v[i] > b[i])) e = (int)i + 1;
    vf_true("first element out of range", r == e);
}
void h_vunit(void) { size_t n = 1 + vf_pick("n", 3); double v[3], s = 0, t = vf_range("tol", 0, 0.5); vf_reals("v", 3, v); for (size_t i = 0; i < n; i++) s += v[i]*v[i]; int r = aa_valid_vunit(v, n, t);
    if (r == 0) { vf_le("accepted: not too short", (1-t)*(1-t), s); vf_le("accepted: not too long", s, (1+t)*(1+t)); } else vf_true("rejected: out of tolerance", s <= (1-t)*(1-t) || s >= (1+t)*(1+t)); }
void h_clamp(void) {
    double v = vf_real("v"), a = vf_real("a"), b = vf_real("b"), x[3], d = vf_real("d"); vf_assume_le(a, b); vf_reals("x", 3, x); double y[3] = {x[0], x[1], x[2]};
    double c = aa_fclamp(v, a, b); vf_eq("fclamp", c, v < a ? a : v > b ? b : v); aa_vclamp(2, y, a, b); for (int i = 0; i < 2; i++) vf_eq("vclamp", y[i], x[i] < a ? a : x[i] > b ? b : x[i]); vf_eq("vclamp within n", y[2], x[2]);
    vf_eq("deadzone", aa_fdeadzone(v, a, b, d), v > a && v < b ? d : v); vf_eq("sign", aa_sign(v), v > 0 ? 1 : v < 0 ? -1 : 0); vf_eq("square", aa_fsq(v), v*v);
}
void h_clamp1(void) { double v = vf_real("v"), l = vf_range("l", 0, 1e6); vf_eq("clamp", aa_clamp(v, l), v > l ? l : v < -l ? -l : v); }
void h_feq(void) {
    double a = vf_real("a"), b = vf_real("b"), t = vf_range("tol", 0, 10), x[3], y[3]; vf_true("feq", aa_feq(a, b, t) == (fabs(a - b) <= t));
    size_t n = vf_pick("n", 4); vf_reals("x", 3, x); vf_reals("y", 3, y); int e = 1; for (size_t i = 0; i < n; i++) e &= fabs(x[i] - y[i]) <= t; vf_true("veq", !!aa_veq(n, x, y, t) == e);
}
