#include "ref.h"
#include "amino.h"
/* P15: minimum-cost assignment */
static void check(size_t m, size_t n, const double *A, size_t ld, const ssize_t *r, const ssize_t *c) {
    double s = 0; size_t k = 0;
    for (size_t i = 0; i < m; i++) { vf_true("row value in range", r[i] >= -1 && r[i] < (ssize_t)n); if (r[i] >= 0) { k++; s += A[i + (size_t)r[i]*ld]; vf_true("row and column assignment agree", c[r[i]] == (ssize_t)i); } }
    size_t l = 0; for (size_t j = 0; j < n; j++) { vf_true("column value in range", c[j] >= -1 && c[j] < (ssize_t)m); if (c[j] >= 0) { l++; vf_true("column and row assignment agree", r[c[j]] == (ssize_t)j); } }
    vf_true("all of the smaller side is assigned", k == (m < n ? m : n) && l == k);
    size_t q = m < n ? m : n, p = m < n ? n : m;   /* every injection of the smaller side */
    size_t tot = 1; for (size_t i = 0; i < q; i++) tot *= p;
    for (size_t z = 0; z < tot; z++) { size_t x = z, f[4], ok = 1; for (size_t i = 0; i < q; i++) { f[i] = x % p; x /= p; for (size_t j = 0; j < i; j++) if (f[j] == f[i]) ok = 0; }
        if (!ok) continue; double t = 0; for (size_t i = 0; i < q; i++) t += m < n ? A[i + f[i]*ld] : A[f[i] + i*ld]; vf_le("minimum cost", s, t); }
}
static void run(size_t m, size_t n, size_t pad) {
    double A[16], O[16]; ssize_t r[5], c[5]; size_t ld = m + pad; vf_reals("A", ld*n, A); for (size_t i = 0; i < ld*n; i++) O[i] = A[i]; r[m] = c[n] = 99;
    aa_la_d_assign_hungarian(m, n, A, ld, r, c); check(m, n, O, ld, r, c); vf_true("nothing beyond the assignments written", r[m] == 99 && c[n] == 99); for (size_t i = 0; i < ld*n; i++) vf_eq("costs unchanged", A[i], O[i]);
}
void h_small(void) { static const size_t d[5][2] = {{1,1},{1,2},{2,1},{1,3},{3,1}}; const size_t *p = d[vf_pick("d", 5)]; run(p[0], p[1], vf_pick("pad", 2)); }
void h_22(void) { run(2, 2, vf_pick("pad", 2)); }
// vf: h_23 max_paths=20000 budget=300
void h_23(void) { run(2, 3, 1); }
// vf: h_32 max_paths=20000 budget=300
void h_32(void) { run(3, 2, 0); }
// vf: h_33 max_paths=20000 budget=600
void h_33(void) { run(3, 3, 0); }
void h_max2min(void) {
    size_t m = 1 + vf_pick("m", 2), n = 1 + vf_pick("n", 2), ld = m + vf_pick("pad", 2); double A[6], O[6]; vf_reals("A", 6, A); for (int i = 0; i < 6; i++) O[i] = A[i];
    aa_la_d_assign_hungarian_max2min(m, n, A, ld);
    double mx = O[0]; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (O[i + j*ld] > mx) mx = O[i + j*ld];
    for (size_t k = 0; k < 6; k++) { size_t i = k % ld, j = k / ld; vf_eq(i < m && j < n ? "complement of the cost" : "padding kept", A[k], i < m && j < n ? mx - O[k] : O[k]); }
}
/* four by four: a constant matrix that needs several augmentations, some entries symbolic */
static void run4(const double *K, unsigned mask, size_t n) {
    double A[16], O[16]; ssize_t r[4], c[4]; int z = 0; for (size_t i = 0; i < 4*n; i++) { A[i] = K[i]; if (mask >> i & 1) { static const char *nm[] = {"a", "b", "c", "d"}; A[i] = vf_range(nm[z++ & 3], -20, 20); } O[i] = A[i]; }
    aa_la_d_assign_hungarian(4, n, A, 4, r, c); check(4, n, O, 4, r, c);
}
static const double k1[16] = {1,2,3,4, 2,4,6,8, 3,6,9,12, 4,8,12,16}, k3[16] = {-0.5,0.5,1,-0.5,0.5,1,-0.5,0,1,1.5,0.5,1.5,1,0.5,-0.5,0}, k4[16] = {6,5,5,7.5,4.5,-2,7,-2.5,-3,0.5,-1,-1.5,-6,-1,8,-3.5}, k2[16] = {-1,-2,-3,-4, 7,5,7,6, 0,0,0,1, 3,3,2,3};
// vf: h_44a max_paths=20000 budget=300 max_steps=400000
void h_44a(void) { run4(k1, 0x8020, 4); }
// vf: h_44b max_paths=20000 budget=300 max_steps=400000
void h_44b(void) { run4(k1, 0x0401, 4); }
// vf: h_44c max_paths=20000 budget=300 max_steps=400000
void h_44c(void) { run4(k2, 0x1040, 4); }
// vf: h_43 max_paths=20000 budget=300 max_steps=400000
void h_43(void) { run4(k1, 0x0420, 3); }
// vf: h_44i max_paths=20000 budget=300 max_steps=400000
void h_44i(void) { run4(k3, 0x1040, 4); }
// vf: h_44j max_paths=20000 budget=300 max_steps=400000
void h_44j(void) { run4(k4, 0x8010, 4); }
// vf: h_44k max_paths=20000 budget=300 max_steps=400000
void h_44k(void) { run4(k4, 0x0804, 4); }
// vf: h_44d max_paths=200000 budget=800 tier=thorough
void h_44d(void) { run4(k1, 0x8041, 4); }
// vf: h_44e max_paths=200000 budget=800 tier=thorough
void h_44e(void) { run4(k2, 0x1108, 4); }
// vf: h_44f max_paths=200000 budget=800 tier=thorough
void h_44f(void) { run4(k1, 0x8421, 4); }
// vf: h_44g max_paths=200000 budget=800 tier=thorough
void h_44g(void) { run4(k1, 0x0c03, 4); }
// vf: h_44h max_paths=200000 budget=800 tier=thorough
void h_44h(void) { run4(k2, 0x1248, 4); }
// vf: h_43t max_paths=200000 budget=800 tier=thorough
void h_43t(void) { run4(k1, 0x0421, 3); }
