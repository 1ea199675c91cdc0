#include "vf.h"
#include "amino.h"
#include <string.h>
/* P19: bit arrays, memory swap, growable vectors, aligned helpers */
#define NW 4
static aa_bits A[NW], B[NW], A0[NW];
static void sym(aa_bits *x) { for (int i = 0; i < NW; i++) x[i] = (aa_bits)vf_int("w", -2147483648LL, 2147483647LL); }
static int bit(const aa_bits *x, size_t i) { return (((const unsigned char*)x)[i / 8] >> (i % 8)) & 1; }
static void two(void) { sym(A); sym(B); memcpy(A0, A, sizeof A); }
static void bitop(int which) {
    two(); size_t n = vf_pick("n", 32 * NW + 1), i = (size_t)vf_int("i", 0, 32 * NW - 1); size_t w = aa_bits_words(n);
    vf_true("number of words", w * 32 >= n && (w == 0 || (w - 1) * 32 < n)); vf_true("size in octets", aa_bits_size(n) == w * sizeof(aa_bits));
    if (which == 0) aa_bits_and(A, B, n); else if (which == 1) aa_bits_or(A, B, n); else aa_bits_xor(A, B, n);
    for (size_t j = 0; j < NW; j++) {
        aa_bits r = which == 0 ? (A0[j] & B[j]) : which == 1 ? (A0[j] | B[j]) : (A0[j] ^ B[j]);
        if (j * 32 >= w * 32) vf_true("words beyond the array are untouched", A[j] == A0[j]);
        else vf_true("word-wise operation", A[j] == r);
    }
    (void)i;
}
void h_and(void) { bitop(0); }
void h_or(void) { bitop(1); }
void h_xor(void) { bitop(2); }
// vf: h_get max_paths=2000
void h_get(void) { sym(A); size_t i = vf_pick("i", 32 * NW); vf_true("get", aa_bits_get(A, i) == bit(A, i)); size_t n = 4 * vf_pick("octets", NW + 1); vf_true("getn", aa_bits_getn(A, n, i) == (i < 8 * n ? bit(A, i) : 0)); }
void h_set(void) {
    sym(A); memcpy(A0, A, sizeof A); size_t i = vf_pick("i", 32 * NW); int v = (int)vf_int("v", -4, 4); aa_bits_set(A, i, v);
    vf_true("bit set", aa_bits_get(A, i) == (v != 0));
    for (size_t j = 0; j < NW; j++) vf_true("other bits unchanged", ((A[j] ^ A0[j]) & ~(j == i / 32 ? (aa_bits)(1u << (i % 32)) : 0)) == 0);
}
// vf: h_words budget=60
void h_words(void) { size_t n = (size_t)vf_int("n", 0, 1LL << 40); size_t w = aa_bits_words(n); vf_true("words hold n bits", w * 32 >= n); vf_true("no more than needed", w * 32 < n + 32); vf_true("octets", aa_bits_size(n) == 4 * w); }
void h_memswap(void) {
    unsigned char a[41], b[41], a0[41], b0[41]; for (int i = 0; i < 41; i++) { a0[i] = a[i] = (unsigned char)vf_int("a", 0, 255); b0[i] = b[i] = (unsigned char)vf_int("b", 0, 255); }
    size_t n = vf_pick("n", 41); aa_memswap(a, b, n);
    int ok = 1; for (size_t i = 0; i < 41; i++) ok &= (i < n) ? (a[i] == b0[i]) & (b[i] == a0[i]) : (a[i] == a0[i]) & (b[i] == b0[i]);
    vf_true("swapped exactly n octets", ok);
}
void h_memswap_el(void) { double a[3], b[3], a0[3], b0[3]; vf_reals("a", 3, a); vf_reals("b", 3, b); memcpy(a0, a, sizeof a); memcpy(b0, b, sizeof b); size_t n = vf_pick("n", 4); AA_MEM_SWAP(a, b, n); for (size_t i = 0; i < 3; i++) { vf_eq("a", a[i], i < n ? b0[i] : a0[i]); vf_eq("b", b[i], i < n ? a0[i] : b0[i]); } }
AA_VECTOR_DEF(int, ivec)
void h_vector(void) {
    ivec v; ivec_init(&v, vf_pick("max", 4)); int m[8]; size_t n = vf_pick("n", 8);
    for (size_t i = 0; i < n; i++) { m[i] = (int)vf_int("v", -5, 5); ivec_push(&v, m[i]); vf_true("size", v.size == i + 1); vf_true("capacity", v.max >= v.size); for (size_t j = 0; j <= i; j++) vf_true("elements in order", v.data[j] == m[j]); vf_block("storage", v.data, v.max * sizeof(int)); }
    vf_reach("end"); free(v.data);
}
void h_align2(void) { uint64_t v = (uint64_t)vf_int("v", 0, 1LL << 62); uint64_t al = 1ull << vf_pick("log", 8); uint64_t r = AA_ALIGN2(v, al); vf_true("aligned", (r & (al - 1)) == 0); vf_true("smallest not below", r >= v && r - v < al); }
void h_flexbuf(void) { size_t n = vf_pick("n", 20); aa_flexbuf_t *b = aa_flexbuf_alloc(n); vf_true("n", b->n == n); vf_block("room", b->d, n); for (size_t i = 0; i < n; i++) vf_true("zero", b->d[i] == 0); aa_flexbuf_free(b); aa_flexbuf_free(0); vf_reach("end"); }
void h_dup(void) {
    int s[4]; for (int i = 0; i < 4; i++) s[i] = (int)vf_int("s", -9, 9); size_t n = vf_pick("n", 5);
    int *d = AA_MEM_DUP(int, s, n); vf_block("copy", d, n * sizeof(int)); for (size_t i = 0; i < n; i++) vf_true("dup", d[i] == s[i]); free(d);
    int *x = 0; const int *c = 0; AA_MEM_DUPOP(AA_MEM_BORROW, int, c, x, s, n); vf_true("borrow", c == s && x == 0);
    AA_MEM_DUPOP(AA_MEM_STEAL, int, c, x, s, n); vf_true("steal", c == s && x == s);
    AA_MEM_DUPOP(AA_MEM_COPY, int, c, x, s, n); vf_true("copy", c == x && x != s); for (size_t i = 0; i < n; i++) vf_true("copied", c[i] == s[i]); free(x);
}
void h_local(void) { size_t n = vf_pick("big", 2) ? 5000 : 100; char *p = AA_NEW_LOCAL(char, n); vf_block("room", p, n); p[0] = p[n-1] = 1; AA_DEL_LOCAL(p, char, n); void *z = aa_malloc0(24); vf_true("zeroed", ((long*)z)[0] == 0 && ((long*)z)[2] == 0); aa_free_if_valid(z); aa_free_if_valid(0); aa_checked_free(0); vf_reach("end"); }
