#include "vf.h"
#include "amino.h"
#include "amino/heap.h"
#include <string.h>
/* P20: heap sort over elements of any size: sorted, and a permutation of the input */
static size_t es;
static int cmp(const void *a, const void *b) { int8_t x = *(const int8_t*)a, y = *(const int8_t*)b; return x < y ? -1 : x > y; }
static int cmpdiff(const void *a, const void *b) { return *(const int8_t*)a - *(const int8_t*)b; }
static int8_t key[8];
static void run(size_t n, size_t sz, int (*c)(const void*, const void*)) {
    es = sz; unsigned char buf[8 * 24 + 2]; memset(buf, 0xEE, sizeof buf); unsigned char *base = buf + 1;
    for (size_t i = 0; i < n; i++) { key[i] = (int8_t)vf_int("k", -128, 127); base[i*es] = (unsigned char)key[i]; for (size_t j = 1; j < es; j++) base[i*es + j] = (unsigned char)(i * 16 + j % 16); }
    aa_aheap_sort(base, n, es, c);
    int seen = 0;
    for (size_t i = 0; i < n; i++) {
        if (i) vf_true("sorted ascending", (int8_t)base[(i-1)*es] <= (int8_t)base[i*es]);
        if (es > 1) { int id = base[i*es + 1] >> 4; vf_true("element identity", id < (int)n && !((seen >> id) & 1)); seen |= 1 << id; vf_true("key moved with its element", (int8_t)base[i*es] == key[id]); int ok = 1; for (size_t j = 1; j < es; j++) ok &= base[i*es + j] == (unsigned char)(id * 16 + j % 16); vf_true("element moved whole", ok); }
    }
    if (es > 1) vf_true("permutation of the input", seen == (1 << n) - 1);
    else for (size_t i = 0; i < n; i++) { int c0 = 0, c1 = 0; for (size_t j = 0; j < n; j++) { c0 += key[j] == key[i]; c1 += (int8_t)base[j] == key[i]; } vf_true("multiset kept", c0 == c1); }
    vf_true("nothing outside the array written", buf[0] == 0xEE && base[n*es] == 0xEE);
}
// vf: h_sort_small max_paths=5000
void h_sort_small(void) { static const size_t s[] = {1, 2, 7, 8, 9, 16, 24}; run(vf_pick("n", 4), s[vf_pick("es", 7)], cmp); }
// vf: h_sort4 max_paths=5000
void h_sort4(void) { static const size_t s[] = {8, 12}; run(4, s[vf_pick("es", 2)], vf_pick("cmp", 2) ? cmp : cmpdiff); }
// vf: h_sort5 max_paths=20000
void h_sort5(void) { run(5, 4, cmp); }
// vf: h_sort6 max_paths=100000 tier=thorough
void h_sort6(void) { run(6, 4, cmp); }
// vf: h_heapify max_paths=20000
void h_heapify(void) {   /* building a heap: every parent is at least its children */
    size_t n = 2 + vf_pick("n", 5); int8_t b[8]; for (size_t i = 0; i < n; i++) b[i] = (int8_t)vf_int("k", -128, 127);
    extern void aa_aheap_build(uint8_t *base, size_t nmemb, size_t size, int (*)(const void*, const void*)); extern size_t aa_aheap_check(uint8_t *base, size_t nmemb, size_t size, size_t i, int (*)(const void*, const void*));
    aa_aheap_build((uint8_t*)b, n, 1, cmp); for (size_t i = 1; i < n; i++) vf_true("heap order", b[(i-1)/2] >= b[i]); vf_true("check accepts a heap", aa_aheap_check((uint8_t*)b, n, 1, 0, cmp) == 0);
}
