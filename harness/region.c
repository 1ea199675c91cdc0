#include "vf.h"
#include "amino.h"
#include <string.h>
/* P17: memory regions.  Sequences of operations on a region of symbolic initial size with symbolic request sizes,
 * against the list of allocations (and marks) that have to be alive. */
#define MAXL 10
#define MAXSZ 100
struct live { unsigned char *p; size_t n; unsigned char tag; };
static struct live L[MAXL];
static int nl, tagged;
static struct aa_mem_region reg;
static int apart(struct live *a, struct live *b) { return (a->n == 0) | (b->n == 0) | ((uintptr_t)a->p + a->n <= (uintptr_t)b->p) | ((uintptr_t)b->p + b->n <= (uintptr_t)a->p); }
static void put(unsigned char *p, size_t n) {
    vf_true("aligned", ((uintptr_t)p & (AA_MEMREG_ALIGN - 1)) == 0);
    vf_block("room for the request", p, n);
    L[nl].p = p; L[nl].n = n; L[nl].tag = (unsigned char)(nl + 1);
    for (int i = 0; i < nl; i++) vf_true("disjoint from live allocations", apart(L + i, L + nl));
    vf_true("not in the chunk header", (uintptr_t)p >= (uintptr_t)reg.node->d);
    if (tagged) { vf_assume(n > 0); p[0] = L[nl].tag; }
    nl++;
}
static void alive(void) {
    for (int i = 0; i < nl; i++) {
        vf_block("live allocation is still allocated", L[i].p, L[i].n);
        if (tagged && L[i].tag) vf_true("live allocation keeps its contents", L[i].p[0] == L[i].tag);
    }
}
static size_t sz(int lo, int hi) { return (size_t)vf_int("size", lo, hi); }
static void op_alloc(void) { size_t n = sz(tagged, MAXSZ); put(aa_mem_region_alloc(&reg, n), n); }
static void op_small(void) { size_t n = sz(tagged, 16); put(aa_mem_region_alloc(&reg, n), n); }
static void op_mark(void) { L[nl].p = aa_mem_region_ptr(&reg); L[nl].n = 0; L[nl].tag = 0; nl++; }
static void op_popk(int k) { aa_mem_region_pop(&reg, L[k].p); nl = k; alive(); }
static void op_pop(void) { if (nl) op_popk((int)vf_pick("which", (size_t)nl)); }
static void op_release(void) { aa_mem_region_release(&reg); nl = 0; }
static void fin(void) {
    alive();
    size_t f = aa_mem_region_freesize(&reg); unsigned char *h = aa_mem_region_ptr(&reg);
    vf_block("free space is allocated", h, f);
    L[nl].p = h; L[nl].n = f; for (int i = 0; i < nl; i++) vf_true("free space is free", apart(L + i, L + nl));
    aa_mem_region_destroy(&reg);
    vf_reach("end");
}
static void start(void) { nl = 0; tagged = 0; aa_mem_region_init(&reg, (size_t)vf_int("init", 0, 64)); }
static void any(void) { switch (vf_pick("op", 4)) { case 0: op_alloc(); break; case 1: op_mark(); break; case 2: op_pop(); break; default: op_release(); } alive(); }
static void acc(void) { switch (vf_pick("op", 3)) { case 0: op_alloc(); break; case 1: op_mark(); break; default: op_pop(); } alive(); }
// vf: h_any3 max_paths=20000
void h_any3(void) { start(); any(); any(); any(); fin(); }
// vf: h_any4 max_paths=20000
void h_any4(void) { start(); op_alloc(); acc(); acc(); any(); fin(); }
// vf: h_any6 max_paths=100000 tier=thorough
void h_any6(void) { start(); any(); any(); any(); any(); any(); any(); fin(); }
// vf: h_grow_pop max_paths=20000
void h_grow_pop(void) { start(); op_alloc(); op_alloc(); op_alloc(); op_pop(); op_alloc(); fin(); }
// vf: h_mark max_paths=20000
void h_mark(void) { start(); op_alloc(); op_mark(); op_alloc(); op_popk(1); op_mark(); op_alloc(); op_popk(1); op_alloc(); fin(); }
/* marks of an empty top chunk stay valid while older allocations live */
void h_mark2(void) { start(); op_alloc(); op_alloc(); op_popk(1); op_mark(); op_alloc(); op_popk(1); op_alloc(); fin(); }
// vf: h_contents max_paths=20000
void h_contents(void) { start(); tagged = 1; op_small(); op_small(); op_small(); op_pop(); op_small(); fin(); }
// vf: h_zalloc max_paths=20000
void h_zalloc(void) {
    start(); op_small(); size_t n = sz(1, 12); size_t k = sz(0, 11); vf_assume(k < n);
    unsigned char *p = aa_mem_region_zalloc(&reg, n); vf_true("zeroed", p[k] == 0); put(p, n); fin();
}
// vf: h_dup max_paths=20000
void h_dup(void) {
    start(); tagged = 1; op_small(); tagged = 0; unsigned char src[20]; for (int i = 0; i < 20; i++) src[i] = (unsigned char)vf_int("src", 0, 255);
    size_t n = sz(0, 20); unsigned char *p = aa_mem_region_dup(&reg, src, n);
    for (size_t i = 0; i < n; i++) vf_true("copied", p[i] == src[i]);
    put(p, n); vf_true("source untouched", L[0].p[0] == 1); fin();
}
void h_strdup(void) {
    start(); op_alloc(); char s[9] = "abcdefgh"; size_t k = 3 * vf_pick("len", 3); s[k] = 0;
    char *p = aa_mem_region_strdup(&reg, s); put((unsigned char*)p, k + 1); for (size_t i = 0; i <= k; i++) vf_true("string copied", p[i] == s[i]);
    op_alloc(); fin();
}
/* temporary space: the next allocation no larger than it returns it */
// vf: h_tmp max_paths=20000
void h_tmp(void) {
    start(); op_alloc(); size_t n = sz(0, MAXSZ), m = sz(0, MAXSZ); vf_assume(m <= n);
    unsigned char *p = aa_mem_region_tmpalloc(&reg, n); vf_block("room for the request", p, n); vf_true("aligned", ((uintptr_t)p & (AA_MEMREG_ALIGN - 1)) == 0);
    L[nl].p = p; L[nl].n = n; for (int i = 0; i < nl; i++) vf_true("disjoint from live allocations", apart(L + i, L + nl));
    alive();
    unsigned char *r = aa_mem_region_alloc(&reg, m); vf_true("allocation returns the temporary space", r == p); put(r, m); op_alloc(); op_popk((int)vf_pick("which", 3)); op_alloc(); fin();
}
/* growing temporary space keeps its contents */
// vf: h_tmprealloc max_paths=20000
void h_tmprealloc(void) {
    nl = 0; tagged = 0; aa_mem_region_init(&reg, (size_t)vf_int("init", 0, 6)); op_small();
    size_t n = aa_mem_region_freesize(&reg); unsigned char *p = aa_mem_region_ptr(&reg);
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(i * 7 + 3);
    size_t m = sz(0, 70); unsigned char *r = aa_mem_region_tmprealloc(&reg, m); vf_block("room for the request", r, m); alive();
    for (size_t i = 0; i < n && i < m; i++) vf_true("contents kept", r[i] == (unsigned char)(i * 7 + 3));
    vf_true("space is the head", r == (unsigned char*)aa_mem_region_ptr(&reg)); fin();
}
/* a create()d region behaves like an init()ed one; chunk bookkeeping */
void h_chunks(void) {
    nl = 0; tagged = 0; struct aa_mem_region *r = aa_mem_region_create((size_t)vf_int("init", 0, 64)); reg = *r;
    vf_true("one chunk", aa_mem_region_chunk_count(r) == 1);
    size_t n = sz(0, MAXSZ); size_t f = aa_mem_region_freesize(r); unsigned char *p = aa_mem_region_alloc(r, n);
    vf_block("room for the request", p, n);
    vf_true("no growth while it fits", n > f || aa_mem_region_chunk_count(r) == 1);
    vf_true("initial request fits", f >= (size_t)vf_int("dummy", 0, 0));
    vf_true("top chunk holds the free space", aa_mem_region_topsize(r) >= aa_mem_region_freesize(r));
    aa_mem_region_release(r); vf_true("one chunk after release", aa_mem_region_chunk_count(r) == 1);
    size_t k = sz(0, 0); (void)k; vf_true("released space covers what was allocated", aa_mem_region_freesize(r) >= n);
    aa_mem_region_destroy(r); vf_reach("end");
}

/* a formatted string is complete whatever space the top chunk has left, and earlier allocations keep their contents */
// vf: h_printf max_paths=20000
void h_printf(void) {
    nl = 0; tagged = 0; aa_mem_region_init(&reg, 8 + 17*vf_pick("init", 3)); size_t n = vf_pick("length", 80), m = vf_pick("earlier", 2) * 24; char s[100]; for (size_t i = 0; i < n; i++) s[i] = (char)('a' + i % 26); s[n] = 0;
    if (m) { unsigned char *p = aa_mem_region_alloc(&reg, m); put(p, m); memset(p, 7, m); }
    char *t = aa_mem_region_printf(&reg, "%s", s); put((unsigned char*)t, n + 1);
    vf_true("the whole string", !strcmp(t, s)); for (size_t i = 0; i < m; i++) vf_true("earlier allocation unchanged", L[0].p[i] == 7);
    alive(); t = aa_mem_region_printf(&reg, "<%d %s>", (int)n, "x"); vf_true("second string", t[0] == '<' && t[strlen(t) - 1] == '>' && t[strlen(t) - 2] == 'x'); put((unsigned char*)t, strlen(t) + 1); fin();
}
