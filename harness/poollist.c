#include "vf.h"
#include "amino.h"
#include <string.h>
/* P18: object pools and region lists */
#define MAXL 8
struct obj { unsigned char *p; int live; unsigned char tag; };
static struct obj O[MAXL];
static int no; static size_t osz; static aa_mem_pool_t pool;
static void check_live(void) {
    for (int i = 0; i < no; i++) if (O[i].live) { vf_block("live object is allocated", O[i].p, osz); vf_true("live object keeps its contents", O[i].p[0] == O[i].tag && O[i].p[osz-1] == O[i].tag); }
}
static void op_alloc(void) {
    unsigned char *p = aa_mem_pool_alloc(&pool);
    vf_true("aligned", ((uintptr_t)p & 15) == 0); vf_block("room for the object", p, osz);
    for (int i = 0; i < no; i++) if (O[i].live) vf_true("disjoint from live objects", p + osz <= O[i].p || O[i].p + osz <= p);
    O[no].p = p; O[no].live = 1; O[no].tag = (unsigned char)(no + 1); p[0] = p[osz-1] = O[no].tag; no++;
}
static void op_free(void) {
    if (!no) return;
    int k = (int)vf_pick("which", (size_t)no); if (!O[k].live) return;
    O[k].live = 0; aa_mem_pool_free(&pool, O[k].p);
}
static void op_release(void) { aa_mem_pool_release(&pool); for (int i = 0; i < no; i++) O[i].live = 0; }
static void start(void) { static const size_t s[] = {1, 8, 16, 17, 40}; osz = s[vf_pick("size", 5)]; no = 0; aa_mem_pool_init(&pool, osz, vf_pick("count", 3)); }
static void any(void) { switch (vf_pick("op", 3)) { case 0: op_alloc(); break; case 1: op_free(); break; default: op_release(); } check_live(); }
// vf: h_pool4 max_paths=40000
void h_pool4(void) { start(); op_alloc(); any(); any(); any(); op_alloc(); check_live(); vf_reach("end"); aa_mem_pool_destroy(&pool); }
// vf: h_pool6 max_paths=200000 tier=thorough
void h_pool6(void) { start(); op_alloc(); op_alloc(); any(); any(); any(); any(); op_alloc(); check_live(); vf_reach("end"); aa_mem_pool_destroy(&pool); }
// vf: h_pool_reuse max_paths=40000
void h_pool_reuse(void) {   /* freed objects are handed out again before the region grows */
    start(); op_alloc(); op_alloc(); op_alloc(); int a = (int)vf_pick("a", 3), b = (int)vf_pick("b", 3); if (a == b) return;
    aa_mem_pool_free(&pool, O[a].p); aa_mem_pool_free(&pool, O[b].p); O[a].live = O[b].live = 0; check_live();
    size_t c = aa_mem_region_chunk_count(&pool.region); void *h = aa_mem_region_ptr(&pool.region);
    op_alloc(); op_alloc(); check_live();
    vf_true("no growth while freed objects remain", c == aa_mem_region_chunk_count(&pool.region) && h == aa_mem_region_ptr(&pool.region)); op_alloc(); check_live();
    aa_mem_pool_destroy(&pool);
}
/* ---- lists: a double ended sequence in a region */
static int M[16], nm, next_v; static struct aa_mem_region reg; static struct aa_mem_rlist *list; static int seen; static int *ptrs[16]; static char isptr[16]; static int vals[16];
static void visit(void *cx, void *e) { vf_true("map context", cx == (void*)&seen); vf_true("map visits in order", seen < nm && *(int*)e == M[seen]); seen++; }
static void lcheck(void) { seen = 0; aa_mem_rlist_map(list, visit, &seen); vf_true("map visits every element", seen == nm); }
static void lop(void) {
    int v = (int)vf_int("v", -1000, 1000);
    switch (vf_pick("op", 5)) {
    case 0: aa_mem_rlist_push_cpy(list, &v, sizeof v); memmove(M + 1, M, sizeof(int) * (size_t)nm); M[0] = v; nm++; break;
    case 1: vals[next_v] = v; aa_mem_rlist_push_ptr(list, &vals[next_v++]); memmove(M + 1, M, sizeof(int) * (size_t)nm); M[0] = v; nm++; break;
    case 2: aa_mem_rlist_enqueue_cpy(list, &v, sizeof v); M[nm++] = v; break;
    case 3: vals[next_v] = v; aa_mem_rlist_enqueue_ptr(list, &vals[next_v]); M[nm++] = v;
            next_v++; break;
    default: { void *p = aa_mem_rlist_pop(list);
        if (nm) { vf_true("pop returns the front element", p && *(int*)p == M[0]); memmove(M, M + 1, sizeof(int) * (size_t)(nm - 1)); nm--; }
        else vf_true("pop of an empty list is NULL", p == 0); }
    }
    v = 12345; /* copies are independent of the caller's variable */
    lcheck();
}
// vf: h_list4 max_paths=40000
void h_list4(void) { nm = next_v = 0; aa_mem_region_init(&reg, 16 * vf_pick("init", 3)); list = aa_mem_rlist_alloc(&reg); vf_true("empty list pops NULL", aa_mem_rlist_pop(list) == 0); lop(); lop(); lop(); lop(); aa_mem_region_destroy(&reg); }
// vf: h_list6 max_paths=200000 tier=thorough
void h_list6(void) { nm = next_v = 0; aa_mem_region_init(&reg, 16 * vf_pick("init", 2)); list = aa_mem_rlist_alloc(&reg); lop(); lop(); lop(); lop(); lop(); lop(); aa_mem_region_destroy(&reg); }
void h_list_ptr(void) {    /* ptr variants store the very pointer */
    nm = 0; aa_mem_region_init(&reg, 64); list = aa_mem_rlist_alloc(&reg); int a, b, c; aa_mem_rlist_push_ptr(list, &a); aa_mem_rlist_enqueue_ptr(list, &b); aa_mem_rlist_push_ptr(list, &c);
    vf_true("front", aa_mem_rlist_pop(list) == &c); vf_true("middle", aa_mem_rlist_pop(list) == &a); vf_true("back", aa_mem_rlist_pop(list) == &b); vf_true("empty", aa_mem_rlist_pop(list) == 0); aa_mem_region_destroy(&reg);
}
