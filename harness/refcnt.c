#ifdef ATOMIC
#include <stdatomic.h>
#endif
#include "vf.h"
#include "amino.h"
#include "amino/refcount.h"
/* P24: reference counts updated from several threads: every interleaving of two concurrent operations must be equivalent to
 * some sequential order (previous count returned, none lost).  CBMC explores all interleavings; natively (replay) the
 * same operations run in real threads many times. */
#ifdef ATOMIC
typedef _Atomic unsigned cnt_t;
#define INC aa_mem_ref_inc_atomic
#define DEC aa_mem_ref_dec_atomic
#else
typedef unsigned cnt_t;
unsigned aa_mem_ref_inc_mutex(unsigned*); unsigned aa_mem_ref_dec_mutex(unsigned*);
#define INC aa_mem_ref_inc_mutex
#define DEC aa_mem_ref_dec_mutex
#endif
static cnt_t count; static unsigned ret[2], c0; static int op[2];
static volatile int done[2];
static void act(int i) { ret[i] = op[i] ? INC(&count) : DEC(&count); done[i] = 1; }
static int ok(int a, int b) { unsigned x = op[a] ? c0 + 1 : c0 - 1, y = op[b] ? x + 1 : x - 1; return (ret[a] == c0) & (ret[b] == x) & (count == y); }
static int lin(void) { return ok(0,1) | ok(1,0); }
#ifdef VF_CBMC
static void run2(void) {
    done[0] = done[1] = 0;
    __CPROVER_ASYNC_1: act(0);
    act(1);
    __CPROVER_assume(done[0]);
}
#else
#include <pthread.h>
#include <sched.h>
#include <time.h>
static volatile int go;
static void *th(void *a) { int i = (int)(long)a; __atomic_fetch_add(&go, 1, __ATOMIC_SEQ_CST); for (int k = 0; __atomic_load_n(&go, __ATOMIC_SEQ_CST) < 2; k++) if (k > 2000) sched_yield(); act(i); return 0; }
static void run2(void) { pthread_t t; go = 0; pthread_create(&t, 0, th, (void*)0); th((void*)1); pthread_join(t, 0); }
#endif
// vf: h_refcount unwind=5
void h_refcount(void) {
    unsigned s = (unsigned)vf_int("count", 3, 1000); for (int i = 0; i < 2; i++) op[i] = (int)vf_int("op", 0, 1);
#ifdef VF_CBMC
    count = c0 = s; run2(); vf_true("equivalent to a sequential order", lin()); vf_reach("end");
#else
    int good = 1; time_t t0 = time(0); for (int k = 0; k < 20000 && good && time(0) < t0 + 8; k++) { count = c0 = s; run2(); good = lin(); }
    vf_true("equivalent to a sequential order", good); vf_reach("end");
#endif
}
// vf: h_seq unwind=7
void h_seq(void) {     /* single threaded semantics */
    unsigned s = (unsigned)vf_int("count", 3, 1000); count = s;
    vf_true("inc returns the previous count", INC(&count) == s); vf_true("inc adds one", count == s + 1);
    vf_true("dec returns the previous count", DEC(&count) == s + 1); vf_true("dec subtracts one", count == s); vf_reach("end");
}
