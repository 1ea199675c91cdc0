#include <sys/time.h>
/* native replay runtime: inputs come from a file "name value" per line */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
static struct { char n[128]; double v; long long i; } tab[4096];
static int ntab, nviol, nreach;
static void die_sig(int s) { (void)s; static const char m[] = "VF-CRASH\n"; if (write(1, m, sizeof m - 1)) {} _exit(3); }
static void die_time(int s) { (void)s; static const char m[] = "VF-TIMEOUT\n"; if (write(1, m, sizeof m - 1)) {} _exit(5); }
static int find(const char *n) {
    for (int i = 0; i < ntab; i++) if (!strcmp(tab[i].n, n)) return i;
    return -1;
}
static int findc(const char *n) {     /* a second input of the same name is name#1, ... */
    static struct { char n[128]; int k; } cnt[4096]; static int nc;
    char b[160]; int c = 0;
    while (c < nc && strcmp(cnt[c].n, n)) c++;
    if (c == nc) { if (nc == 4096) abort(); snprintf(cnt[nc].n, sizeof cnt[nc].n, "%s", n); cnt[nc++].k = 0; }
    if (!cnt[c].k++) return find(n);
    snprintf(b, sizeof b, "%s#%d", n, cnt[c].k - 1); return find(b);
}
double vf_real(const char *n) { int i = findc(n); return i < 0 ? 0.0 : tab[i].v; }
double vf_range(const char *n, double lo, double hi) {
    int i = findc(n); double x = i < 0 ? (lo + hi) / 2 : tab[i].v;
    if (x < lo) x = lo;
    if (x > hi) x = hi;
    return x;
}
void vf_reals(const char *n, size_t k, double *x) {
    char b[160];
    for (size_t i = 0; i < k; i++) { snprintf(b, sizeof b, "%s[%zu]", n, i); x[i] = vf_real(b); }
}
void vf_unit(const char *n, size_t k, double *x) {
    double s = 0;
    vf_reals(n, k, x);
    for (size_t i = 0; i < k; i++) s += x[i] * x[i];
    s = sqrt(s);
    if (s == 0) { x[k - 1] = 1; s = 1; }
    for (size_t i = 0; i < k; i++) x[i] /= s;
}
static int nth;     /* CBMC inputs are recorded by call order, "@k value" */
static int findi(const char *n) {
    char b[160]; int i = findc(n);
    if (i < 0) { snprintf(b, sizeof b, "@%d", nth); i = find(b); }
    nth++;
    return i;
}
int64_t vf_int(const char *n, int64_t lo, int64_t hi) {
    int i = findi(n); int64_t x = i < 0 ? lo : tab[i].i;
    if (x < lo) x = lo;
    if (x > hi) x = hi;
    return x;
}
size_t vf_pick(const char *n, size_t k) { int i = findi(n); size_t x = i < 0 ? 0 : (size_t)tab[i].i; return x < k ? x : 0; }
static void cut(void) { printf("VF-ASSUME\n"); fflush(stdout); _exit(nviol ? 1 : 4); }
void vf_assume(int c) { if (!c) cut(); }
void vf_assume_le(double a, double b) { if (!(a <= b + 1e-9 * (1 + fabs(b)))) cut(); }
void vf_assume_lt(double a, double b) { if (!(a < b)) cut(); }
void vf_assume_ne(double a, double b) { if (a == b) cut(); }
void vf_assume_eq(double a, double b) { if (!(fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)))) cut(); }
static double loose(double d) { static double l = -1; if (l < 0) { const char *s = getenv("VF_LOOSE"); l = s ? atof(s) : 0; } return l > d ? l : d; }
static double tol(double a, double b) {
    static double base = -1;
    if (base < 0) { const char *s = getenv("VF_TOL"); base = s ? atof(s) : 1e-6; }
    return loose(base) * (1 + fabs(a) + fabs(b));
}
static void bad(const char *l, double a, double b) { nviol++; printf("VF-VIOLATION %s %.17g %.17g\n", l, a, b); fflush(stdout); }
void vf_near(const char *l, double a, double b, double t) { nreach++; if (!(fabs(a - b) <= t + loose(1e-12) * (1 + fabs(a) + fabs(b)))) bad(l, a, b); }
void vf_eq(const char *l, double a, double b) { nreach++; if (!(fabs(a - b) <= tol(a, b))) bad(l, a, b); }
void vf_eqn(const char *l, size_t n, const double *a, const double *b) {
    char s[200];
    for (size_t i = 0; i < n; i++) { snprintf(s, sizeof s, "%s[%zu]", l, i); vf_eq(s, a[i], b[i]); }
}
void vf_le(const char *l, double a, double b) { nreach++; if (!(a <= b + tol(a, b))) bad(l, a, b); }
void vf_true(const char *l, int c) { nreach++; if (!c) bad(l, 0, 1); }
#if defined(__SANITIZE_ADDRESS__)
void *__asan_region_is_poisoned(void *, size_t);
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static size_t live = 1u << 20;
static void on_malloc(const volatile void *p, size_t n) { (void)n; if (p) live++; }
static void on_free(const volatile void *p) { if (p) live--; }
size_t vf_live(void) { return live; }
static void hooks(void) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
void vf_block(const char *l, const void *p, size_t n) { nreach++; if (n && __asan_region_is_poisoned((void*)p, n)) bad(l, 0, 1); }
#else
size_t vf_live(void) { return 0; }
static void hooks(void) {}
void vf_block(const char *l, const void *p, size_t n) { (void)l; nreach++; if (n) { volatile const unsigned char *q = p; unsigned char s = 0; for (size_t i = 0; i < n; i++) s += q[i]; (void)s; } }
#endif
void vf_hint_root(double r) { (void)r; }
void vf_reach(const char *l) { (void)l; nreach++; }
int vf_symbolic(void) { return 0; }
struct vf_ent { const char *name; void (*fn)(void); };
extern struct vf_ent vf_table[];
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    FILE *f = fopen(argv[2], "r");
    if (!f) return 2;
    char line[512];
    while (fgets(line, sizeof line, f) && ntab < 4096) {
        char v[256];
        if (line[0] == '#') continue;
        if (sscanf(line, "%127s %255s", tab[ntab].n, v) == 2) { tab[ntab].v = strtod(v, 0); tab[ntab].i = strtoll(v, 0, 10); ntab++; }
    }
    fclose(f);
    signal(SIGSEGV, die_sig); signal(SIGABRT, die_sig); signal(SIGBUS, die_sig); signal(SIGFPE, die_sig);
    { struct itimerval it = {{0, 0}, {20, 0}}; signal(SIGPROF, die_time); setitimer(ITIMER_PROF, &it, 0); }   /* processor time */
    { static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob); }
    hooks();
    for (struct vf_ent *e = vf_table; e->name; e++)
        if (!strcmp(e->name, argv[1])) { e->fn(); printf("VF-DONE reach=%d viol=%d\n", nreach, nviol); return nviol ? 1 : 0; }
    printf("no harness %s\n", argv[1]);
    return 2;
}
/* oracle registration (see blas_model.c): the native build uses the installed LAPACK */
void vf_orc_svd(int m, int n, const double *A, const double *U, const double *S, const double *Vt) { (void)m; (void)n; (void)A; (void)U; (void)S; (void)Vt; }
void vf_orc_lls(int m, int n, int p, const double *A, const double *b, const double *x) { (void)m; (void)n; (void)p; (void)A; (void)b; (void)x; }
void vf_orc_qr(int m, int n, const double *A, const double *Q, const double *R, const double *j) { (void)m; (void)n; (void)A; (void)Q; (void)R; (void)j; }
void vf_orc_eev(int n, const double *A, const double *wr, const double *wi, const double *V) { (void)n; (void)A; (void)wr; (void)wi; (void)V; }
void vf_orc_gees(int m, const double *H, const double *U) { (void)m; (void)H; (void)U; }
