#include <stdint.h>
#include <stddef.h>
int64_t nondet_vf(void);
double nondet_vfd(void);
int64_t vf_int(const char *n, int64_t lo, int64_t hi) { int64_t vf_in_value = nondet_vf(); __CPROVER_assume(vf_in_value >= lo && vf_in_value <= hi); return vf_in_value; }
size_t vf_pick(const char *n, size_t k) { int64_t vf_in_value = nondet_vf(); __CPROVER_assume(vf_in_value >= 0 && vf_in_value < (int64_t)k); return (size_t)vf_in_value; }
void vf_assume(int c) { __CPROVER_assume(c); }
int vf_symbolic(void) { return 1; }
