/* services the tracked code never reaches in these harnesses (inverse kinematics solvers) */
#include <stdio.h>
#include <stdlib.h>
void aa_dump_vec(FILE *f, const double *v, size_t n) { (void)f; (void)v; (void)n; }
#define S(n) int n(void) { abort(); }
S(nlopt_create) S(nlopt_destroy) S(nlopt_set_min_objective) S(nlopt_add_equality_constraint) S(nlopt_set_ftol_abs) S(nlopt_set_ftol_rel) S(nlopt_set_xtol_rel) S(nlopt_set_lower_bounds) S(nlopt_set_upper_bounds) S(nlopt_optimize) S(aa_ode_sol) S(aa_tm_now)
