/* ClpSimplex stand-in: the real class layout, methods that record the problem (see lp.c) */
#include <vector>
#include <string>
#include <map>
#include <list>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#define protected public
#define private public
#include <coin/ClpSimplex.hpp>
extern "C" {
void *rec_new(int m, int n); void rec_del(void *); void rec_col(int j, double lo, double hi); void rec_row(int i, double lo, double hi); void rec_obj(int j, double c); void rec_mat(int i, int j, double v); void rec_dir(int max); int rec_solve(void); int rec_addrow(void); int rec_addcol(void); double *rec_x(void); int rec_m(void); void rec_lo(int j, double l); void rec_hi(int j, double u); int rec_n(void);
void clp_ctor(ClpSimplex *p, bool) __asm__("_ZN10ClpSimplexC1Eb"); void clp_dtor(ClpSimplex *p) __asm__("_ZN10ClpSimplexD1Ev");
void clp_dtor(ClpSimplex *) { rec_del((void *)0); }
void clp_log(void *, int) __asm__("_ZN18CoinMessageHandler11setLogLevelEi"); void clp_log(void *, int) {}
static void mod_(void *, int i, int j, double v, bool) { rec_mat(i, j, v); }
}
#define R8 mod_, mod_, mod_, mod_, mod_, mod_, mod_, mod_
#define R64 R8, R8, R8, R8, R8, R8, R8, R8
static void (*const vt_[])(void *, int, int, double, bool) = { R64, R64 };
static const void *mat_ = vt_;
static double hnd_[4096];
extern "C" {
void clp_ctor(ClpSimplex *p, bool) { rec_new(0, 0); p->columnActivity_ = 0; p->matrix_ = (ClpMatrixBase *)&mat_; p->handler_ = (CoinMessageHandler *)hnd_; }
}
static double un(double v) { return v >= COIN_DBL_MAX ? INFINITY : v <= -COIN_DBL_MAX ? -INFINITY : v; }
void ClpSimplex::resize(int m, int n) { while (rec_m() < m) rec_addrow(); while (rec_n() < n) rec_addcol(); }
void ClpSimplex::setRowBounds(int i, double l, double u) { rec_row(i, un(l), un(u)); }
void ClpSimplex::setColumnBounds(int j, double l, double u) { rec_col(j, un(l), un(u)); }
void ClpSimplex::setObjectiveCoefficient(int j, double c) { rec_obj(j, c); }
int ClpSimplex::initialSolve() { columnActivity_ = rec_x(); return rec_solve(); }
void ClpModel::setOptimizationDirection(double d) { rec_dir(d < 0); }
void ClpModel::addRow(int k, const int *c, const double *v, const double l, const double u) { int i = rec_addrow(); for (int a = 0; a < k; a++) rec_mat(i, c[a], v[a]); rec_row(i, un(l), un(u)); }
void ClpModel::addColumn(int k, const int *r, const double *v, const double l, const double u, const double c) { int j = rec_addcol(); for (int a = 0; a < k; a++) rec_mat(r[a], j, v[a]); rec_col(j, un(l), un(u)); rec_obj(j, c); }
void ClpModel::chgColumnLower(const double *l) { for (int j = 0; j < rec_n(); j++) rec_lo(j, un(l[j])); }
void ClpModel::chgColumnUpper(const double *u) { for (int j = 0; j < rec_n(); j++) rec_hi(j, un(u[j])); }
void ClpModel::chgObjCoefficients(const double *c) { for (int j = 0; j < rec_n(); j++) rec_obj(j, c[j]); }
