#include "vf.h"
#include "amino.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
/* P23: text input: lines, vectors, matrices; stored in regions or heap buffers that grow on demand */
static struct aa_mem_region reg;
/* lines of symbolic characters in a region of symbolic size with part of it already used */
static void getline_(size_t n) {
    aa_mem_region_init(&reg, 8 * vf_pick("init", 3)); char *pre = aa_mem_region_alloc(&reg, 16 * vf_pick("used", 2));
    char txt[12]; for (size_t i = 0; i < n; i++) txt[i] = (char)vf_int("c", 1, 127);
    FILE *f = fmemopen(txt, n, "r");
    size_t pos = 0;
    for (int k = 0; k < 2; k++) {      /* two lines in a row */
        char *s = aa_io_getline(f, &reg); size_t m = 0; while (pos + m < n && txt[pos + m] != '\n') m++;
        vf_block("line fits its storage", s, m + 1);
        for (size_t i = 0; i < m; i++) vf_true("line text", s[i] == txt[pos + i]);
        vf_true("terminated", s[m] == 0); pos += m + 1; if (pos > n) pos = n;
        vf_true("line is allocated", (char*)aa_mem_region_ptr(&reg) >= s + m + 1 || (uintptr_t)aa_mem_region_ptr(&reg) != (uintptr_t)s);
    }
    (void)pre; fclose(f); aa_mem_region_destroy(&reg);
}
// vf: h_line2 max_paths=20000
void h_line2(void) { getline_(2); }
// vf: h_line4 max_paths=20000
void h_line4(void) { getline_(4); }
/* a line of exactly, or about, the free size of the chunk */
// vf: h_line_full max_paths=20000
void h_line_full(void) {
    static char txt[64]; size_t n = 14 + vf_pick("len", 22); for (size_t i = 0; i < n; i++) txt[i] = (char)('a' + i % 26); txt[n] = '\n';
    aa_mem_region_init(&reg, 16 * vf_pick("init", 2)); FILE *f = fmemopen(txt, n + 1, "r");
    char *s = aa_io_getline(f, &reg); vf_block("line fits its storage", s, n + 1); for (size_t i = 0; i < n; i++) vf_true("line text", s[i] == txt[i]); vf_true("terminated", s[n] == 0);
    char *q = aa_mem_region_alloc(&reg, 4); vf_true("later allocation does not overlap", q >= s + n + 1 || q + 4 <= s); fclose(f); aa_mem_region_destroy(&reg);
}
/* vectors: numbers separated by blanks, up to a comment, junk, the end, or the requested count */
static const char *NT[] = {"1", "-2.5", "3e2", ".25"}; static const double NV[] = {1, -2.5, 300, .25};
static const char *SEP[] = {" ", "\t", "  \t"}; static const char *END[] = {"", "#9", " # 5 6", "x7"};
static char line[128]; static double ev[8]; static size_t ne;
static void mkline(void) {
    line[0] = 0; ne = vf_pick("count", 4); if (vf_pick("lead", 2)) strcat(line, " ");
    size_t sp = vf_pick("sep", 3), o = vf_pick("nums", 4);
    for (size_t i = 0; i < ne; i++) { if (i) strcat(line, SEP[sp]); size_t j = (o + i) % 4; strcat(line, NT[j]); ev[i] = NV[j]; }
    strcat(line, END[vf_pick("end", 4)]);
}
// vf: h_parsevector max_paths=20000
void h_parsevector(void) {
    mkline(); if (ne && line[strlen(line)-1] == '7' && 0) return;
    size_t n = vf_pick("n", 5), inc = 1 + vf_pick("inc", 2); double X[16]; for (int i = 0; i < 16; i++) X[i] = 77; char *e; size_t k = aa_io_parsevector(line, n, X, inc, &e);
    size_t m = ne < n ? ne : n; vf_true("count", k == m);
    for (size_t i = 0; i < m; i++) vf_eq("value", X[i*inc], ev[i]);
    for (size_t i = 0; i < 16; i++) if (i % inc || i / inc >= n) vf_eq("elements outside are untouched", X[i], 77);
    vf_true("end pointer inside the line", e >= line && e <= line + strlen(line)); if (m == ne && n > ne) vf_true("stops at the rest of the line", *e == 0 || *e == '#' || *e == 'x' || *e == ' ');
    vf_true("end pointer optional", aa_io_parsevector(line, n, X, inc, 0) == m);
}
// vf: h_d_parse max_paths=20000
void h_d_parse(void) {
    mkline(); aa_mem_region_init(&reg, 8 * vf_pick("init", 3)); void *pre = aa_mem_region_alloc(&reg, 16 * vf_pick("used", 2)); double *X = 0; char *e; size_t k = aa_io_d_parse(line, &reg, &X, &e);
    vf_true("count", k == ne); if (k) vf_block("values are stored", X, k * sizeof(double)); for (size_t i = 0; i < ne; i++) vf_eq("value", X[i], ev[i]);
    char *q = aa_mem_region_alloc(&reg, 8); if (k) vf_true("values are allocated", q >= (char*)(X + k) || q + 8 <= (char*)X); (void)pre; vf_reach("end"); aa_mem_region_destroy(&reg);
}
// vf: h_skipblank max_paths=3000
void h_skipblank(void) { char s[4]; for (int i = 0; i < 3; i++) s[i] = (char)vf_int("c", 0, 127); s[3] = 0; char *p = aa_io_skipblank(s); for (char *q = s; q < p; q++) vf_true("skipped characters are blank", *q == ' ' || *q == '\t'); vf_true("stops at the first other", *p != ' ' && *p != '\t' && p <= s + 3); }
static char file[256];
static size_t mkfile(double *val, size_t n, int blanks) {     /* rows of n numbers */
    file[0] = 0; size_t rows = vf_pick("rows", 4);
    for (size_t r = 0; r < rows; r++) {
        if (blanks && vf_pick("blank", 2)) strcat(file, r % 2 ? "\n" : "# note\n");
        for (size_t i = 0; i < n; i++) { size_t j = (r + i) % 4; if (i) strcat(file, SEP[r % 3]); strcat(file, NT[j]); val[r*n + i] = NV[j]; }
        if (r + 1 < rows || vf_pick("final_newline", 2)) strcat(file, "\n");
    }
    return rows;
}
// vf: h_matrix_heap max_paths=20000
void h_matrix_heap(void) {
    double v[16]; size_t n = 1 + vf_pick("cols", 3), rows = mkfile(v, n, 1), elts = vf_pick("elts", 4), len = strlen(file); if (!len) return;
    double *A = elts ? malloc(elts * sizeof(double)) : 0; FILE *f = fmemopen(file, len, "r"); ssize_t k = aa_io_fread_matrix_heap(f, n, &A, &elts); fclose(f);
    vf_true("number of lines", k == (ssize_t)rows); vf_true("reported capacity", elts >= rows * n); vf_block("storage", A, elts * sizeof(double));
    for (size_t i = 0; i < rows * n; i++) vf_eq("element", A[i], v[i]); free(A);
}
void h_matrix_bad(void) {    /* a short line: its negative number is returned */
    size_t n = 2, bad = vf_pick("bad", 3); strcpy(file, ""); for (size_t r = 0; r < 3; r++) strcat(file, r == bad ? "1\n" : "1 2\n"); double *A = 0; size_t elts = 0; FILE *f = fmemopen(file, strlen(file), "r");
    vf_true("negative line number", aa_io_fread_matrix_heap(f, n, &A, &elts) == -(ssize_t)(bad + 1)); fclose(f); free(A);
}
void h_matrix_fix(void) {
    double v[16], A[40]; size_t n = 1 + vf_pick("cols", 3), rows = mkfile(v, n, 0), lda = rows + vf_pick("pad", 2), len = strlen(file); if (!len) return; if (!lda) lda = 1; for (int i = 0; i < 40; i++) A[i] = 77;
    FILE *f = fmemopen(file, len, "r"); void *h = aa_mem_region_ptr(aa_mem_region_local_get()); size_t k = aa_io_fread_matrix_fix(f, rows, n, A, lda); fclose(f);
    vf_true("number of elements", k == rows * n); for (size_t r = 0; r < rows; r++) for (size_t c = 0; c < n; c++) vf_eq("element", A[c*lda + r], v[r*n + c]);
    vf_true("temporary memory is returned", h == aa_mem_region_ptr(aa_mem_region_local_get())); for (size_t i = n * lda; i < 40; i++) vf_eq("nothing written outside", A[i], 77);
}
void h_read_realloc(void) {
    int p[2]; if (pipe(p)) return; unsigned char d[64]; for (int i = 0; i < 64; i++) d[i] = (unsigned char)vf_int("d", 0, 255); size_t n = vf_pick("n", 40) + 1; if (write(p[1], d, n) < 0) return; close(p[1]);
    size_t max = vf_pick("max", 30) + 1, off = 0; void *buf = malloc(max);
    for (int k = 0; k < 6; k++) { ssize_t r = aa_read_realloc(p[0], &buf, off, &max); vf_block("buffer has the reported size", buf, max); if (r <= 0) break; off += (size_t)r; vf_true("within the buffer", off <= max); }
    vf_true("everything was read", off == n); int ok = 1; for (size_t i = 0; i < n; i++) ok &= ((unsigned char*)buf)[i] == d[i]; vf_true("data in order", ok); free(buf); close(p[0]);
}
// vf: h_read_realloc max_paths=2000
