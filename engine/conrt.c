/* Concrete runtime: replays one counterexample on the natively compiled, unmodified code.
 * Exit 1: the violation is reproduced. Exit 0: it is not. */
#define _GNU_SOURCE
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
extern void VF_ENTRY(void);
int __real_fclose(FILE *); FILE *__real_freopen(const char *, const char *, FILE *); void __real_exit(int);
static struct { char n[48]; double v; int c, isint; } val[512]; static int nval;
static char dir[512], outp[600]; static FILE *rep; static int verbose;
static jmp_buf *tj; static int tcode;
static long cs[65536]; static int ncs, ci;
static int mem(void) { static int m = -1; if (m < 0) m = getenv("VF_MEM") != 0; return m; }    /* only memory errors count */
static void fail(const char *fmt, va_list ap) {
  if (mem()) { fprintf(rep, "stopped\nnot reproduced\n"); fflush(rep); _exit(0); }
  fprintf(rep, "REPRODUCED: "); vfprintf(rep, fmt, ap); fprintf(rep, "\n"); fflush(rep); fflush(stdout); _exit(1);
}
static void failf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fail(fmt, ap); }
static const char *nospace(const char *n) { static char b[64]; int i = 0; for (; n[i] && i < 47; i++) b[i] = n[i] == ' ' ? '_' : n[i]; b[i] = 0; return b; }
double vf_double(const char *n, double lo, double hi) { n = nospace(n);
  for (int i = 0; i < nval; i++) if (!val[i].isint && !strcmp(val[i].n, n)) { double v = val[i].v; if (v < lo) v = lo; if (v > hi) v = hi; return v; }
  return (lo + hi) / 2; }
static int usedc[512];
int vf_choose(const char *n, int k) { n = nospace(n);
  for (int i = 0; i < nval; i++) if (val[i].isint && !usedc[i] && !strcmp(val[i].n, n)) { usedc[i] = 1; return val[i].c < k ? val[i].c : 0; }
  return 0; }
int vf_param(const char *name, int d) {
  const char *e = getenv("VF_PARAMS"); size_t l = strlen(name);
  for (; e && *e; ) { if (!strncmp(e, name, l) && e[l] == '=') return atoi(e + l + 1); e = strchr(e, ','); if (e) e++; }
  return d; }
void vf_assume(int c) { if (!c) { fprintf(rep, "assumption not met\n"); fflush(rep); _exit(0); } }
void vf_assume_le(double a, double b) { vf_assume(a <= b + 1e-9); }
void vf_le(double a, double b, double tol, const char *f, ...) { if (mem() || a <= b + tol) return; va_list ap; va_start(ap, f); fprintf(rep, "%.17g > %.17g + %g\n", a, b, tol); fail(f, ap); }
void vf_eq(double a, double b, double tol, const char *f, ...) { if (mem() || fabs(a - b) <= tol) return; va_list ap; va_start(ap, f); fprintf(rep, "%.17g != %.17g\n", a, b); fail(f, ap); }
void vf_true(int c, const char *f, ...) { if (c) return; va_list ap; va_start(ap, f); fail(f, ap); }
static int orok;
void vf_or_begin(void) { orok = 0; }
void vf_or_le(double a, double b, double tol) { if (a <= b + tol) orok = 1; }
void vf_or_end(const char *f, ...) { if (mem() || orok) return; va_list ap; va_start(ap, f); fail(f, ap); }
int vf_try(void (*f)(void *), void *arg) { jmp_buf jb, *old = tj; tj = &jb; int r = -1; if (setjmp(jb) == 0) f(arg); else r = tcode; tj = old; return r; }
void __wrap_exit(int c) { if (tj) { tcode = c; longjmp(*tj, 1); } failf("the program exits unexpectedly with status %d", c); for (;;) ; }
void __wrap_abort(void) { __wrap_exit(134); for (;;) ; }
static long (*clock_cb)(int);
void vf_clock_cb(long (*f)(int)) { clock_cb = f; ci = 0; }
long __wrap_clock(void) { if (clock_cb) return clock_cb(ci++); long v = ncs ? cs[ci < ncs ? ci : ncs - 1] : 0; ci++; return v; }
time_t __wrap_time(time_t *t) { time_t v = __wrap_clock() / 1000000; if (t) *t = v; return v; }
int __wrap_clock_gettime(int c, struct timespec *t) { long v = __wrap_clock(); t->tv_sec = v / 1000000; t->tv_nsec = v % 1000000 * 1000; return 0; }
FILE *__wrap_freopen(const char *n, const char *m, FILE *f) { if (f == stdout) return f; return __real_freopen(n, m, f); }
int __wrap_fclose(FILE *f) { if (f == stdout || f == stderr) { fflush(f); return 0; } return __real_fclose(f); }
static char *obuf;
const char *vf_out(void) { fflush(stdout); FILE *f = fopen(outp, "r"); fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); obuf = malloc(n + 1); n = fread(obuf, 1, n, f); obuf[n] = 0; __real_fclose(f); return obuf; }
void vf_out_reset(void) { fflush(stdout); ftruncate(fileno(stdout), 0); rewind(stdout); }
const char *vf_path(const char *n) { static char b[8][700]; static int k; k = (k + 1) % 8; snprintf(b[k], 700, "%s/%s", dir, n); return b[k]; }
void vf_file(const char *n, const char *c) { FILE *f = fopen(vf_path(n), "w"); fputs(c, f); __real_fclose(f); }
char *vf_num(double v, char *b) { sprintf(b, "%.17g", v); return b; }
double vf_parse(const char *s, char **e) { return strtod(s, e); }
static const char *cov[64]; static int ncov;
void vf_cover(const char *t) { int i = 0; while (i < ncov && strcmp(cov[i], t)) i++; if (i == ncov && ncov < 64) cov[ncov++] = strdup(t); }
static int scmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
void vf_clock_script(int n, const long *t) { ncs = n; memcpy(cs, t, n * sizeof *t); ci = 0; }
int vf_clock_calls(void) { return ci; }
int vf_is_concrete(double v) { (void)v; return 1; }
int vf_symbolic(void) { return 0; }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p, n) __msan_poison(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) memset(p, 0xAA, n)
#endif
void *vf_poison(void *p, unsigned long n) { POISON(p, n); return p; }
int main(int argc, char **argv) {
  rep = fdopen(dup(1), "w"); setvbuf(rep, 0, _IONBF, 0);
  FILE *f = argc > 1 ? fopen(argv[1], "r") : 0; char line[512];
  while (f && fgets(line, sizeof line, f)) {
    if (line[0] == '#') fprintf(rep, "%s", line);
    else if (line[0] == 'C') { val[nval].isint = 1; if (sscanf(line, "C %47s %d", val[nval].n, &val[nval].c) == 2) { fprintf(rep, "  choice %s = %d\n", val[nval].n, val[nval].c); nval++; } }
    else if (line[0] == 'D') { val[nval].isint = 0; if (sscanf(line, "D %47s %la", val[nval].n, &val[nval].v) == 2) { fprintf(rep, "  %s = %.17g\n", val[nval].n, val[nval].v); nval++; } }
  }
  if (f) __real_fclose(f);
  snprintf(dir, sizeof dir, "%s", getenv("VF_SCRATCH") ? getenv("VF_SCRATCH") : "/tmp/vfscratch"); 
  char t[600]; snprintf(t, sizeof t, "%s/con.XXXXXX", dir); mkdir(dir, 0700); if (!mkdtemp(t)) return 0; snprintf(dir, sizeof dir, "%s", t);
  snprintf(outp, sizeof outp, "%s/stdout", dir); __real_freopen(outp, "w+", stdout);
  VF_ENTRY();
  qsort(cov, ncov, sizeof *cov, scmp); fprintf(rep, "native path: "); for (int i = 0; i < ncov; i++) fprintf(rep, "%s%s", i ? ", " : "", cov[i]);
  fprintf(rep, "\nnot reproduced\n");
  return 0;
}
