/* Harness API. Implemented twice: symrt.cpp (symbolic: values are linear forms over
 * reals, decisions are made by Z3) and conrt.c (concrete replay of one counterexample
 * on the unmodified code). */
#ifndef VF_H
#define VF_H
#ifdef __cplusplus
extern "C" {
#endif
double vf_double(const char *name, double lo, double hi);   /* fresh symbolic real in [lo,hi] */
int vf_choose(const char *name, int n);                     /* 0..n-1, every value explored */
int vf_param(const char *name, int dflt);                   /* job parameter */
void vf_assume(int c);                                      /* drop the path if c is 0 */
void vf_assume_le(double a, double b);                      /* add a<=b to the path condition */
void vf_le(double a, double b, double tol, const char *fmt, ...);  /* check a<=b+tol */
void vf_eq(double a, double b, double tol, const char *fmt, ...);  /* check |a-b|<=tol */
void vf_true(int c, const char *fmt, ...);                  /* check a decided condition */
void vf_or_begin(void);                                     /* check that one of several holds */
void vf_or_le(double a, double b, double tol);
void vf_or_end(const char *fmt, ...);
int vf_try(void (*f)(void *), void *arg);                   /* -1: returned, else the exit status */
const char *vf_out(void);                                   /* text printed so far */
void vf_out_reset(void);
void vf_file(const char *name, const char *content);        /* provide an input file */
const char *vf_path(const char *name);                      /* how the code under test names it */
char *vf_num(double v, char *buf);                          /* number as text (%.17g or a token) */
double vf_parse(const char *s, char **end);                 /* text to number, tokens included */
void vf_cover(const char *tag);                             /* coverage counter */
void vf_clock_script(int n, const long *ticks);             /* clock(): i-th reading, last repeats */
void vf_clock_cb(long (*f)(int));                           /* clock(): value of reading i */
int vf_clock_calls(void);
int vf_is_concrete(double v);
int vf_symbolic(void);                                      /* 1 in the symbolic run */
void *vf_poison(void *p, unsigned long n);                  /* fill with the uninitialised pattern */
#ifdef __cplusplus
}
#endif
#endif
