/* Inputs of the bounded model checking harnesses. The same file is compiled for CBMC (inputs are
 * arbitrary within the stated range) and natively (inputs are read back from a counterexample). */
#ifndef ND_H
#define ND_H
#ifdef __CPROVER__
int nondet_int(void); double nondet_double(void);
int nd_i[64], nd_n; double nd_d[32]; int nd_m;
static int nd(int lo, int hi) { int v = nondet_int(); __CPROVER_assume(v >= lo && v <= hi); nd_i[nd_n++] = v; return v; }
static double ndd(double lo, double hi) { double v = nondet_double(); __CPROVER_assume(v >= lo && v <= hi); nd_d[nd_m++] = v; return v; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, text) __CPROVER_assert(c, "CHECK: " text)
#define REACHED() __CPROVER_assert(0, "REACHED")
#else
#include <stdio.h>
#include <stdlib.h>
static int nd_i[64], nd_n, nd_c; static double nd_d[32]; static int nd_m, nd_e;
static int nd(int lo, int hi) { int v = nd_n < nd_c ? nd_i[nd_n] : lo; nd_n++; if (v < lo || v > hi) { printf("out of range\n"); exit(0); } return v; }
static double ndd(double lo, double hi) { double v = nd_m < nd_e ? nd_d[nd_m] : lo; nd_m++; if (!(v >= lo && v <= hi)) { printf("out of range\n"); exit(0); } return v; }
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "assumption not met\n"); exit(0); } } while (0)
#define CHECK(c, text) do { if (!(c)) { fprintf(stderr, "REPRODUCED: %s\n", text); exit(9); } } while (0)
#define REACHED() fprintf(stderr, "reached the end\n")
void harness(void);
int main(int argc, char **argv) { FILE *f = argc > 1 ? fopen(argv[1], "r") : 0; char l[256]; while (f && fgets(l, sizeof l, f)) { if (l[0] == 'I') nd_i[nd_c++] = atoi(l + 2); else if (l[0] == 'R') nd_d[nd_e++] = strtod(l + 2, 0); } if (f) fclose(f); harness(); return 0; }
#endif
#endif
