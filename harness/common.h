/* Shared by all harnesses: instances with symbolic roads, enumeration of tours and trees. */
#ifndef COMMON_H
#define COMMON_H
#include "vf.h"
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
#ifndef WLO
#define WLO 0.0625
#endif
#ifndef WHI
#define WHI 1.0
#endif
#define EPS ((double)(sqrt(MAX_VERTEX_NUM) * 1.27f / 1000))
#define TOL 1e-6
static char nmbuf[8][64]; static int nmk;
static const char *nm(const char *p, int i, int j) { nmk = (nmk + 1) & 7; sprintf(nmbuf[nmk], "%s_%d_%d", p, i, j); return nmbuf[nmk]; }
/* an instance: n cities, w[i][j] > 0 where there is a road, p[i][j] its probability */
typedef struct { int n; double x[MAX_VERTEX_NUM + 1], y[MAX_VERTEX_NUM + 1]; double w[MAX_VERTEX_NUM + 1][MAX_VERTEX_NUM + 1], p[MAX_VERTEX_NUM + 1][MAX_VERTEX_NUM + 1]; int has[MAX_VERTEX_NUM + 1][MAX_VERTEX_NUM + 1]; } Inst;
static void inst_graph(const Inst *I, Graph *g) {
  memset(g, 0, sizeof *g); vf_poison(g->edges_matrix, sizeof g->edges_matrix); vf_poison(g->nodes, sizeof g->nodes); vf_poison(g->edges, sizeof g->edges);
  g->kind = WEIGHTED_GRAPH; g->cost = 0; g->num_nodes = I->n; g->num_edges = 0; g->orderedEdges = 0;
  for (int i = 0; i < I->n; i++) { g->nodes[i].positionInGraph = i; g->nodes[i].x = I->x[i]; g->nodes[i].y = I->y[i]; g->nodes[i].num_neighbours = 0; }
  for (int i = 0; i < I->n; i++) for (int j = 0; j < I->n; j++) if (i != j && I->has[i][j]) {
    g->nodes[i].neighbours[g->nodes[i].num_neighbours++] = j;
    if (j > i) { Edge *e = &g->edges[g->num_edges]; e->src = i; e->dest = j; e->symbol = g->num_edges + 1; e->positionInGraph = g->num_edges; e->weight = I->w[i][j]; e->prob = HYBRID ? I->p[i][j] : 0;
      g->cost += e->weight; g->edges_matrix[i][j] = *e; g->edges_matrix[j][i] = *e; g->num_edges++; } }
}
/* every weight and probability symbolic; sparse instances drop the roads in mask */
static void inst_symbolic(Inst *I, int n, double lo, double hi) {
  I->n = n;
  for (int i = 0; i < n; i++) { I->x[i] = 0; I->y[i] = 0; I->w[i][i] = 0; I->p[i][i] = 0; I->has[i][i] = 0; }
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { I->has[i][j] = I->has[j][i] = 1; I->w[i][j] = I->w[j][i] = vf_double(nm("w", i, j), lo, hi); I->p[i][j] = I->p[j][i] = 0; }
}
static void inst_probs(Inst *I, double lo, double hi) {
  for (int i = 0; i < I->n; i++) for (int j = i + 1; j < I->n; j++) I->p[i][j] = I->p[j][i] = vf_double(nm("p", i, j), lo, hi);
}
/* permutations: calls f(order, n, arg) for every tour (city 0 first, one orientation) */
typedef void (*TourFn)(const int *t, int n, void *arg);
static void tours_rec(int *t, int k, int n, int used, TourFn f, void *arg) {
  if (k == n) { if (n < 3 || t[1] < t[n - 1]) f(t, n, arg); return; }
  for (int c = 1; c < n; c++) if (!(used >> c & 1)) { t[k] = c; tours_rec(t, k + 1, n, used | 1 << c, f, arg); }
}
static void all_tours(int n, TourFn f, void *arg) { int t[16]; t[0] = 0; tours_rec(t, 1, n, 1, f, arg); }
/* edge sets: all subsets of size k of the m pairs (i<j) that form a spanning tree of the cities in mask */
static int npairs, pa[64], pb[64];
static void pairs_init(int n) { npairs = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { pa[npairs] = i; pb[npairs] = j; npairs++; } }
static int uf_root(const int *u, int x) { while (u[x] != x) x = u[x]; return x; }
typedef void (*SetFn)(const int *idx, int k, void *arg);
static void trees_rec(int *idx, int k, int need, int from, int mask, const int *u0, SetFn f, void *arg) {
  if (k == need) { f(idx, k, arg); return; }
  for (int e = from; e < npairs; e++) if ((mask >> pa[e] & 1) && (mask >> pb[e] & 1)) {
    int u[16]; memcpy(u, u0, sizeof u); int a = uf_root(u, pa[e]), b = uf_root(u, pb[e]); if (a == b) continue;
    u[a] = b; idx[k] = e; trees_rec(idx, k + 1, need, e + 1, mask, u, f, arg); }
}
static void all_trees(int mask, SetFn f, void *arg) { int u[16], idx[16]; for (int i = 0; i < 16; i++) u[i] = i; trees_rec(idx, 0, __builtin_popcount(mask) - 1, 0, mask, u, f, arg); }
#endif
