/* Sorting the roads. Every weight symbolic (mode 0), or every road takes one of `classes` symbolic weights (equal weights; probabilities symbolic or equal too) */
#include "common.h"
#include "algorithms/kruskal.h"
static Graph g; static Inst I; static int cls[64], pcl[64];
static int idx(int a, int b) { for (int e = 0; e < npairs; e++) if ((pa[e] == a && pb[e] == b) || (pa[e] == b && pb[e] == a)) return e; return -1; }
void harness(void) {
  int n = vf_param("n", 4), m = vf_param("m", 6), classes = vf_param("classes", 0), pc = vf_param("pclasses", 0); double cw[8], cp[8]; char nb[32];
  pairs_init(n); I.n = n; for (int i = 0; i < n; i++) { I.x[i] = I.y[i] = 0; I.has[i][i] = 0; }
  for (int k = 0; k < classes; k++) { sprintf(nb, "weight_%d", k); cw[k] = vf_double(nb, 0, 1); }
  for (int k = 0; k < pc; k++) { sprintf(nb, "probability_%d", k); cp[k] = vf_double(nb, 0, 1); }
  for (int e = 0; e < npairs; e++) { int a = pa[e], b = pb[e]; I.has[a][b] = I.has[b][a] = e < m; if (e >= m) continue;
    if (classes) { cls[e] = vf_choose(nm("class", a, b), classes); I.w[a][b] = cw[cls[e]]; } else { cls[e] = e; I.w[a][b] = vf_double(nm("w", a, b), 0, 1); }
    if (HYBRID && pc) { pcl[e] = vf_choose(nm("pclass", a, b), pc); I.p[a][b] = cp[pcl[e]]; } else I.p[a][b] = HYBRID ? vf_double(nm("p", a, b), 0, 1) : 0;
    I.w[b][a] = I.w[a][b]; I.p[b][a] = I.p[a][b]; }
  inst_graph(&I, &g); m = g.num_edges;
  int times = vf_param("twice", 0) ? 2 : 1; for (int t = 0; t < times; t++) { g.orderedEdges = false; wrap_quick_sort(&g); }
  vf_true(g.num_edges == m && g.num_nodes == n, "sorting changes the number of roads or cities"); vf_true(g.orderedEdges, "the graph is not marked as sorted");
  int seen[64] = {0};
  for (int i = 0; i < m; i++) { Edge *e = &g.edges[i]; int k = e->src < n && e->dest < n && e->src != e->dest ? idx(e->src, e->dest) : -1;
    vf_true(k >= 0 && k < m && I.has[pa[k]][pb[k]], "sorting yields a road that was not there"); if (!(k >= 0 && k < m)) return; vf_true(!seen[k], "sorting yields a road twice"); seen[k] = 1;
    vf_eq(e->weight, I.w[pa[k]][pb[k]], 0, "sorting changes a weight"); vf_eq(e->prob, I.p[pa[k]][pb[k]], 0, "sorting changes a probability"); vf_true(e->symbol == k + 1, "sorting changes a road's identity");
    vf_true(e->positionInGraph == i, "a road records a wrong position after sorting");
    for (int s = 0; s < 2; s++) { Edge *x = s ? &g.edges_matrix[e->dest][e->src] : &g.edges_matrix[e->src][e->dest]; vf_true(x->positionInGraph == i, "the adjacency matrix designates a wrong road after sorting"); vf_true(idx(x->src, x->dest) == k && x->symbol == k + 1, "the adjacency matrix entry of a road changes"); vf_eq(x->weight, e->weight, 0, "the adjacency matrix disagrees on a weight"); vf_eq(x->prob, e->prob, 0, "the adjacency matrix disagrees on a probability"); }
    if (i) { Edge *q = &g.edges[i - 1]; int l = idx(q->src, q->dest); vf_le(q->weight, e->weight, 0, "the roads are not sorted by weight"); if (HYBRID && classes && cls[k] == cls[l]) { vf_cover("equal weights"); vf_le(e->prob, q->prob, 0, "roads of equal weight are not sorted by decreasing probability"); } } }
  for (int i = 0; i < n; i++) { int d = 0; for (int j = 0; j < n; j++) if (I.has[i][j]) { vf_true(g.nodes[i].neighbours[d] == j, "sorting changes the neighbours"); d++; } vf_true(g.nodes[i].num_neighbours == d, "sorting changes the degrees"); }
}
