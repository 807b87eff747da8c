/* The choice of the special city against minimum 1-trees computed by a reference (in hybrid mode without equal roads) */
#include "bb.h"
static Graph before; static double cost, prob;
static void min_one_tree(int c) {
  int n = I.n, u[16], used[64] = {0}; double w = 0, p = 0; for (int i = 0; i < 16; i++) u[i] = i;
  for (int t = 0; t < n; t++) { int best = -1; for (int e = 0; e < npairs; e++) { int at = pa[e] == c || pb[e] == c; if (used[e] || at != (t >= n - 2) || (!at && uf_root(u, pa[e]) == uf_root(u, pb[e]))) continue; if (best < 0 || I.w[pa[e]][pb[e]] < I.w[pa[best]][pb[best]]) best = e; }
    used[best] = 1; if (t < n - 2) u[uf_root(u, pa[best])] = uf_root(u, pb[best]); w = w + I.w[pa[best]][pb[best]]; p = p + I.p[pa[best]][pb[best]]; }
  cost = w; prob = p / n;
}
static int over(double d, double limit) { double x = d - limit; if (x < 1e-7 && x > -1e-7) vf_assume(0); return x > 0; }
void harness(void) {
  int n = vf_param("n", 4), ref = 0; inst_base(n, vf_param("base", 0), vf_param("sym", 3), vf_param("sp", 0)); problem_setup(0); before = P.graph;
  P.bestValue = P.bestSolution.value = INFINITE;
  int c = find_candidate_node();
  vf_true(c >= 0 && c < n, "the special city %d is not a city", c); if (!(c >= 0 && c < n)) return;
  double bv = 0, bp = 0;
  for (int i = 0; i < n; i++) { min_one_tree(i); int better = over(cost - bv, EPS); if (HYBRID && !better) better = over(cost - bv, 0) && over(prob - bp, (double)BETTER_PROB); if (better) { ref = i; bv = cost; bp = prob; } }
  char t[32]; sprintf(t, "city %d", ref); vf_cover(t);
  vf_true(c == ref, "city %d is chosen, but the criterion prefers city %d", c, ref);
  vf_true(P.graph.num_nodes == n && P.graph.num_edges == npairs, "the choice changes the instance");
  for (int e = 0; e < npairs; e++) { vf_eq(P.graph.edges[e].weight, before.edges[e].weight, 0, "the choice changes a road"); vf_true(P.graph.edges[e].src == before.edges[e].src && P.graph.edges[e].dest == before.edges[e].dest && P.graph.edges[e].positionInGraph == e, "the choice changes a road");
    int a = pa[e], b = pb[e]; vf_eq(P.graph.edges_matrix[a][b].weight, I.w[a][b], 0, "the choice changes the adjacency matrix"); vf_eq(P.graph.edges_matrix[b][a].weight, I.w[a][b], 0, "the choice changes the adjacency matrix"); vf_eq(P.graph.edges_matrix[a][b].prob, I.p[a][b], 0, "the choice changes a probability"); }
  for (int i = 0; i < n; i++) { vf_true(P.graph.nodes[i].num_neighbours == n - 1, "the choice changes a degree"); for (int k = 0; k < n - 1; k++) vf_true(P.graph.nodes[i].neighbours[k] == before.nodes[i].neighbours[k], "the choice changes the neighbours"); }
}
