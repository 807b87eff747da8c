/* The relaxation: cheapest 1-tree allowed by the constraints, against all 1-trees. alg 0 Prim, 1 Kruskal */
#include "bb.h"
static SubProblem s; static double cost; static int cand, exists; static const char *alg; static int pairsel;
static int ok_edge(int a, int b) { return I.has[a][b] && s.constraints[a][b] != FORBIDDEN; }
static void cand_pairs(double w, unsigned long used, int check) {
  int n = I.n; for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (a != cand && b != cand && ok_edge(cand, a) && ok_edge(cand, b)) {
    int okm = 1; for (int e = 0; e < npairs; e++) if (s.constraints[pa[e]][pb[e]] == MANDATORY) { int in = used >> e & 1; if (pa[e] == cand) in = pb[e] == a || pb[e] == b; else if (pb[e] == cand) in = pa[e] == a || pa[e] == b; if (!in) okm = 0; }
    if (!okm) continue; exists = 1;
    if (check) vf_le(cost, w + I.w[cand][a] + I.w[cand][b], TOL, "%s: an allowed 1-tree is cheaper", alg); } }
static void tree(const int *idx, int k, void *arg) { double w = 0; unsigned long used = 0; for (int i = 0; i < k; i++) { if (!ok_edge(pa[idx[i]], pb[idx[i]])) return; w = w + I.w[pa[idx[i]]][pb[idx[i]]]; used |= 1ul << idx[i]; } cand_pairs(w, used, *(int *)arg); }
void harness(void) {
  int n = vf_param("n", 4), which = vf_param("alg", 0), sparse = vf_param("sparse", 0), scale = vf_param("scale", 1);
  pairs_init(n); inst_symbolic(&I, n, vf_param("lo", 0) * 1.0, scale * 1.0);
  if (sparse) for (int e = 0; e < npairs; e++) if (vf_choose(nm("missing", pa[e], pb[e]), 2)) I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 0;
  cand = vf_choose("special city", vf_param("cands", n)); problem_setup(cand);
  node_setup(&s, vf_param("k", 3), 0);
  for (int e = 0; e < npairs; e++) if (s.constraints[pa[e]][pb[e]] != NOTHING && !I.has[pa[e]][pb[e]]) vf_assume(0);
  if (mandatory_circuit(&s, cand)) vf_assume(0);
  alg = which ? "kruskal" : "prim";
  if (which) constrained_kruskal(&P.graph, &s, cand); else constrained_prim(&P.graph, &s, cand);
  BBNodeType t = CLOSED_UNFEASIBLE; if (s.oneTree.isValid) t = mst_to_one_tree(&s, &P.graph);
  int no = 0, yes = 1; exists = 0; all_trees(((1 << n) - 1) & ~(1 << cand), tree, &no);
  vf_cover(exists ? "1-tree exists" : "no 1-tree");
  if (!exists) { vf_true(t == CLOSED_UNFEASIBLE, "%s: a 1-tree is reported where none is allowed", alg); return; }
  vf_true(t == OPEN, "%s: infeasible is reported although an allowed 1-tree exists", alg); if (t != OPEN) return;
  vf_true(s.oneTree.num_edges == n, "%s: the 1-tree has %d roads", alg, s.oneTree.num_edges); if (s.oneTree.num_edges != n) return;
  int u[16], cd = 0, deg[16] = {0}; double c = 0; unsigned long used = 0; for (int i = 0; i < 16; i++) u[i] = i;
  for (int i = 0; i < n; i++) { int a = s.oneTree.edges[i].src, b = s.oneTree.edges[i].dest; vf_true(a < n && b < n && ok_edge(a, b), "%s: a forbidden or missing road is in the 1-tree", alg); if (!(a < n && b < n && I.has[a][b])) return;
    for (int e = 0; e < npairs; e++) if ((pa[e] == a && pb[e] == b) || (pa[e] == b && pb[e] == a)) { vf_true(!(used >> e & 1), "%s: a road appears twice", alg); used |= 1ul << e; }
    deg[a]++; deg[b]++; c = c + I.w[a][b]; vf_eq(s.oneTree.edges[i].weight, I.w[a][b], 0, "%s: wrong weight in the 1-tree", alg); vf_true(s.oneTree.edges_matrix[a][b] == i && s.oneTree.edges_matrix[b][a] == i, "%s: adjacency of the 1-tree", alg);
    if (a == cand || b == cand) cd++; else { int x = uf_root(u, a), y = uf_root(u, b); vf_true(x != y, "%s: a circuit without the special city", alg); u[x] = y; } }
  vf_true(cd == 2, "%s: the special city has %d roads", alg, cd);
  for (int i = 0; i < n; i++) { vf_true(s.oneTree.nodes[i].num_neighbours == deg[i], "%s: wrong degree", alg); }
  for (int e = 0; e < npairs; e++) if (s.constraints[pa[e]][pb[e]] == MANDATORY) vf_true(used >> e & 1, "%s: a mandatory road is missing", alg);
  vf_eq(s.oneTree.cost, c, TOL, "%s: the cost of the 1-tree is not the sum of its roads", alg);
  cost = c; all_trees(((1 << n) - 1) & ~(1 << cand), tree, &yes);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && I.has[i][j]) vf_eq(P.graph.edges_matrix[i][j].weight, I.w[i][j], 0, "%s: the graph is changed", alg);
}
