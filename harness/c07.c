#include "common.h"
static Inst I; static Graph g1, g2; static MST m1, m2;
static const char *alg;
static double tree_w(const Inst *I, const int *idx, int k) { double s = 0; for (int i = 0; i < k; i++) s = s + I->w[pa[idx[i]]][pb[idx[i]]]; return s; }
static void tree_le(const int *idx, int k, void *arg) {
  for (int i = 0; i < k; i++) if (!I.has[pa[idx[i]]][pb[idx[i]]]) return;
  vf_le(((MST *)arg)->cost, tree_w(&I, idx, k), TOL, "%s: the spanning tree is not minimal", alg);
}
static void check(MST *m, int connected) {
  int n = I.n, u[16], deg[16] = {0}; double c = 0;
  vf_true(m->isValid == connected, "%s: validity is reported as %d on a %sconnected graph", alg, m->isValid, connected ? "" : "dis");
  vf_true(m->num_nodes == n, "%s: the tree has %d cities instead of %d", alg, m->num_nodes, n);
  for (int i = 0; i < 16; i++) u[i] = i;
  vf_true(m->num_edges < n || n == 0, "%s: too many roads", alg);
  for (int i = 0; i < m->num_edges && i < n; i++) {
    int a = m->edges[i].src, b = m->edges[i].dest;
    vf_true(a < n && b < n && I.has[a][b], "%s: the tree uses a road that is not in the graph", alg);
    if (!(a < n && b < n && I.has[a][b])) return;
    int ra = uf_root(u, a), rb = uf_root(u, b); vf_true(ra != rb, "%s: the tree has a cycle", alg); u[ra] = rb; deg[a]++; deg[b]++;
    c = c + I.w[a][b]; vf_eq(m->edges[i].weight, I.w[a][b], TOL, "%s: wrong road weight", alg);
    vf_true(m->edges_matrix[a][b] == i && m->edges_matrix[b][a] == i, "%s: the adjacency matrix disagrees with the roads", alg);
  }
  vf_eq(m->cost, c, TOL, "%s: the cost is not the sum of the weights", alg);
  for (int i = 0; i < n; i++) { vf_true(m->nodes[i].num_neighbours == deg[i], "%s: wrong degree", alg);
    for (int k = 0; k < m->nodes[i].num_neighbours && k < n; k++) vf_true(m->nodes[i].neighbours[k] < n && m->edges_matrix[i][m->nodes[i].neighbours[k]] >= 0, "%s: wrong neighbour", alg);
    for (int j = 0; j < n; j++) if (m->edges_matrix[i][j] != -1) vf_true(m->edges_matrix[i][j] >= 0 && m->edges_matrix[i][j] < m->num_edges && ((m->edges[m->edges_matrix[i][j]].src == i && m->edges[m->edges_matrix[i][j]].dest == j) || (m->edges[m->edges_matrix[i][j]].src == j && m->edges[m->edges_matrix[i][j]].dest == i)), "%s: an adjacency entry names another road", alg); }
  if (connected) { vf_true(m->num_edges == n - 1, "%s: %d roads instead of %d", alg, m->num_edges, n - 1); all_trees((1 << n) - 1, tree_le, m); }
}
void harness(void) {
  int n = vf_param("n", 3), sparse = vf_param("sparse", 0), which = vf_param("alg", 0);
  pairs_init(n); inst_symbolic(&I, n, 0.0, WHI);
  if (HYBRID) inst_probs(&I, 0, 1);
  if (sparse) for (int e = 0; e < npairs; e++) if (vf_choose(nm("missing", pa[e], pb[e]), 2)) I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 0;
  int u[16]; for (int i = 0; i < 16; i++) u[i] = i;
  for (int e = 0; e < npairs; e++) if (I.has[pa[e]][pb[e]]) u[uf_root(u, pa[e])] = uf_root(u, pb[e]);
  int conn = 1; for (int i = 1; i < n; i++) if (uf_root(u, i) != uf_root(u, 0)) conn = 0;
  vf_cover(conn ? "connected" : "disconnected");
  if (which != 1) { alg = "prim"; inst_graph(&I, &g1); vf_poison(&m1, sizeof m1); prim(&g1, &m1); check(&m1, conn); }
  if (which != 2) { alg = "kruskal"; inst_graph(&I, &g2); vf_poison(&m2, sizeof m2); kruskal(&g2, &m2); check(&m2, conn); }
  if (which == 0 && conn) { vf_eq(m1.cost, m2.cost, TOL, "prim and kruskal disagree on the cost"); }
}
