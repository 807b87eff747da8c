/* Recognition of tours on 1-trees. mode 0: the cheapest 1-tree of symbolic road lengths, its roads added in the order of
 * their lengths; mode 1: every 1-tree (a symbolic choice of roads), roads added in index order and in reverse */
#include "bb.h"
static SubProblem s; static int deg[16], has[16][16];
static void add(int a, int b) { Edge *e = &P.graph.edges_matrix[a][b]; Edge x = *e; if (vf_param("flip", 0) && vf_choose("orientation", 2)) { x.src = e->dest; x.dest = e->src; } add_edge(&s.oneTree, &x); deg[a]++; deg[b]++; has[a][b] = has[b][a] = 1; }
void harness(void) {
  int n = vf_param("n", 4), mode = vf_param("mode", 0), idx[16], k = 0;
  if (mode == 0) { pairs_init(n); inst_symbolic(&I, n, 0, WHI); } else { vf_param("", 0); pairs_init(n); I.n = n; for (int e = 0; e < npairs; e++) { I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 1; I.w[pa[e]][pb[e]] = I.w[pb[e]][pa[e]] = 1; } }
  int c = vf_choose("special city", vf_param("cands", n)); problem_setup(c);
  vf_poison(&s, sizeof s); create_mst(&s.oneTree, P.graph.nodes, n);
  int u[16], used[64] = {0}; for (int i = 0; i < 16; i++) u[i] = i;
  if (mode == 0) {
    for (int t = 0; t < n - 2; t++) { int best = -1; for (int e = 0; e < npairs; e++) if (pa[e] != c && pb[e] != c && !used[e] && uf_root(u, pa[e]) != uf_root(u, pb[e]) && (best < 0 || I.w[pa[e]][pb[e]] < I.w[pa[best]][pb[best]])) best = e;
      used[best] = 1; u[uf_root(u, pa[best])] = uf_root(u, pb[best]); idx[k++] = best; }
    for (int t = 0; t < 2; t++) { int best = -1; for (int e = 0; e < npairs; e++) if ((pa[e] == c || pb[e] == c) && !used[e] && (best < 0 || I.w[pa[e]][pb[e]] < I.w[pa[best]][pb[best]])) best = e; used[best] = 1; idx[k++] = best; }
  } else {
    int from = 0; for (int t = 0; t < n - 2; t++) { char nb[32]; sprintf(nb, "road_%d", t); int e = from + vf_choose(nb, npairs - from); from = e + 1; if (pa[e] == c || pb[e] == c) vf_assume(0); int a = uf_root(u, pa[e]), b = uf_root(u, pb[e]); if (a == b) vf_assume(0); u[a] = b; idx[k++] = e; if (from >= npairs && t < n - 3) vf_assume(0); }
    int x = vf_choose("x", n), y = vf_choose("y", n); if (x >= y || x == c || y == c) vf_assume(0);
    for (int e = 0; e < npairs; e++) if ((pa[e] == c && (pb[e] == x || pb[e] == y)) || (pb[e] == c && (pa[e] == x || pa[e] == y))) idx[k++] = e;
    if (vf_choose("reverse", 2)) for (int i = 0; i < (n - 2) / 2; i++) { int t = idx[i]; idx[i] = idx[n - 3 - i]; idx[n - 3 - i] = t; }
  }
  for (int i = 0; i < k; i++) add(pa[idx[i]], pb[idx[i]]);
  s.num_edges_in_cycle = 0;
  int r = check_hamiltonian(&s), all2 = 1, d[16] = {0}; for (int i = 0; i < n; i++) if (deg[i] != 2) all2 = 0;
  vf_cover(all2 ? "tour" : "not a tour");
  vf_true(!!r == all2, all2 ? "a tour is not recognised" : "a 1-tree that is not a tour is recognised as one");
  int m = s.num_edges_in_cycle; vf_true(m >= 3 && m <= n, "the recorded cycle has %d roads", m); if (m < 3 || m > n) return;
  for (int i = 0; i < m; i++) { int a = s.cycleEdges[i].src, b = s.cycleEdges[i].dest; vf_true(a < n && b < n && has[a][b], "the recorded cycle uses a road twice or one that is not in the 1-tree"); if (!(a < n && b < n)) return; d[a]++; d[b]++; has[a][b] = has[b][a] = 0; }
  for (int i = 0; i < n; i++) vf_true(d[i] == 0 || d[i] == 2, "the recorded roads are not a cycle");
  vf_true(d[c] == 2, "the recorded cycle misses the special city");
  for (int i = 0; i < m; i++) { int q = (i + 1) % m, a = s.cycleEdges[i].src, b = s.cycleEdges[i].dest, e = s.cycleEdges[q].src, f = s.cycleEdges[q].dest; vf_true(a == e || a == f || b == e || b == f, "the recorded cycle is not in walking order"); }
}
