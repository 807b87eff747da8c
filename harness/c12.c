/* Reading a distance/probability matrix file. bad 0: well-formed files, all numbers symbolic; bad 1: one entry malformed, or rows,
 * columns or cities beyond the size or the capacity */
#include "common.h"
static Graph g; static double w[16][16], p[16][16], X[16], Y[16]; static char buf[40000]; static int rd;
static void readit(void *a) { read_tsp_csv_file(&g, (char *)vf_path("in.csv")); }
static char *put(char *q, double a, double b, const char *sep) { char n1[64], n2[64]; vf_num(a, n1); vf_num(b, n2); return q + sprintf(q, "(%s, %s)%s", n1, n2, sep); }
void harness(void) {
  int n = vf_param("n", 4), bad = vf_param("bad", 0), kind = 0, at = 0, concrete = vf_param("concrete", 0); char nb[32], *q = buf; vf_poison(&g, sizeof g);
  for (int i = 0; i < n; i++) { if (concrete) { X[i] = i / 8.0; Y[i] = i / 4.0; } else { sprintf(nb, "x_%d", i); X[i] = vf_double(nb, -1000, 1000); sprintf(nb, "y_%d", i); Y[i] = vf_double(nb, -1000, 1000); }
    for (int j = 0; j < i; j++) { if (concrete) { w[i][j] = 0.5 + (i * 3 + j) / 32.0; p[i][j] = (i + j) / 32.0; } else { w[i][j] = vf_double(nm("w", j, i), vf_param("neg", 1) ? -0.25 : 0.001, 1000); p[i][j] = vf_double(nm("p", j, i), 0, 1); } w[j][i] = w[i][j]; p[j][i] = p[i][j]; } }
  double diag = 0; int dz = bad ? 0 : vf_choose("diagonal", 2); if (dz) diag = vf_double("diagonal value", 0, 10);
  if (bad) { kind = vf_choose("defect", 7); }
  /* 0 bad coordinate, 1 bad entry, 2 city beyond the capacity, 3 a row too many, 4 an entry too many in a row, 5 entry with one number, 6 empty entry */
  static const char *junk[] = {"(a, 0)", "0.5", "(0.5 0.25)", "[0.5, 0.25]", "(0.5, x)", "(, 0.25)", "("}; int J = 0; if (bad && kind <= 1) J = vf_choose("junk", 7);
  if (bad && kind == 0) at = vf_choose("city", n); if (bad && (kind == 1 || kind == 5 || kind == 6)) { at = vf_choose("entry", n * n); if (at / n == at % n) vf_assume(0); } if (bad && kind == 4) at = vf_choose("row", n);
  int trail = vf_choose("trailing separator", 2), extra = bad && kind == 2 ? MAX_VERTEX_NUM + 1 - n : 0; if (extra < 0) extra = 0;
  for (int i = 0; i < n + extra; i++) { const char *sep = i < n + extra - 1 || trail ? ";" : ""; if (bad && kind == 0 && at == i) q += sprintf(q, "%s%s", junk[J], sep); else q = put(q, i < n ? X[i] : 0.5, i < n ? Y[i] : 0.25, sep); }
  q += sprintf(q, "\n"); int N = n + extra;
  for (int i = 0; i < N + (bad && kind == 3); i++) {
    for (int j = 0; j < N + (bad && kind == 4 && at == i); j++) {
      if (bad && kind == 1 && at == i * n + j) q += sprintf(q, "%s;", junk[J]); else if (bad && kind == 5 && at == i * n + j) q += sprintf(q, "(0.5);"); else if (bad && kind == 6 && at == i * n + j) q += sprintf(q, "();");
      else q = put(q, i < n && j < n ? (i == j ? diag : w[i][j]) : 0.5, i < n && j < n && i != j ? p[i][j] : 0, ";"); }
    int nonl = !bad && i == N - 1 && vf_choose("no final newline", 2); if (!nonl) q += sprintf(q, "\n"); }
  vf_file("in.csv", buf);
  int rc = vf_try(readit, 0);
  if (bad) { vf_cover("defective file"); vf_true(rc > 0, kind == 2 ? "an instance larger than the capacity is not refused" : kind == 3 ? "a superfluous row is not refused" : kind == 4 ? "a superfluous entry is not refused" : "a malformed entry is not refused (%s)", kind < 2 ? junk[J] : kind == 5 ? "(0.5)" : "()"); return; }
  vf_true(rc == -1, "a well-formed file is refused"); if (rc != -1) return;
  int m = 0, k = 0; double cost = 0; int has[16][16] = {{0}};
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w[i][j] > 0) { has[i][j] = has[j][i] = 1; m++; cost = cost + w[i][j]; }
  vf_cover(m == n * (n - 1) / 2 ? "complete" : "sparse");
  vf_true(g.num_nodes == n, "%d cities are read instead of %d", g.num_nodes, n); vf_true(g.num_edges == m, "%d roads are read instead of %d", g.num_edges, m); if (g.num_nodes != n || g.num_edges != m) return;
  vf_true(g.kind == WEIGHTED_GRAPH && !g.orderedEdges, "wrong kind, or unsorted roads are marked as sorted"); vf_eq(g.cost, cost, TOL * 1000, "the cost is not the sum of the distances");
  for (int i = 0; i < n; i++) { vf_true(g.nodes[i].positionInGraph == i, "a city has a wrong number"); vf_eq(g.nodes[i].x, X[i], 0, "a coordinate is read wrongly"); vf_eq(g.nodes[i].y, Y[i], 0, "a coordinate is read wrongly");
    int d = 0, seen = 0; for (int j = 0; j < n; j++) d += has[i][j]; vf_true(g.nodes[i].num_neighbours == d, "a city has %d neighbours instead of %d", g.nodes[i].num_neighbours, d); if (g.nodes[i].num_neighbours != d) return;
    for (int q = 0; q < d; q++) { int j = g.nodes[i].neighbours[q]; vf_true(j < n && has[i][j] && !(seen >> j & 1), "a neighbour list is wrong"); if (j >= n) return; seen |= 1 << j; } }
  int used[64] = {0};
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (has[i][j]) { int k = g.edges_matrix[i][j].positionInGraph; vf_true(k < m && !used[k], "a road has a wrong position"); if (k >= m) return; used[k] = 1; Edge *x[3] = {&g.edges[k], &g.edges_matrix[i][j], &g.edges_matrix[j][i]};
    for (int s = 0; s < 3; s++) { Edge *e = x[s]; vf_true((e->src == i && e->dest == j) || (e->src == j && e->dest == i), "a road has wrong end points"); vf_true(e->positionInGraph == k, "a road has a wrong position"); vf_eq(e->weight, w[i][j], 0, "a distance is read wrongly"); vf_eq(e->prob, HYBRID ? p[i][j] : 0, 0, "a probability is read wrongly"); } }
}
