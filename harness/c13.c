/* Reading a TSPLIB file. bad 0: well-formed files with symbolic coordinates; bad 1: another weight type, malformed lines, too many cities */
#include "common.h"
static Graph g; static double X[16], Y[16]; static char buf[8000];
static void readit(void *a) { read_tsp_lib_file(&g, (char *)vf_path("in.tsp")); }
void harness(void) {
  int n = vf_param("n", 3), bad = vf_param("bad", 0), kind = 0, at = 0, J = 0, fixed = vf_param("fixed", 0); char nb[32], n1[64], n2[64], *q = buf; double R = vf_param("range", 1); vf_poison(&g, sizeof g);
  for (int i = 0; i < n; i++) { if (bad || i < fixed) { X[i] = (i * 37 % 11) * R / 16; Y[i] = (i * 53 % 13) * R / 16; } else { sprintf(nb, "x_%d", i); X[i] = vf_double(nb, -R, R); sprintf(nb, "y_%d", i); Y[i] = vf_double(nb, -R, R); } }
  static const char *junk[] = {"x 1.5 2.5\n", "1 1.5\n", "1 abc 2.5\n", "1 1.5 ?\n", "\n", "1;1.5;2.5\n"};
  static const char *type[] = {"EXPLICIT", "GEO", "CEIL_2D", "EUC_3D", "MAN_2D", "ATT", ""};
  if (bad) { kind = vf_choose("defect", 3); if (kind == 0) J = vf_choose("weight type", 7); else if (kind == 1) { J = vf_choose("junk", 6); at = vf_choose("line", n); } }
  int sp = vf_choose("spacing", 2), first = vf_choose("first number", 2), end = vf_choose("end of file", 3), order = vf_choose("header order", 2);
  q += sprintf(q, "NAME : test\n"); if (order) q += sprintf(q, "DIMENSION : %d\n", n);
  if (bad && kind == 0) { if (type[J][0]) q += sprintf(q, "EDGE_WEIGHT_TYPE : %s\n", type[J]); } else q += sprintf(q, sp ? "EDGE_WEIGHT_TYPE : EUC_2D\n" : "EDGE_WEIGHT_TYPE: EUC_2D\n");
  if (!order) q += sprintf(q, "COMMENT : none\nTYPE : TSP\nDIMENSION : %d\n", n);
  q += sprintf(q, "NODE_COORD_SECTION\n"); int extra = bad && kind == 2 ? MAX_VERTEX_NUM + 1 - n : 0;
  for (int i = 0; i < n + extra; i++) { if (bad && kind == 1 && at == i) { q += sprintf(q, "%s", junk[J]); continue; }
    vf_num(i < n ? X[i] : i, n1); vf_num(i < n ? Y[i] : 0.5 * i, n2); q += sprintf(q, sp ? "%d %s %s\n" : " %d  %s   %s\n", (first ? i + 1 : n - i), n1, n2); }
  if (end != 2) q += sprintf(q, end ? "EOF\n" : "EOF");
  vf_file("in.tsp", buf); int rc = vf_try(readit, 0);
  if (bad) { vf_cover(kind == 0 ? "other weight type" : kind == 1 ? "malformed line" : "too many cities"); vf_true(rc > 0, kind == 0 ? "weight type '%s' is not refused" : kind == 1 ? "a malformed coordinate line is not refused (%s)" : "an instance larger than the capacity is not refused%s", kind == 0 ? type[J] : kind == 1 ? junk[J] : ""); return; }
  vf_true(rc == -1, "a well-formed file is refused"); if (rc != -1) return;
  int m = n * (n - 1) / 2; double cost = 0; vf_cover("well-formed");
  vf_true(g.num_nodes == n && g.num_edges == m, "%d cities and %d roads are read instead of %d and %d", g.num_nodes, g.num_edges, n, m); if (g.num_nodes != n || g.num_edges != m) return;
  for (int i = 0; i < n; i++) { vf_true(g.nodes[i].positionInGraph == i, "a city has a wrong number"); vf_eq(g.nodes[i].x, X[i], 1e-6 * R, "a coordinate is read wrongly"); vf_eq(g.nodes[i].y, Y[i], 1e-6 * R, "a coordinate is read wrongly");
    int seen = 0; vf_true(g.nodes[i].num_neighbours == n - 1, "a city has %d neighbours", g.nodes[i].num_neighbours); if (g.nodes[i].num_neighbours != n - 1) return;
    for (int k = 0; k < n - 1; k++) { int j = g.nodes[i].neighbours[k]; vf_true(j < n && j != i && !(seen >> j & 1), "a neighbour list is wrong"); if (j >= n) return; seen |= 1 << j; } }
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { int k = g.edges_matrix[a][b].positionInGraph; vf_true(k < m, "a road has a wrong position"); if (k >= m) return; Edge *x[3] = {&g.edges[k], &g.edges_matrix[a][b], &g.edges_matrix[b][a]};
    for (int s = 0; s < 3; s++) { Edge *e = x[s]; vf_true((e->src == a && e->dest == b) || (e->src == b && e->dest == a), "a road has wrong end points"); vf_true(e->positionInGraph == k, "a road has a wrong position"); vf_eq(e->prob, 0, 0, "a road has a probability");
      double dx = g.nodes[a].x - g.nodes[b].x, dy = g.nodes[a].y - g.nodes[b].y; vf_eq(e->weight, sqrt(dx * dx + dy * dy), 2e-6 * R, "a distance is not the Euclidean one"); } }
}
