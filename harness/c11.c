/* Building a graph. mode 0: from lists of cities and roads (any set of roads, either orientation, in any of several orders);
 * mode 1: complete graph from symbolic coordinates, against squared distances */
#include "common.h"
static Graph g; static Node nodes[MAX_VERTEX_NUM]; static Edge edges[64]; static double w[16][16], p[16][16]; static int has[16][16], idx[16][16];
void harness(void) {
  int n = vf_param("n", 4), mode = vf_param("mode", 0), m = 0; pairs_init(n); char nb[32]; double R = vf_param("range", 1);
  List *L = new_list(), *E = new_list();
  for (int i = 0; i < n; i++) { nodes[i].positionInGraph = i; nodes[i].num_neighbours = 0; if (mode && i < vf_param("fixed", 0)) { nodes[i].x = (i * 37 % 11 - 5) / 16.0; nodes[i].y = (i * 53 % 13 - 6) / 16.0; } else { sprintf(nb, "x_%d", i); nodes[i].x = vf_double(nb, -R, R); sprintf(nb, "y_%d", i); nodes[i].y = vf_double(nb, -R, R); } add_elem_list_bottom(L, &nodes[i]); }
  vf_poison(&g, sizeof g);
  if (mode == 0) {
    int rev = vf_choose("reversed order", 2);
    for (int k = 0; k < npairs; k++) { int e = rev ? npairs - 1 - k : k, a = pa[e], b = pb[e]; int c = vf_choose(nm("road", a, b), 3); if (!c) continue;
      edges[m].src = c == 1 ? a : b; edges[m].dest = c == 1 ? b : a; edges[m].symbol = m + 1; edges[m].positionInGraph = m; edges[m].weight = vf_double(nm("w", a, b), 0, 1); edges[m].prob = vf_double(nm("p", a, b), 0, 1);
      w[a][b] = w[b][a] = edges[m].weight; p[a][b] = p[b][a] = edges[m].prob; has[a][b] = has[b][a] = 1; idx[a][b] = idx[b][a] = m; add_elem_list_bottom(E, &edges[m]); m++; }
    create_graph(&g, L, E, WEIGHTED_GRAPH);
  } else { for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { has[a][b] = has[b][a] = 1; idx[a][b] = idx[b][a] = m++; } create_euclidean_graph(&g, L); }
  vf_true(g.num_nodes == n && g.num_edges == m, "%d cities and %d roads instead of %d and %d", g.num_nodes, g.num_edges, n, m); if (g.num_nodes != n || g.num_edges != m) return;
  double cost = 0; vf_true(g.kind == WEIGHTED_GRAPH && !g.orderedEdges, "wrong kind, or unsorted roads are marked as sorted");
  for (int i = 0; i < n; i++) { vf_true(g.nodes[i].positionInGraph == i, "a city has a wrong number"); vf_eq(g.nodes[i].x, nodes[i].x, 0, "a city's coordinate changes"); vf_eq(g.nodes[i].y, nodes[i].y, 0, "a city's coordinate changes");
    int d = 0, seen = 0; for (int j = 0; j < n; j++) d += has[i][j]; vf_true(g.nodes[i].num_neighbours == d, "a city has %d neighbours instead of %d", g.nodes[i].num_neighbours, d); if (g.nodes[i].num_neighbours != d) return;
    for (int k = 0; k < d; k++) { int j = g.nodes[i].neighbours[k]; vf_true(j < n && has[i][j] && !(seen >> j & 1), "a neighbour list is wrong"); if (j >= n) return; seen |= 1 << j; } }
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (has[a][b]) { int k = idx[a][b]; Edge *q = &g.edges[k], *x[3] = {q, &g.edges_matrix[a][b], &g.edges_matrix[b][a]};
    for (int s = 0; s < 3; s++) { Edge *e = x[s]; vf_true((e->src == a && e->dest == b) || (e->src == b && e->dest == a), "a road has wrong end points"); vf_true(e->positionInGraph == k, "a road has a wrong position"); vf_true(e->symbol == k + 1, "a road has a wrong identity");
      if (mode == 0) { vf_eq(e->weight, w[a][b], 0, "a road has a wrong weight"); vf_eq(e->prob, p[a][b], 0, "a road has a wrong probability"); }
      else { vf_eq(e->prob, 0, 0, "a road has a probability"); vf_le(0, e->weight, 0, "a distance is negative"); double dx = nodes[a].x - nodes[b].x, dy = nodes[a].y - nodes[b].y; if (s == 0) vf_eq(e->weight, sqrt(dx * dx + dy * dy), 1e-6 * R, "a weight is not the Euclidean distance"); else vf_eq(e->weight, q->weight, 0, "the adjacency matrix disagrees on a weight"); } }
    cost = cost + q->weight; }
  vf_eq(g.cost, cost, TOL * R, "the cost is not the sum of the weights"); vf_cover(m == npairs ? "complete" : "sparse");
}
