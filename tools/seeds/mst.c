#include <stdio.h>
#include <string.h>
#include <math.h>
#include "algorithms/kruskal.h"
#include "algorithms/prim.h"
static Graph g, h; static MST a, b; static unsigned S = 7;
static double rnd(void) { S = S * 1103515245u + 12345u; return ((S >> 8) & 0xffff) / 65536.0; }
static void road(Graph *g, int i, int j, double w) {
    Edge *e = &g->edges[g->num_edges]; e->src = i; e->dest = j; e->weight = w; e->prob = HYBRID ? rnd() : 0; e->symbol = g->num_edges; e->positionInGraph = g->num_edges; g->num_edges++;
    g->edges_matrix[i][j] = *e; g->edges_matrix[j][i] = *e; g->nodes[i].neighbours[g->nodes[i].num_neighbours++] = j; g->nodes[j].neighbours[g->nodes[j].num_neighbours++] = i;
}
int main(void) {
    for (int t = 0; t < 400; t++) {
        int n = 3 + t % 4, mask = 0; double w[6][6]; memset(&g, 0, sizeof g); g.kind = WEIGHTED_GRAPH; g.num_nodes = n; g.orderedEdges = false; g.cost = 0;
        for (int i = 0; i < n; i++) g.nodes[i].positionInGraph = i;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[i][j] = -1;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (t % 3 == 0 || rnd() < 0.6) { double x = j == n - 1 && t % 2 ? 5 + rnd() : 0.5 + rnd(); w[i][j] = w[j][i] = x; road(&g, i, j, x); }
        double cost = 0; int in[6] = {1}, k;     /* plain Prim */
        for (k = 1; k < n; k++) { int bi = -1; double bw = 1e9; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in[i] && !in[j] && w[i][j] >= 0 && w[i][j] < bw) { bw = w[i][j]; bi = j; } if (bi < 0) break; in[bi] = 1; cost += bw; }
        h = g; kruskal(&g, &a); prim(&h, &b);
        if (a.isValid != (k == n) || b.isValid != (k == n)) { printf("FAIL: a tree is %sfound in instance %d\n", k == n ? "not " : "", t); return 1; }
        if (k == n && (fabs(a.cost - cost) > 1e-9 || fabs(b.cost - cost) > 1e-9)) { printf("FAIL: cost %g and %g, not %g\n", a.cost, b.cost, cost); return 1; }
    }
    return 0;
}
