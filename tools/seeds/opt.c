/* Solves instances and compares the result with every tour: opt MODE N NB [MISSING]. MODE: r random, e Euclidean, t few distinct distances. */
#include "algorithms/branch_and_bound.h"
#include <assert.h>
static Problem p; static Graph before;
static unsigned long long s; static double rnd(void) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (double) (s >> 33) / 2147483648.0; }
static double w[32][32], pr[32][32]; static int n; static double best; static int perm[32], used[32];
static void tours(int k, double c) {
    if (c >= best) return;
    if (k == n) { if (w[perm[n - 1]][0] > 0 && c + w[perm[n - 1]][0] < best) best = c + w[perm[n - 1]][0]; return; }
    for (int i = 1; i < n; i++) if (!used[i] && w[perm[k - 1]][i] > 0) { used[i] = 1; perm[k] = i; tours(k + 1, c + w[perm[k - 1]][i]); used[i] = 0; }
}
int main(int argc, char **argv) {
    char mode = argv[1][0]; n = atoi(argv[2]); int nb = atoi(argv[3]), miss = argc > 4 ? atoi(argv[4]) : 0, bad = 0;
    for (int b = 0; b < nb && bad < 3; b++) {
        s = 77 + b; for (int i = 0; i < 5; i++) rnd();
        double x[32], y[32]; for (int i = 0; i < n; i++) x[i] = rnd(), y[i] = rnd();
        List *nodes = new_list(), *edges = new_list(); static Node nd[32]; static Edge ed[500]; int z = 0;
        for (int i = 0; i < n; i++) { nd[i].x = x[i]; nd[i].y = y[i]; nd[i].positionInGraph = i; add_elem_list_bottom(nodes, &nd[i]); }
        int gone = miss;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
            double d = mode == 'e' ? sqrt((x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j])) : mode == 't' ? 0.25 * (1 + (int) (rnd() * 4)) : 0.05 + rnd();
            double q = rnd(); w[i][j] = w[j][i] = 0;
            if (gone && rnd() < 0.3) { gone--; continue; }
            w[i][j] = w[j][i] = d; pr[i][j] = pr[j][i] = q;
            ed[z].src = i; ed[z].dest = j; ed[z].weight = d; ed[z].prob = HYBRID ? q : 0; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(edges, &ed[z]); z++;
        }
        memset(&p, 0, sizeof p); create_graph(&p.graph, nodes, edges, WEIGHTED_GRAPH); before = p.graph;
        best = 1e9; perm[0] = 0; memset(used, 0, sizeof used); tours(1, 0);
        freopen("/dev/null", "w", stdout);
        branch_and_bound(&p);
        double v = p.bestSolution.value;
        if (best > 1e8) { if (v < 1e8 && p.bestSolution.num_edges_in_cycle > 0) bad++, fprintf(stderr, "instance %d: a tour is reported, none exists\n", b); }
        else {
            if (!(v <= best + EPSILON && v >= best - 1e-6)) bad++, fprintf(stderr, "instance %d: reported %f, optimum %f (tolerance %f)\n", b, v, best, EPSILON);
            double c = 0, q = 0; int deg[32] = {0};
            for (int i = 0; i < p.bestSolution.num_edges_in_cycle; i++) { ConstrainedEdge e = p.bestSolution.cycleEdges[i]; c += w[e.src][e.dest]; q += pr[e.src][e.dest]; deg[e.src]++; deg[e.dest]++; }
            int ok = p.bestSolution.num_edges_in_cycle == n && fabs(c - v) < 1e-6; for (int i = 0; i < n; i++) ok &= deg[i] == 2;
            if (HYBRID && fabs(q / n - p.bestSolution.prob) > 1e-5) ok = 0;
            if (!ok) bad++, fprintf(stderr, "instance %d: the reported tour is not a tour of cost %f (%f) and probability %f (%f)\n", b, v, c, p.bestSolution.prob, q / n);
        }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && w[i][j] > 0 && p.graph.edges_matrix[i][j].weight != before.edges_matrix[i][j].weight) { bad++; fprintf(stderr, "instance %d: the road %d-%d changed\n", b, i, j); i = n; break; }
    }
    return bad != 0;
}
