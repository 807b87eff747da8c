/* The incumbent after the greedy constructions of one start is the shorter of the two. */
#include "algorithms/branch_and_bound.h"
static Problem p;
static double w[5][5], q[5][5];
static double tour(int s, int prob) {
    int cur = s, vis[5] = {0}; double c = 0;
    for (int k = 0; k < 4; k++) { vis[cur] = 1; int b = -1; for (int i = 0; i < 5; i++) if (!vis[i] && (b < 0 || (prob ? q[cur][i] > q[cur][b] : w[cur][i] < w[cur][b]))) b = i; c += w[cur][b]; cur = b; }
    return c + w[cur][s];
}
int main(void) {
    static Node nd[5]; static Edge ed[10]; srand(8);
    for (int r = 0; r < 200000; r++) {
        for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) { w[i][j] = w[j][i] = (1000 + (rand() % 12) * 1.0) / 1000 + (i * 5 + j) * 1e-6; q[i][j] = q[j][i] = rand() % 100000 / 100000.0 ; }
        double a = tour(0, 0), b = tour(0, 1), best = a < b ? a : b;
        if (b <= a || b - a > EPSILON) continue;
        List *l = new_list(), *m = new_list(); int z = 0;
        for (int i = 0; i < 5; i++) { nd[i].positionInGraph = i; add_elem_list_bottom(l, &nd[i]); }
        for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) { ed[z].src = i; ed[z].dest = j; ed[z].weight = w[i][j]; ed[z].prob = q[i][j]; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(m, &ed[z]); z++; }
        memset(&p, 0, sizeof p); create_graph(&p.graph, l, m, WEIGHTED_GRAPH); set_problem(&p); p.bestValue = INFINITE; p.start = clock();
        nearest_prob_neighbour(0);
        if (fabs(p.bestValue - best) > 1e-7 || fabs(p.bestSolution.value - best) > 1e-7) { fprintf(stderr, "run %d: the incumbent costs %f, the best greedy tour %f\n", r, p.bestValue, best); return 1; }
    }
    return 0;
}
