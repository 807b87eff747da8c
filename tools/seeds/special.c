/* The special city has the greatest bound (1-tree cost) of all, up to the tolerance. */
#include "algorithms/branch_and_bound.h"
static Problem p; static double w[8][8];
static double bound1(int n, int c) {      /* Prim without c, plus its two shortest roads */
    double k[8], t = 0; int in[8] = {0}; for (int i = 0; i < n; i++) k[i] = 1e9; int s = c == 0 ? 1 : 0; k[s] = 0;
    for (int r = 0; r < n - 1; r++) { int b = -1; for (int i = 0; i < n; i++) if (i != c && !in[i] && (b < 0 || k[i] < k[b])) b = i; in[b] = 1; t += k[b]; for (int i = 0; i < n; i++) if (i != c && !in[i] && w[b][i] < k[i]) k[i] = w[b][i]; }
    double a = 1e9, b = 1e9; for (int i = 0; i < n; i++) if (i != c) { if (w[c][i] < a) { b = a; a = w[c][i]; } else if (w[c][i] < b) b = w[c][i]; }
    return t + a + b;
}
int main(void) {
    srand(2);
    for (int n = 5; n <= 8; n++) for (int r = 0; r < 300; r++) {
        static Node nd[8]; static Edge ed[28]; List *l = new_list(), *m = new_list(); int z = 0;
        for (int i = 0; i < n; i++) { nd[i].positionInGraph = i; add_elem_list_bottom(l, &nd[i]); }
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ed[z].src = i; ed[z].dest = j; ed[z].weight = w[i][j] = w[j][i] = (1 + rand() % 1000) / 1000.0; ed[z].prob = 0; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(m, &ed[z]); z++; }
        memset(&p, 0, sizeof p); create_graph(&p.graph, l, m, WEIGHTED_GRAPH); set_problem(&p); p.bestValue = INFINITE; p.start = clock();
        int c = find_candidate_node(); double best = 0; for (int i = 0; i < n; i++) if (bound1(n, i) > best) best = bound1(n, i);
        if (bound1(n, c) < best - n * EPSILON) { fprintf(stderr, "%d cities, run %d: city %d is chosen with bound %f, another has %f\n", n, r, c, bound1(n, c), best); return 1; }
    }
    return 0;
}
