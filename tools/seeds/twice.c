/* Solving gives the same result and counters in a fresh Problem and in one used before. */
#include "algorithms/branch_and_bound.h"
static Problem p, q;
static void make(Problem *x, int n, int seed) {
    static Node nd[10]; static Edge ed[45]; List *l = new_list(), *m = new_list(); int z = 0; srand(seed);
    for (int i = 0; i < n; i++) { nd[i].positionInGraph = i; add_elem_list_bottom(l, &nd[i]); }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ed[z].src = i; ed[z].dest = j; ed[z].weight = 0.25 * (1 + rand() % 4); ed[z].prob = 0; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(m, &ed[z]); z++; }
    create_graph(&x->graph, l, m, WEIGHTED_GRAPH);
}
int main(void) {
    if (!freopen("/dev/null", "w", stdout)) return 3;
    for (int a = 0; a < 60; a++) {
        memset(&q, 0, sizeof q); make(&q, 10, a + 1); branch_and_bound(&q);
        memset(&p, 0, sizeof p); make(&p, 10, a); branch_and_bound(&p); make(&p, 10, a + 1); branch_and_bound(&p);
        if (p.totTreeLevels != q.totTreeLevels || p.exploredBBNodes != q.exploredBBNodes || p.generatedBBNodes != q.generatedBBNodes || p.bestValue != q.bestValue || p.num_fixed_edges != q.num_fixed_edges) { fprintf(stderr, "instance %d: levels %d and %d, nodes %d and %d\n", a + 1, q.totTreeLevels, p.totTreeLevels, q.exploredBBNodes, p.exploredBBNodes); return 1; }
    }
    return 0;
}
