#include "algorithms/kruskal.h"
#include <stdio.h>
int main(void) {
    static Graph g; static Node nd[8]; static Edge ed[28]; srand(4);
    for (int r = 0; r < 2000; r++) {
        List *a = new_list(), *b = new_list(); int z = 0;
        for (int i = 0; i < 8; i++) { nd[i].positionInGraph = i; add_elem_list_bottom(a, &nd[i]); }
        for (int i = 0; i < 8; i++) for (int j = i + 1; j < 8; j++) { ed[z].src = i; ed[z].dest = j; ed[z].weight = 1 + rand() % 4; ed[z].prob = rand() % 5 / 4.0; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(b, &ed[z]); z++; }
        create_graph(&g, a, b, WEIGHTED_GRAPH); wrap_quick_sort(&g);
        int seen[28] = {0};
        for (int i = 0; i < z; i++) {
            Edge e = g.edges[i]; seen[e.symbol - 1]++;
            if (e.positionInGraph != i || g.edges_matrix[e.src][e.dest].positionInGraph != i || e.weight != ed[e.symbol - 1].weight || e.prob != ed[e.symbol - 1].prob) return 1;
            if (i && (g.edges[i - 1].weight > e.weight || (HYBRID && g.edges[i - 1].weight == e.weight && g.edges[i - 1].prob < e.prob))) { fprintf(stderr, "run %d: roads %d and %d are out of order\n", r, i - 1, i); return 1; }
        }
        for (int i = 0; i < z; i++) if (seen[i] != 1) return 1;
    }
    return 0;
}
