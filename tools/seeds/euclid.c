#include "data_structures/graph.h"
int main(void) {
    static Graph g; static Node nd[8]; srand(6);
    for (int r = 0; r < 500; r++) {
        List *a = new_list();
        for (int i = 0; i < 8; i++) { nd[i].x = rand() % 2001 / 1000.0 - 1; nd[i].y = rand() % 2001 / 1000.0 - 1; nd[i].positionInGraph = i; add_elem_list_bottom(a, &nd[i]); }
        create_euclidean_graph(&g, a);
        for (int k = 0; k < g.num_edges; k++) { Edge e = g.edges[k]; double d = hypot(nd[e.src].x - nd[e.dest].x, nd[e.src].y - nd[e.dest].y); if (fabs(d - e.weight) > 1e-5) { fprintf(stderr, "road %d-%d: %f instead of %f\n", e.src, e.dest, e.weight, d); return 1; } }
        if (g.num_edges != 28) return 1;
    }
    return 0;
}
