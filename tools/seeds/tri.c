#include "algorithms/branch_and_bound.h"
static Problem p; static SubProblem s;
int main(void) {
    for (int n = 3; n <= 5; n++) for (int cand = 0; cand < n; cand++) {
        static Node nd[5]; static Edge ed[10]; List *l = new_list(), *m = new_list(); int z = 0;
        for (int i = 0; i < n; i++) { nd[i].positionInGraph = i; add_elem_list_bottom(l, &nd[i]); }
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ed[z].src = i; ed[z].dest = j; ed[z].weight = 1; ed[z].prob = 0; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(m, &ed[z]); z++; }
        memset(&p, 0, sizeof p); create_graph(&p.graph, l, m, WEIGHTED_GRAPH); set_problem(&p); p.candidateNodeId = cand;
        memset(&s, 0, sizeof s); create_mst(&s.oneTree, p.graph.nodes, n);
        for (int i = 0; i < n; i++) add_edge(&s.oneTree, &p.graph.edges_matrix[i][(i + 1) % n]);
        if (!check_hamiltonian(&s)) { fprintf(stderr, "the tour of %d cities is not recognised\n", n); return 1; }
    }
    return 0;
}
