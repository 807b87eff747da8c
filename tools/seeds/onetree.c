/* Every 1-tree relaxation with three mandatory roads at the special city must be unfeasible; with two it must contain them. */
#include "algorithms/branch_and_bound.h"
void constrained_kruskal(Graph *graph, SubProblem *subProblem, unsigned short candidateId);
static Problem p; static SubProblem s;
int main(void) {
    int n = 6, bad = 0;
    for (int cand = 0; cand < n; cand++) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = 0; c < n; c++) {
        if (a == cand || b == cand || c == cand || (c != a && c <= b)) continue;          /* c == a: only two */
        List *nodes = new_list(), *edges = new_list(); static Node nd[6]; static Edge ed[15]; int z = 0;
        for (int i = 0; i < n; i++) { nd[i].positionInGraph = i; add_elem_list_bottom(nodes, &nd[i]); }
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ed[z].src = i; ed[z].dest = j; ed[z].weight = 1 + ((i * 7 + j * 5) % 11) / 10.0; ed[z].prob = 0; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(edges, &ed[z]); z++; }
        memset(&p, 0, sizeof p); create_graph(&p.graph, nodes, edges, WEIGHTED_GRAPH); set_problem(&p); p.candidateNodeId = cand;
        memset(&s, 0, sizeof s); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) s.constraints[i][j] = NOTHING; s.constraints[i][i] = FORBIDDEN; }
        int t[3] = {a, b, c}, m = c == a ? 2 : 3;
        for (int i = 0; i < m; i++) { s.constraints[cand][t[i]] = s.constraints[t[i]][cand] = MANDATORY; s.mandatoryEdges[s.num_mandatory_edges].src = cand; s.mandatoryEdges[s.num_mandatory_edges].dest = t[i]; s.num_mandatory_edges++; }
        constrained_kruskal(&p.graph, &s, cand); p.graph.orderedEdges = false;
        BBNodeType r = mst_to_one_tree(&s, &p.graph);
        if (m == 3 && r != CLOSED_UNFEASIBLE) { bad++; fprintf(stderr, "special city %d with mandatory roads to %d, %d and %d is accepted\n", cand, a, b, c); }
        if (m == 2 && (r != OPEN || s.oneTree.edges_matrix[cand][a] < 0 || s.oneTree.edges_matrix[cand][b] < 0)) { bad++; fprintf(stderr, "special city %d: mandatory roads to %d and %d missing\n", cand, a, b); }
        if (bad > 2) return 1;
    }
    return bad != 0;
}
