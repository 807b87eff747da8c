/* prints the real report of runs with marker values, one per closing type; with an argument: solves that matrix file */
#include <stdio.h>
#include "branch_and_bound.h"
#include "tsp_instance_reader.h"
static Problem p;
int main(int c, char **v) {
    if (c > 1) { read_tsp_csv_file(&p.graph, v[1]); branch_and_bound(&p); print_problem(); return 0; }
    BBNodeType t[] = {CLOSED_NN, CLOSED_NN_HYBRID, CLOSED_1TREE, CLOSED_SUBGRADIENT, CLOSED_NN, CLOSED_UNFEASIBLE};
    for (int k = 0; k < 6; k++) {
        p.candidateNodeId = 3; p.start = 1000000; p.end = p.start + 111 * CLOCKS_PER_SEC + CLOCKS_PER_SEC / 2; p.interrupted = k >= 4;
        p.generatedBBNodes = 7710; p.exploredBBNodes = 8810; p.totTreeLevels = 9910; p.num_fixed_edges = 0;
        SubProblem *b = &p.bestSolution; b->type = t[k]; b->value = k == 5 ? INFINITE : 222.5; b->treeLevel = 3310; b->prob = 0.5; b->id = 5510; b->timeToReach = 666.5f;
        b->edge_to_branch = -1; b->num_edges_in_cycle = k == 5 ? 0 : MAX_VERTEX_NUM;
        for (unsigned short i = 0; i < MAX_VERTEX_NUM; i++) { b->cycleEdges[i].src = i; b->cycleEdges[i].dest = (i + 1) % MAX_VERTEX_NUM; }
        set_problem(&p); print_problem(); printf("=====\n");
    }
    return 0;
}
