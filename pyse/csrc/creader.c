/* what the solver's reader finds in a matrix file */
#include <stdio.h>
#include "branch_and_bound.h"
#include "tsp_instance_reader.h"
static Graph g;
int main(int c, char **v) {
    read_tsp_csv_file(&g, v[1]);
    printf("nodes %d\n", (int) g.num_nodes);
    for (int i = 0; i < g.num_nodes; i++) printf("node %.17g %.17g\n", g.nodes[i].x, g.nodes[i].y);
    for (unsigned long i = 0; i < g.num_edges; i++) printf("edge %d %d %.17g %.17g\n", (int) g.edges[i].src, (int) g.edges[i].dest, g.edges[i].weight, g.edges[i].prob);
    return 0;
}
