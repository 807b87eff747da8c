#include "tsp_instance_reader.h"
int main(int argc, char **argv) {
    char path[500]; snprintf(path, sizeof path, "%s/i.tsp", argv[1]); static Graph g;
    int start[] = {1, 0, 10}, step[] = {1, 1, 1};
    for (int v = 0; v < 3; v++) {
        FILE *f = fopen(path, "w"); double x[6], y[6];
        fprintf(f, "NAME : i\nTYPE : TSP\nDIMENSION : 6\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n");
        for (int i = 0; i < 6; i++) { x[i] = (i * 37) % 11; y[i] = (i * 53) % 17; fprintf(f, "%d %.1f %.1f\n", start[v] + i * step[v], x[i], y[i]); }
        fprintf(f, "EOF\n"); fclose(f);
        memset(&g, 0, sizeof g); read_tsp_lib_file(&g, path);
        if (g.num_nodes != 6 || g.num_edges != 15) { fprintf(stderr, "numbering from %d: wrong size\n", start[v]); return 1; }
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) if (i != j && fabs(g.edges_matrix[i][j].weight - hypot(x[i] - x[j], y[i] - y[j])) > 1e-4) { fprintf(stderr, "numbering from %d: road %d-%d is %f\n", start[v], i, j, g.edges_matrix[i][j].weight); return 1; }
    }
    return 0;
}
