/* Writes distance-matrix files with missing roads and compares what the reader makes of them. */
#include "tsp_instance_reader.h"
static Graph g;
int main(int argc, char **argv) {
    char path[500]; snprintf(path, sizeof path, "%s/i.csv", argv[1]); srand(9);
    for (int r = 0; r < 400; r++) {
        int n = 3 + rand() % (MAX_VERTEX_NUM - 2); static double w[32][32], q[32][32]; FILE *f = fopen(path, "w");
        double x[32]; for (int i = 0; i < n; i++) { x[i] = rand() % 1000 / 1000.0; fprintf(f, "(%.6f, %.6f)%s", x[i], 1 - x[i], i + 1 < n ? ";" : ""); } fprintf(f, "\n");
        int m = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { w[i][j] = w[j][i] = rand() % 4 ? (1 + rand() % 999) / 1000.0 : 0; q[i][j] = q[j][i] = rand() % 1000 / 1000.0; m += w[i][j] > 0; }
        for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) fprintf(f, "(%.6f, %.6f);", i == j ? 0 : w[i][j], i == j ? 0 : q[i][j]); fprintf(f, "\n"); }
        fclose(f); memset(&g, 0, sizeof g); read_tsp_csv_file(&g, path);
        int bad = g.num_nodes != n || g.num_edges != m;
        for (int i = 0; i < n && !bad; i++) {
            int d = 0; for (int j = 0; j < n; j++) d += i != j && w[i][j] > 0;
            bad |= g.nodes[i].num_neighbours != d || fabs(g.nodes[i].x - x[i]) > 1e-9;
            for (int k = 0; k < g.nodes[i].num_neighbours && !bad; k++) bad |= w[i][g.nodes[i].neighbours[k]] <= 0;
            for (int j = 0; j < n && !bad; j++) if (i != j && w[i][j] > 0) { Edge e = g.edges_matrix[i][j], o = g.edges[e.positionInGraph]; bad |= fabs(e.weight - w[i][j]) > 1e-9 || (HYBRID && fabs(e.prob - q[i][j]) > 1e-9) || (!HYBRID && e.prob != 0) || o.src != (i < j ? i : j) || o.dest != (i < j ? j : i); }
        }
        if (bad) { fprintf(stderr, "file %d: the graph differs from the file\n", r); return 1; }
    }
    return 0;
}
