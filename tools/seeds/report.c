/* The roads of the printed cycle form a closed walk over the recorded roads. */
#include "algorithms/branch_and_bound.h"
int main(int argc, char **argv) {
    static SubProblem s; char path[500]; snprintf(path, sizeof path, "%s/out", argv[1]); srand(5);
    for (int r = 0; r < 300; r++) {
        int n = 3 + rand() % 6, t[8], at = rand() % n; for (int i = 0; i < n; i++) t[i] = i; for (int i = n - 1; i > 0; i--) { int j = rand() % (i + 1), x = t[i]; t[i] = t[j]; t[j] = x; }
        memset(&s, 0, sizeof s); s.num_edges_in_cycle = n;
        for (int i = 0; i < n; i++) { int a = t[(i + at) % n], b = t[(i + at + 1) % n]; if (rand() % 2) { int x = a; a = b; b = x; } s.cycleEdges[i].src = a; s.cycleEdges[i].dest = b; }
        if (!freopen(path, "w", stdout)) return 3; print_subProblem(&s); fflush(stdout);
        FILE *f = fopen(path, "r"); char line[2000]; int a[8], b[8], k = 0;
        while (fgets(line, sizeof line, f)) if (!strncmp(line, "Cycle", 5)) for (char *c = strchr(line, ':') + 1; k < 8 && sscanf(c, " %d <-> %d", &a[k], &b[k]) == 2;) { k++; c = strchr(c, ','); if (!c) break; c++; }
        fclose(f);
        int bad = k != n; for (int i = 0; i < n && !bad; i++) bad |= b[i] != a[(i + 1) % n];
        if (bad) { fprintf(stderr, "run %d: the printed cycle of %d cities is no closed walk\n", r, n); return 1; }
    }
    return 0;
}
