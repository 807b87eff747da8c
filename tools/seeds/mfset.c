/* Random merge histories against a plain partition. */
#include "data_structures/mfset.h"
#include <stdio.h>
#include <stdlib.h>
int main(void) {
    static Forest f; Node nd[6]; srand(3);
    for (int r = 0; r < 20000; r++) {
        int g[6]; for (int i = 0; i < 6; i++) { nd[i].positionInGraph = i; g[i] = i; }
        create_forest(&f, nd, 6);
        for (int k = 0; k < 6; k++) {
            int a = rand() % 6, b = rand() % 6, o = g[a], t = g[b];
            merge(&f.sets[a], &f.sets[b]);
            for (int i = 0; i < 6; i++) if (g[i] == o) g[i] = t;
            for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
                Set *x = &f.sets[i], *y = &f.sets[j]; int same; while (x->parentSet) x = x->parentSet; while (y->parentSet) y = y->parentSet; same = x == y;
                if (same != (g[i] == g[j])) { fprintf(stderr, "history %d: after merge(%d,%d) %d and %d are %s\n", r, a, b, i, j, same ? "together" : "apart"); return 1; }
            }
        }
    }
    return 0;
}
