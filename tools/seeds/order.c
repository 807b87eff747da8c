#include "algorithms/branch_and_bound.h"
int main(void) {
    static SubProblem a, b; srand(1);
    for (int r = 0; r < 100000; r++) {
        a.value = 1 + rand() % 1000 * EPSILON / 100; b.value = 1 + rand() % 1000 * EPSILON / 100; a.prob = rand() % 1000 / 1000.0; b.prob = rand() % 1000 / 1000.0;
        double gap = b.value - a.value;
        if (fabs(fabs(gap) - EPSILON) < 1e-9 || fabs(a.prob - b.prob - BETTER_PROB) < 1e-6) continue;
        int want = gap > EPSILON || (HYBRID && gap > 0 && a.prob - b.prob > BETTER_PROB);
        if (compare_subproblems(&a, &b) != want) { fprintf(stderr, "bounds %f and %f, probabilities %f and %f: %s\n", a.value, b.value, a.prob, b.prob, want ? "not preferred" : "preferred"); return 1; }
    }
    return 0;
}
