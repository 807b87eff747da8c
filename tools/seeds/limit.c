/* The clock jumps by an hour during the first nodes: the run must stop and say so. */
#include "algorithms/branch_and_bound.h"
static Problem p; static clock_t now; static int calls, jump;
clock_t clock(void) { calls++; if (calls > jump) return now + 3600LL * CLOCKS_PER_SEC; return now += 10; }
int main(void) {
    static Node nd[8]; static Edge ed[28]; int n = 8;
    for (jump = 25; jump < 40; jump++) {
        List *l = new_list(), *m = new_list(); int z = 0; srand(11);
        for (int i = 0; i < n; i++) { nd[i].positionInGraph = i; add_elem_list_bottom(l, &nd[i]); }
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ed[z].src = i; ed[z].dest = j; ed[z].weight = 1 + rand() % 3; ed[z].prob = 0; ed[z].symbol = z + 1; ed[z].positionInGraph = z; add_elem_list_bottom(m, &ed[z]); z++; }
        memset(&p, 0, sizeof p); create_graph(&p.graph, l, m, WEIGHTED_GRAPH); calls = 0; now = 0;
        if (!freopen("/dev/null", "w", stdout)) return 3;
        branch_and_bound(&p);
        if (calls <= jump) continue;
        if ((p.end - p.start) / CLOCKS_PER_SEC > TIME_LIMIT_SECONDS && !p.interrupted) { fprintf(stderr, "%ld s have passed (limit %d), the run is not reported as interrupted\n", (long) ((p.end - p.start) / CLOCKS_PER_SEC), TIME_LIMIT_SECONDS); return 1; }
    }
    return 0;
}
