/* The time limit: the clock jumps to (or past) the limit at any of its readings; the search stops, reports a tour no worse than the greedy ones, and is flagged truthfully */
#include "bb.h"
extern void nearest_prob_neighbour(unsigned short);
static Problem Q; static int jump, seen; static long base, delta; static unsigned explored; static unsigned short cand;
static long tick(int i) { if (i >= jump) { if (!seen) { seen = 1; explored = P.exploredBBNodes; } return base + 600L * CLOCKS_PER_SEC + delta + i; } return base + i; }
static void opt(const int *t, int n, void *a) { vf_le(P.bestSolution.value, tour_w(t, n), EPS + TOL, "a search within the time limit misses a better tour"); }
static long quiet(int i) { return base; }
void harness(void) {
  int n = vf_param("n", 5); static const long D[] = {1000000, 3600000000L, 4000000000000L, -2000000};
  inst_base(n, vf_param("base", 3), vf_param("sym", 1), vf_param("sp", 0)); inst_graph(&I, &P.graph); vf_poison(&P.bestSolution, sizeof P.bestSolution); vf_poison(&P.bestValue, sizeof P.bestValue); P.exploredBBNodes = 0;
  jump = vf_param("from", 1) + vf_param("every", 1) * vf_choose("jump at reading", vf_param("readings", 60)); int d = vf_choose("beyond", 4); delta = D[d]; base = vf_choose("start", 2) ? 987654321L : 0; int over = d < 3;
  vf_clock_cb(tick); branch_and_bound(&P); int calls = vf_clock_calls();
  vf_cover(!seen ? "finished before the jump" : !over ? "limit not exceeded" : P.exploredBBNodes == 0 ? "stopped before the first node" : "stopped on the way");
  if (over && seen && jump <= calls - 2) vf_true(P.interrupted, "the limit is exceeded, but the result is not flagged as interrupted");
  if (!over || !seen) vf_true(!P.interrupted, "the result is flagged as interrupted although the limit is not exceeded");
  if (over && seen) vf_true(P.exploredBBNodes <= explored + 1, "%u nodes are opened after the time limit", P.exploredBBNodes - explored);
  genuine(&P.bestSolution, "the reported solution"); vf_eq(P.bestValue, P.bestSolution.value, TOL, "the best value is not the value of the best solution");
  if (!over || !seen) all_tours(n, opt, 0);
  vf_le(0, (double)(P.end - P.start), 0, "the elapsed time is negative");
  Q = P; cand = P.candidateNodeId; P.bestValue = INFINITE; P.bestSolution.value = INFINITE; set_problem(&P); vf_clock_cb(quiet); for (int i = 0; i < n; i++) nearest_prob_neighbour(i);
  vf_le(Q.bestSolution.value, P.bestValue, TOL, "the reported tour is worse than the initial heuristics");
}
