/* The greedy constructions and the incumbent: one construction from any city with any incumbent, on complete and incomplete instances */
#include "bb.h"
static double worst; static int all_complete, some;
/* every greedy tour (several when there are ties): by distance or by probability */
static void greedy(int start, int cur, int used, int k, double len, int byprob) {
  int n = I.n, best = -1;
  if (k == n) { if (!I.has[cur][start]) { all_complete = 0; return; } len = len + I.w[cur][start]; if (!some || len > worst) worst = len; some = 1; return; }
  for (int c = 0; c < n; c++) if (!(used >> c & 1) && I.has[cur][c]) { if (best < 0 || (byprob ? I.p[cur][c] > I.p[cur][best] : I.w[cur][c] < I.w[cur][best])) best = c; }
  if (best < 0) { all_complete = 0; return; }
  for (int c = best; c < n; c++) if (!(used >> c & 1) && I.has[cur][c] && (c == best || (byprob ? I.p[cur][c] == I.p[cur][best] : I.w[cur][c] == I.w[cur][best]))) greedy(start, c, used | 1 << c, k + 1, len + I.w[cur][c], byprob);
}
void harness(void) {
  int n = vf_param("n", 4); inst_base(n, vf_param("base", 0), vf_param("sym", 3), vf_param("sp", -1));
  int from = 0; for (int k = 0; k < vf_param("miss", 0); k++) { char nb[32]; sprintf(nb, "missing_%d", k); int e = from + vf_choose(nb, npairs - from + 1); if (e >= npairs) break; from = e + 1; I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 0; }
  problem_setup(0); int start = vf_choose("start", n), inf = vf_choose("no incumbent yet", 2);
  P.bestValue = P.bestSolution.value = inf ? INFINITE : vf_double("incumbent", 0.1, n); double before = P.bestValue; SubProblem *s = &P.bestSolution;
  nearest_prob_neighbour(start);
  vf_le(P.bestValue, before, 0, "a construction worsens the incumbent"); vf_eq(P.bestValue, s->value, 0, "the best value is not that of the best solution");
  for (int h = 0; h <= HYBRID; h++) { all_complete = 1; some = 0; greedy(start, start, 1 << start, 1, 0, h);
    if (some && all_complete) { vf_cover(h ? "probable tour constructed" : "nearest tour constructed"); vf_le(P.bestValue, worst, TOL, h ? "the incumbent is worse than the most-probable-neighbour tour" : "the incumbent is worse than the nearest-neighbour tour"); } else if (!some) vf_cover("construction stuck"); }
  if (s->num_edges_in_cycle == 0) { vf_true(inf ? P.bestValue == INFINITE : P.bestValue == before, "the incumbent's value changes without a tour"); vf_cover("incumbent kept"); return; }
  vf_cover(s->type == CLOSED_NN ? "new incumbent by distance" : "new incumbent by probability");
  vf_true(s->type == CLOSED_NN || (HYBRID && s->type == CLOSED_NN_HYBRID), "the new incumbent has a wrong type"); double c; if (!is_tour(s, &c, "the new incumbent")) return;
  vf_eq(s->value, c, TOL, "the incumbent's value is not its length");
  int cur = start, used = 1 << start, h = s->type == CLOSED_NN_HYBRID;
  for (int i = 0; i < n - 1; i++) { int a = s->cycleEdges[i].src, b = s->cycleEdges[i].dest; int nx = a == cur ? b : a; vf_true(a == cur || b == cur, "the constructed walk is not connected"); if (a != cur && b != cur) return;
    for (int x = 0; x < n; x++) if (!(used >> x & 1) && I.has[cur][x]) { if (h) vf_le(I.p[cur][x], I.p[cur][nx], 0, "a step does not go to a most probable neighbour"); else vf_le(I.w[cur][nx], I.w[cur][x], 0, "a step does not go to a nearest neighbour"); }
    used |= 1 << nx; cur = nx; }
  double pr = 0; for (int i = 0; i < n; i++) pr = pr + I.p[s->cycleEdges[i].src][s->cycleEdges[i].dest]; (void)pr;
}
