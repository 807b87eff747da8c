/* Whole searches on symbolic instances. check: 1 optimal, 2 genuine tour and cost, 4 printed report, 8 instance unchanged and
 * repeatable, 32 nothing printed is unset */
#include "bb.h"
static Graph before; static Problem Q;
static int exists;
static int roads_ok(const int *t, int n) { for (int i = 0; i < n; i++) if (!I.has[t[i]][t[(i + 1) % n]]) return 0; return 1; }
static void any(const int *t, int n, void *a) { exists |= roads_ok(t, n); }
static void opt(const int *t, int n, void *a) { if (!roads_ok(t, n)) return;  vf_le(P.bestSolution.value, tour_w(t, n), EPS + TOL, "a tour is better than the reported one by more than the tolerance"); }
static double field(const char *key, int *ok) { const char *o = vf_out(), *p = 0, *q = o; while ((q = strstr(q, key))) { p = q; q++; } if (!p) { *ok = 0; return 0; } char *e; double v = vf_parse(p + strlen(key), &e); if (e == p + strlen(key)) *ok = 0; return v; }
static int nat(const char **p) { while (**p == ' ') (*p)++; if (**p < '0' || **p > '9') return -1; int v = 0; while (**p >= '0' && **p <= '9') v = v * 10 + *(*p)++ - '0'; return v; }
static void report(void) {
  int n = I.n, ok = 1;
  vf_out_reset(); print_problem();
  vf_eq(field("SUBPROBLEM with cost = ", &ok), P.bestSolution.value, 1e-5, "the printed cost is not the cost found");
  vf_eq(field("prob_tour = ", &ok), P.bestSolution.prob, 1e-5, "the printed probability is not that of the tour");
  vf_true(ok, "the report has no cost or probability");
  struct { const char *k; int v; } F[] = {{"generated BBNodes = ", P.generatedBBNodes}, {"explored BBNodes = ", P.exploredBBNodes}, {"max tree level = ", P.totTreeLevels}, {"Number of fixed edges = ", P.num_fixed_edges}, {"candidate node = ", P.candidateNodeId}, {"level of the BB tree = ", P.bestSolution.treeLevel}, {"BBNode number = ", P.bestSolution.id}, {"Cycle with ", n}};
  for (int i = 0; i < 8; i++) { const char *p = strstr(vf_out(), F[i].k); vf_true(p != 0, "the report lacks '%s'", F[i].k); if (!p) return; p += strlen(F[i].k); vf_true(nat(&p) == F[i].v, "the report states a wrong '%s'", F[i].k); }
  vf_true(strstr(vf_out(), P.interrupted ? "interrupted = TRUE" : "interrupted = FALSE") != 0, "the interruption flag is printed wrongly");
  static const char *L[] = {"OPEN", "CLOSED_NEAREST_NEIGHBOR", "CLOSED_NEAREST_NEIGHBOR_HYBRID", "CLOSED_BOUND", "CLOSED_UNFEASIBLE", "CLOSED_1TREE", "CLOSED_SUBGRADIENT"};
  char want[80]; snprintf(want, sizeof want, "type = %s,", L[P.bestSolution.type]);
  vf_true(strstr(vf_out(), want) != 0, "the solution type is not printed as %s", L[P.bestSolution.type]);
  const char *p = strstr(vf_out(), "edges:"); vf_true(p != 0, "no cycle is printed"); if (!p) return; p += 6;
  int last = -1, first = -1, seen = 0; double c = 0;
  for (int i = 0; i < n; i++) {
    int a = nat(&p); while (*p == ' ') p++; vf_true(!strncmp(p, "<->", 3), "the printed cycle is malformed"); if (strncmp(p, "<->", 3)) return; p += 3; int b = nat(&p);
    vf_true(a >= 0 && b >= 0 && a < n && b < n && a != b, "the printed cycle names a wrong city"); if (!(a >= 0 && b >= 0 && a < n && b < n)) return;
    vf_true(i == 0 || a == last, "the printed roads are not connected"); if (i == 0) first = a; last = b;
    seen |= 1 << a; c = c + I.w[a][b]; while (*p == ',' || *p == ' ') p++; }
  vf_true(last == first && seen == (1 << n) - 1, "the printed walk is not a closed tour");
  vf_true(*p == '\n' || *p == 0, "more roads are printed than the tour has");
  vf_eq(c, P.bestSolution.value, TOL, "the printed tour is not the tour found");
}
static void same_graph(const Graph *a, const Graph *b) {
  int n = I.n, ok = a->num_nodes == b->num_nodes && a->num_edges == b->num_edges && a->kind == b->kind;
  for (int i = 0; i < n && ok; i++) { ok = ok && a->nodes[i].num_neighbours == b->nodes[i].num_neighbours && a->nodes[i].positionInGraph == b->nodes[i].positionInGraph;
    for (int k = 0; k < b->nodes[i].num_neighbours && ok; k++) ok = a->nodes[i].neighbours[k] == b->nodes[i].neighbours[k]; }
  for (int e = 0; e < b->num_edges && ok; e++) { ok = a->edges[e].src == b->edges[e].src && a->edges[e].dest == b->edges[e].dest && a->edges[e].symbol == b->edges[e].symbol && a->edges[e].positionInGraph == b->edges[e].positionInGraph;
    if (ok) { vf_eq(a->edges[e].weight, b->edges[e].weight, 0, "solving changes a distance"); vf_eq(a->edges[e].prob, b->edges[e].prob, 0, "solving changes a probability"); } }
  for (int i = 0; i < n && ok; i++) for (int j = 0; j < n; j++) if (I.has[i][j]) { const Edge *x = &a->edges_matrix[i][j], *y = &b->edges_matrix[i][j];
    ok = ok && x->src == y->src && x->dest == y->dest && x->positionInGraph == y->positionInGraph && x->symbol == y->symbol; if (!ok) break; vf_eq(x->weight, y->weight, 0, "solving changes a distance in the matrix"); vf_eq(x->prob, y->prob, 0, "solving changes a probability in the matrix"); }
  vf_true(ok, "solving changes the adjacency or the order of the roads");
}
/* everything that is printed must have been set (a decision on an unset value is reported by the native sanitizer) */
static void touch(void) { SubProblem *b = &P.bestSolution; static volatile int sink; long t = P.candidateNodeId + (P.end > P.start) + P.interrupted + P.generatedBBNodes + P.exploredBBNodes + P.totTreeLevels + P.num_fixed_edges + b->treeLevel + b->id + b->edge_to_branch + b->num_edges_in_cycle + b->num_mandatory_edges + b->num_forbidden_edges + b->type;
  if (t == 123456789) sink++; if (vf_symbolic()) return; if (b->value + b->prob + b->timeToReach == 123456789) sink++; for (int i = 0; i < b->num_edges_in_cycle; i++) if (b->cycleEdges[i].src + b->cycleEdges[i].dest == 12345) sink++; }
void harness(void) {
  int n = vf_param("n", 4), check = vf_param("check", 7);
  inst_base(n, vf_param("base", 0), vf_param("sym", 3), vf_param("sp", 0));
  int from = 0; for (int k = 0; k < vf_param("miss", 0); k++) { char nb[32]; sprintf(nb, "missing_%d", k); int e = from + vf_choose(nb, npairs - from + 1); if (e >= npairs) break; from = e + 1; I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 0; }
  for (int i = 0; i < n; i++) { int d = 0; for (int j = 0; j < n; j++) d += I.has[i][j]; if (d < 2) vf_assume(0); }   // refused by the solver
  vf_poison(&P, sizeof P); inst_graph(&I, &P.graph); before = P.graph;
  branch_and_bound(&P); if (check & 32) touch();
  int ty = P.bestSolution.type;
  vf_cover(ty == CLOSED_NN ? "solved by nearest neighbour" : ty == CLOSED_NN_HYBRID ? "solved by most probable neighbour" : ty == CLOSED_1TREE ? "solved by a 1-tree" : ty == CLOSED_SUBGRADIENT ? "solved by subgradient" : "other");
  unsigned g = P.generatedBBNodes; vf_cover(g > 9 ? "more than 9 nodes" : g > 3 ? "4 to 9 nodes" : g > 1 ? "2 or 3 nodes" : "not branched");
  if (P.num_fixed_edges) vf_cover("roads fixed");
  exists = 0; all_tours(n, any, 0);
  if (!exists) { vf_cover("instance without a tour"); if (check & 4) { vf_out_reset(); print_problem(); } if (check & 2) vf_true(P.bestSolution.num_edges_in_cycle == 0, "a tour is reported although none exists"); return; }
  if (check & 2) genuine(&P.bestSolution, "the reported solution");
  if (check & 2) { double pr = 0; SubProblem *b = &P.bestSolution; for (int i = 0; i < n && i < b->num_edges_in_cycle; i++) if (b->cycleEdges[i].src < n && b->cycleEdges[i].dest < n) pr = pr + I.p[b->cycleEdges[i].src][b->cycleEdges[i].dest]; vf_eq(b->prob, HYBRID ? pr * (1.0 / n) : 0, TOL, "the probability of the solution is not the mean of those of its roads"); }
  if (check & 2) vf_eq(P.bestValue, P.bestSolution.value, TOL, "the best value is not the value of the best solution");
  if (check & 1) all_tours(n, opt, 0);
  if (check & 4) report();
  if (check & 8) { same_graph(&P.graph, &before); Q = P;
    if (vf_choose("used before for another instance", 2)) {   // as left by a larger, longer, interrupted run
      P.bestValue = 0.001; P.bestSolution.value = 0.001; P.bestSolution.prob = 0.99; P.bestSolution.type = CLOSED_SUBGRADIENT; P.bestSolution.num_edges_in_cycle = MAX_VERTEX_NUM; P.bestSolution.num_mandatory_edges = 2; P.bestSolution.num_forbidden_edges = 3; P.bestSolution.edge_to_branch = 1; P.bestSolution.treeLevel = 5; P.bestSolution.id = 77;
      P.candidateNodeId = 1; P.totTreeLevels = 9; P.exploredBBNodes = 1000; P.generatedBBNodes = 2000; P.num_fixed_edges = 55; P.interrupted = 1; P.start = 5; P.end = 6; for (int e = 0; e < P.reformulationGraph.num_edges; e++) P.reformulationGraph.edges[e].weight = 0.5; P.reformulationGraph.num_nodes = 1; P.reformulationGraph.orderedEdges = 1; }
    branch_and_bound(&P); same_graph(&P.graph, &before);
    vf_eq(P.bestSolution.value, Q.bestSolution.value, 0, "a second run on the same instance reports another cost");
    vf_true(P.bestSolution.num_edges_in_cycle == Q.bestSolution.num_edges_in_cycle && P.bestSolution.type == Q.bestSolution.type && P.generatedBBNodes == Q.generatedBBNodes && P.exploredBBNodes == Q.exploredBBNodes && P.num_fixed_edges == Q.num_fixed_edges && P.totTreeLevels == Q.totTreeLevels && P.interrupted == Q.interrupted && P.candidateNodeId == Q.candidateNodeId, "a second run on the same instance reports another result");
    for (int i = 0; i < n; i++) vf_true(P.bestSolution.cycleEdges[i].src == Q.bestSolution.cycleEdges[i].src && P.bestSolution.cycleEdges[i].dest == Q.bestSolution.cycleEdges[i].dest, "a second run on the same instance reports another tour"); }
}
