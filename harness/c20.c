/* The printed report. mode 0: a finished search described by print_problem: every tour of n cities, every orientation of its roads,
 * every solution type, symbolic cost, probability, counters chosen from extremes */
#include "bb.h"
static int nat(const char **p) { while (**p == ' ') (*p)++; if (**p < '0' || **p > '9') return -1; long v = 0; while (**p >= '0' && **p <= '9') v = v * 10 + *(*p)++ - '0'; return v > 2000000000 ? -2 : (int)v; }
static double field(const char *key) { const char *p = strstr(vf_out(), key); vf_true(p != 0, "the report lacks '%s'", key); if (!p) return -12345; char *e; double v = vf_parse(p + strlen(key), &e); vf_true(e != p + strlen(key), "no value after '%s'", key); return v; }
static void ifield(const char *key, int v) { const char *p = strstr(vf_out(), key); vf_true(p != 0, "the report lacks '%s'", key); if (!p) return; p += strlen(key); vf_true(nat(&p) == v, "the report states a wrong '%s'", key); }
static int sel[16], nsel;
static void pick(const int *t, int n, void *a) { if (nsel++ == *(int *)a) memcpy(sel, t, n * sizeof *t); }
void harness(void) {
  int n = vf_param("n", 4), nt = 1, full = vf_param("full", 1); for (int i = 3; i < n; i++) nt *= i; 
  pairs_init(n); I.n = n; for (int e = 0; e < npairs; e++) { I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 1; I.w[pa[e]][pb[e]] = I.w[pb[e]][pa[e]] = 0.25; }
  inst_graph(&I, &P.graph); set_problem(&P); vf_poison(&P.bestSolution, sizeof P.bestSolution);
  int t = vf_choose("tour", nt), start = vf_choose("first road", n), dir = vf_choose("direction", 2); nsel = 0; all_tours(n, pick, &t);
  SubProblem *s = &P.bestSolution; s->num_edges_in_cycle = n; s->num_mandatory_edges = 0; s->num_forbidden_edges = 0; s->timeToReach = 0.5f; s->edge_to_branch = -1;
  for (int i = 0; i < n; i++) { int k = dir ? (start + n - i) % n : (start + i) % n, a = sel[k], b = sel[dir ? (k + n - 1) % n : (k + 1) % n]; char nb[32]; sprintf(nb, "swapped_%d", i);
    int sw = vf_choose(nb, 2); s->cycleEdges[i].src = sw ? b : a; s->cycleEdges[i].dest = sw ? a : b; }
  s->type = full ? vf_choose("type", 7) : CLOSED_1TREE; s->value = vf_double("cost", 0.001, 1000); s->prob = vf_double("probability", 0, 1); 
  int big = full ? vf_choose("counters", 3) : 1; static const unsigned G[3] = {1, 70000, 1999999999}; P.generatedBBNodes = G[big]; P.exploredBBNodes = G[big] - 1; P.totTreeLevels = big ? 60000 : 1; P.num_fixed_edges = big ? 123456 : 0;
  s->id = big ? G[big] - 7 : 0; s->treeLevel = big ? 59999 : 0; P.candidateNodeId = vf_choose("special city", n); P.interrupted = vf_choose("interrupted", 2); P.start = 5 * CLOCKS_PER_SEC; P.end = P.start + 3 * CLOCKS_PER_SEC + CLOCKS_PER_SEC / 4;
  vf_out_reset(); print_problem(); vf_cover("report");
  vf_eq(field("SUBPROBLEM with cost = "), s->value, 1e-5, "the printed cost is not the cost found"); vf_eq(field("prob_tour = "), s->prob, 1e-5, "the printed probability is not that of the tour");
  vf_eq(field("elapsed time = "), 3.25, 1e-5, "the printed time is not the elapsed time"); vf_eq(field("time to obtain = "), 0.5, 1e-5, "the printed time to obtain is wrong");
  ifield("generated BBNodes = ", G[big]); ifield("explored BBNodes = ", G[big] - 1); ifield("max tree level = ", big ? 60000 : 1); ifield("Number of fixed edges = ", big ? 123456 : 0);
  ifield("candidate node = ", P.candidateNodeId); ifield("level of the BB tree = ", big ? 59999 : 0); ifield("BBNode number = ", big ? G[big] - 7 : 0); ifield("Cycle with ", n);
  vf_true(strstr(vf_out(), P.interrupted ? "interrupted = TRUE" : "interrupted = FALSE") != 0, "the interruption flag is printed wrongly");
  static const char *L[] = {"OPEN", "CLOSED_NEAREST_NEIGHBOR", "CLOSED_NEAREST_NEIGHBOR_HYBRID", "CLOSED_BOUND", "CLOSED_UNFEASIBLE", "CLOSED_1TREE", "CLOSED_SUBGRADIENT"};
  char want[80]; snprintf(want, sizeof want, "type = %s,", L[s->type]); vf_true(strstr(vf_out(), want) != 0, "solution type %d is not printed as %s", s->type, L[s->type]);
  const char *p = strstr(vf_out(), "edges:"); vf_true(p != 0, "no cycle is printed"); if (!p) return; p += 6;
  int last = -1, first = -1, seen = 0;
  for (int i = 0; i < n; i++) {
    int a = nat(&p); while (*p == ' ') p++; vf_true(!strncmp(p, "<->", 3), "the printed cycle is malformed"); if (strncmp(p, "<->", 3)) return; p += 3; int b = nat(&p);
    vf_true(a >= 0 && b >= 0 && a < n && b < n && a != b, "the printed cycle names a wrong city"); if (!(a >= 0 && b >= 0 && a < n && b < n)) return;
    vf_true(i == 0 || a == last, "the printed roads are not connected"); if (i == 0) first = a; last = b; seen |= 1 << a;
    int on = 0; for (int k = 0; k < n; k++) if ((sel[k] == a && sel[(k + 1) % n] == b) || (sel[k] == b && sel[(k + 1) % n] == a)) on = 1; vf_true(on, "a printed road is not one of the tour");
    while (*p == ',' || *p == ' ') p++; }
  vf_true(last == first && seen == (1 << n) - 1, "the printed walk is not a closed tour"); vf_true(*p == '\n' || *p == 0, "more roads are printed than the tour has");
}
