/* Branch-and-bound harness helpers: instances, admissible tours, checks on a reported solution. */
#ifndef BB_H
#define BB_H
#include "common.h"
static Inst I; static Problem P;
extern void initialize_matrix(SubProblem *);
extern void constrained_prim(Graph *, SubProblem *, unsigned short);
extern void constrained_kruskal(Graph *, SubProblem *, unsigned short);
static unsigned lcg_s; static unsigned lcg(void) { lcg_s = lcg_s * 1664525u + 1013904223u; return lcg_s >> 8; }
/* base instance `base` (0: all roads symbolic): concrete roads with lengths k/256, `sym` of them replaced by symbolic ones;
 * sp of the probabilities symbolic (-1: all) */
static void inst_base(int n, int base, int sym, int sp) {
  pairs_init(n); I.n = n;
  if (vf_param("nb", 1) > 1) base += vf_param("step", 1) * vf_choose("base", vf_param("nb", 1));
  lcg_s = base * 7919u + n; lcg();
  double w[64], p[64]; int ord[64];
  for (int e = 0; e < npairs; e++) { w[e] = (16 + lcg() % 240) / 256.0; p[e] = (lcg() % 256) / 256.0; ord[e] = e; }
  if (base % 4 == 3) for (int e = 0; e < npairs; e++) w[e] = 0.5 + (lcg() % 3) / 8.0;            /* many ties */
  if (base % 4 == 2) { int x[16], y[16]; for (int i = 0; i < n; i++) { x[i] = lcg() % 180; y[i] = lcg() % 180; }
    for (int e = 0; e < npairs; e++) { int dx = x[pa[e]] - x[pb[e]], dy = y[pa[e]] - y[pb[e]]; double d2 = dx * dx + dy * dy; int k = 0; while ((k + 1) * (k + 1) <= d2) k++; w[e] = (k < 16 ? 16 : k) / 256.0; } }
  for (int e = npairs - 1; e > 0; e--) { int k = lcg() % (e + 1), t = ord[e]; ord[e] = ord[k]; ord[k] = t; }
  for (int i = 0; i < n; i++) { I.x[i] = I.y[i] = 0; I.w[i][i] = I.p[i][i] = 0; I.has[i][i] = 0; }
  for (int k = 0; k < npairs; k++) { int e = ord[k], a = pa[e], b = pb[e]; I.has[a][b] = I.has[b][a] = 1; I.w[a][b] = I.w[b][a] = base && k >= sym ? w[e] : vf_double(nm("w", a, b), WLO, WHI); }
  for (int e = 0; e < npairs; e++) I.p[pa[e]][pb[e]] = I.p[pb[e]][pa[e]] = HYBRID ? p[e] : 0;
  if (HYBRID && sp) for (int k = 0; k < npairs && (sp < 0 || k < sp); k++) { int e = ord[npairs - 1 - k]; I.p[pa[e]][pb[e]] = I.p[pb[e]][pa[e]] = vf_double(nm("p", pa[e], pb[e]), 0, 1); }
}
static double tour_w(const int *t, int n) { double s = 0; for (int i = 0; i < n; i++) s = s + I.w[t[i]][t[(i + 1) % n]]; return s; }
static int tour_uses(const int *t, int n, int a, int b) { for (int i = 0; i < n; i++) { int u = t[i], v = t[(i + 1) % n]; if ((u == a && v == b) || (u == b && v == a)) return 1; } return 0; }
/* does the tour respect a constraint matrix (and use existing roads only)? */
static int admissible(const int *t, int n, ConstraintType c[MAX_VERTEX_NUM][MAX_VERTEX_NUM]) {
  for (int i = 0; i < n; i++) if (!I.has[t[i]][t[(i + 1) % n]]) return 0;
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { int u = tour_uses(t, n, a, b);
    if (u ? (c[a][b] == FORBIDDEN || c[b][a] == FORBIDDEN) : (c[a][b] == MANDATORY || c[b][a] == MANDATORY)) return 0; }
  return 1;
}
/* a solution is a tour over existing roads; returns 1 if so and its length in *len */
static int is_tour(const SubProblem *s, double *len, const char *what) {
  int n = I.n, deg[16] = {0}, adj[16][2], seen = 0, at, prev, bad = 0; double c = 0;
  vf_true(s->num_edges_in_cycle == n, "%s has %d roads instead of %d", what, s->num_edges_in_cycle, n);
  if (s->num_edges_in_cycle != n) return 0;
  for (int i = 0; i < n; i++) { int a = s->cycleEdges[i].src, b = s->cycleEdges[i].dest;
    vf_true(a < n && b < n && I.has[a][b], "%s uses a road that does not exist", what); if (!(a < n && b < n && I.has[a][b])) return 0;
    if (deg[a] < 2) adj[a][deg[a]] = b; if (deg[b] < 2) adj[b][deg[b]] = a; deg[a]++; deg[b]++; c = c + I.w[a][b]; }
  for (int i = 0; i < n; i++) if (deg[i] != 2) bad = 1;
  vf_true(!bad, "%s does not visit every city once", what); if (bad) return 0;
  at = 0; prev = -1; do { seen++; int nx = adj[at][0] != prev ? adj[at][0] : adj[at][1]; prev = at; at = nx; } while (at != 0 && seen <= n);
  vf_true(seen == n, "%s is not a single cycle", what);
  *len = c; return seen == n;
}
static void genuine(const SubProblem *s, const char *what) { double c; if (is_tour(s, &c, what)) vf_eq(s->value, c, TOL, "%s: the cost is not its length", what); }
/* the counts and the list of mandatory roads agree with the matrix */
static void consistent(const SubProblem *s, const char *when) {
  int n = I.n, man = 0, forb = 0, asym = 0, bad = 0;
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { if (s->constraints[a][b] != s->constraints[b][a]) asym = 1; if (s->constraints[a][b] == MANDATORY) man++; }
  for (int a = 0; a < MAX_VERTEX_NUM; a++) for (int b = a + 1; b < MAX_VERTEX_NUM; b++) if (s->constraints[a][b] == FORBIDDEN) forb++;
  vf_true(!asym, "%s: the constraint matrix is not symmetric", when);
  vf_true(s->num_mandatory_edges == man, "%s: %d mandatory roads are recorded, the matrix has %d", when, s->num_mandatory_edges, man);
  for (int i = 0; i < s->num_mandatory_edges && i < MAX_VERTEX_NUM; i++) { int a = s->mandatoryEdges[i].src, b = s->mandatoryEdges[i].dest;
    if (a >= n || b >= n || s->constraints[a][b] != MANDATORY) bad = 1;
    for (int k = 0; k < i; k++) { int c = s->mandatoryEdges[k].src, d = s->mandatoryEdges[k].dest; if ((a == c && b == d) || (a == d && b == c)) bad = 1; } }
  vf_true(!bad, "%s: the list of mandatory roads disagrees with the matrix", when);
  vf_true((s->num_forbidden_edges != 0) >= (forb != 0), "%s: forbidden roads exist but none is counted", when);
}

/* a problem ready for single steps of the search; the incumbent's value is symbolic */
static void problem_setup(int cand) {
  inst_graph(&I, &P.graph); P.reformulationGraph = P.graph; P.candidateNodeId = cand; P.totTreeLevels = 1; P.generatedBBNodes = 1; P.exploredBBNodes = 0; P.num_fixed_edges = 0; P.interrupted = 0; P.start = 0;
  vf_poison(&P.bestSolution, sizeof P.bestSolution); P.bestSolution.num_edges_in_cycle = 0; P.bestSolution.type = CLOSED_NN; set_problem(&P);
}
static void put(SubProblem *s, int a, int b, ConstraintType c) {
  s->constraints[a][b] = s->constraints[b][a] = c;
  if (c == MANDATORY) { s->mandatoryEdges[s->num_mandatory_edges].src = a; s->mandatoryEdges[s->num_mandatory_edges].dest = b; s->num_mandatory_edges++; } else if (c == FORBIDDEN) s->num_forbidden_edges++;
}
/* an open node with up to k constrained roads (every choice of roads and kinds); infer: as branching leaves it */
static void node_setup(SubProblem *s, int k, int infer) {
  vf_poison(s, sizeof *s); s->num_mandatory_edges = s->num_forbidden_edges = 0;
  for (int i = 0; i < MAX_VERTEX_NUM; i++) for (int j = 0; j < MAX_VERTEX_NUM; j++) s->constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
  s->type = OPEN; s->id = 2; s->fatherId = 1; s->prob = 0; s->num_edges_in_cycle = 0; s->edge_to_branch = -1; s->timeToReach = 0; s->oneTree.num_edges = 0;
  int from = 0;
  for (int q = 0; q < k; q++) { char nmb[32]; sprintf(nmb, "constrained_%d", q); int e = from + vf_choose(nmb, npairs - from + 1); if (e >= npairs) break; from = e + 1;
    sprintf(nmb, "kind_%d", q); put(s, pa[e], pb[e], vf_choose(nmb, 2) ? FORBIDDEN : MANDATORY); }
  if (infer && !infer_constraints(s)) vf_assume(0);
}
static int mandatory_circuit(const SubProblem *s, int skip) { int u[16]; for (int i = 0; i < 16; i++) u[i] = i;
  for (int e = 0; e < npairs; e++) if (pa[e] != skip && pb[e] != skip && s->constraints[pa[e]][pb[e]] == MANDATORY) { int a = uf_root(u, pa[e]), b = uf_root(u, pb[e]); if (a == b) return 1; u[a] = b; } return 0; }
#endif
