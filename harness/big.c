/* Instances of the sizes the solver is used for: many cities, all but a few of the numbers concrete.
 * mode 1 sorting, 2 spanning trees, 3 constrained 1-tree, 4 matrix file, 5 TSPLIB file, 6 building from coordinates, 7 whole search, 8 one way down the search tree, 9 branching, 10 the special city, 11 recognition of tours, 12 greedy constructions.
 * Oracles that need no enumeration: exchange optimality of spanning trees, an instance whose best tour is known. */
#include "vf.h"
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
#define M MAX_VERTEX_NUM
#define TOL 1e-6
#define EPS ((double)(sqrt(MAX_VERTEX_NUM) * 1.27f / 1000))
#ifdef RELAX
extern void constrained_prim(Graph *, SubProblem *, unsigned short);
extern void constrained_kruskal(Graph *, SubProblem *, unsigned short);
#else
static void constrained_prim(Graph *g, SubProblem *s, unsigned short c) {}
static void constrained_kruskal(Graph *g, SubProblem *s, unsigned short c) {}
#endif
static void unconstrained(SubProblem *s) { s->num_mandatory_edges = s->num_forbidden_edges = 0; for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) s->constraints[i][j] = i == j ? FORBIDDEN : NOTHING; }
static int n, ne; static double X[M], Y[M], W[M][M], Q[M][M]; static unsigned char has[M][M], sym_[M][M]; static Graph g, g0; static Problem P;
static unsigned s_; static unsigned rnd(void) { s_ = s_ * 1664525u + 1013904223u; return s_ >> 8; }
static int planted[M], pos[M];
/* kind 0 random, 1 many ties, 2 the planted tour is the cheapest, 3 sorted, 4 Euclidean, 5 the planted tour is the cheapest by potentials of the cities, 6 the planted tour is a good one, 7 random and all different */
static void instance(int base, int kind, int sym, int miss) {
  char nb[64]; s_ = base * 7919u + n; rnd(); ne = 0; double px[M], py[M], pt[M]; for (int i = 0; i < n; i++) pt[i] = (16 + rnd() % 80) / 256.0;
  for (int i = 0; i < n; i++) { planted[i] = i; X[i] = i / 8.0; Y[i] = i % 7 / 4.0; px[i] = rnd() % 1000; py[i] = rnd() % 1000; } for (int i = n - 1; i > 0; i--) { int k = rnd() % (i + 1), t = planted[i]; planted[i] = planted[k]; planted[k] = t; } for (int i = 0; i < n; i++) pos[planted[i]] = i;
  for (int i = 0; i < n; i++) { has[i][i] = 0; W[i][i] = Q[i][i] = 0; for (int j = i + 1; j < n; j++) { has[i][j] = has[j][i] = 1; int d = pos[i] - pos[j]; if (d < 0) d = -d; int on = d == 1 || d == n - 1;
    double w = kind == 7 ? (ne * 7919 % 65521 + 1) / 65536.0 : kind == 1 ? 0.5 + (rnd() % 3) / 8.0 : kind == 2 ? (on ? (64 + rnd() % 64) / 256.0 : (144 + rnd() % 112) / 256.0) : kind == 3 ? (ne + 1) / 65536.0 : kind == 6 ? pt[i] + pt[j] + (on ? (rnd() % 12) / 256.0 : (0 + rnd() % 64) / 256.0) : kind == 5 ? pt[i] + pt[j] + (on ? 0 : (16 + rnd() % 112) / 256.0) : kind == 4 ? ((int) sqrt((px[i] - px[j]) * (px[i] - px[j]) + (py[i] - py[j]) * (py[i] - py[j])) + 4) / 2048.0 : (16 + rnd() % 4080) / 4096.0;
    W[i][j] = W[j][i] = w; Q[i][j] = Q[j][i] = HYBRID ? (rnd() % 256) / 256.0 : 0; ne++; } }
  int deg = vf_param("deg", 0); if (deg) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int d = pos[i] - pos[j]; if (d < 0) d = -d; if (d != 1 && d != n - 1 && rnd() % n >= deg) { has[i][j] = has[j][i] = 0; ne--; } }
  for (int k = 0; k < miss; k++) { int a = rnd() % n, b = rnd() % n, d = pos[a] - pos[b]; if (d < 0) d = -d; if (a == b || d == 1 || d == n - 1 || !has[a][b]) continue; has[a][b] = has[b][a] = 0; ne--; }
  for (int k = 0; k < sym; k++) { int a, b; if (k % 2) { int i = n - 1 - rnd() % (n > 8 ? n / 4 : n); a = planted[i]; b = planted[(i + 1) % n]; } else { do { a = n - 1 - rnd() % (n > 8 ? n / 4 : n); b = rnd() % n; } while (a == b || !has[a][b]); }
    int d = pos[a] - pos[b]; if (d < 0) d = -d; int on = d == 1 || d == n - 1; sprintf(nb, "w_%d_%d", a, b); sym_[a][b] = sym_[b][a] = 1; W[a][b] = W[b][a] = kind == 2 ? (on ? vf_double(nb, 0.125, 0.5) : vf_double(nb, 0.5625, 1)) : kind == 5 ? (on ? vf_double(nb, pt[a] + pt[b], pt[a] + pt[b] + 0.0625) : vf_double(nb, pt[a] + pt[b] + 0.0625, pt[a] + pt[b] + 0.5)) : vf_double(nb, 0.0625, 1);
    if (HYBRID && !k) { sprintf(nb, "p_%d_%d", a, b); Q[a][b] = Q[b][a] = vf_double(nb, 0, 1); } }
}
static void graph(Graph *g) {
  memset(g, 0, sizeof *g); g->kind = WEIGHTED_GRAPH; g->num_nodes = n;
  for (int i = 0; i < n; i++) { g->nodes[i].positionInGraph = i; g->nodes[i].x = X[i]; g->nodes[i].y = Y[i]; }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (has[i][j]) { g->nodes[i].neighbours[g->nodes[i].num_neighbours++] = j;
    if (j > i) { Edge *e = &g->edges[g->num_edges]; e->src = i; e->dest = j; e->symbol = g->num_edges + 1; e->positionInGraph = g->num_edges; e->weight = W[i][j]; e->prob = Q[i][j]; g->cost += e->weight; g->edges_matrix[i][j] = g->edges_matrix[j][i] = *e; g->num_edges++; } }
}
/* the graph is the instance; ordered: sorted by weight */
static void same(const Graph *g, int ordered, int coords, double tw, const char *what) {
  int m = 0; static unsigned char used[MAX_EDGES_NUM]; memset(used, 0, sizeof used);
  vf_true(g->num_nodes == n && g->num_edges == ne, "%s: %d cities and %d roads instead of %d and %d", what, g->num_nodes, g->num_edges, n, ne); if (g->num_nodes != n || g->num_edges != ne) return;
  for (int i = 0; i < n; i++) { int d = 0, bad = g->nodes[i].positionInGraph != i; unsigned char in[M] = {0}; for (int j = 0; j < n; j++) d += has[i][j];
    bad |= g->nodes[i].num_neighbours != d; for (int k = 0; k < d && !bad; k++) { int j = g->nodes[i].neighbours[k]; bad |= j >= n || !has[i][j] || in[j]; if (!bad) in[j] = 1; } vf_true(!bad, "%s: the number or the neighbours of a city are wrong", what); if (bad) return;
    if (coords) { vf_eq(g->nodes[i].x, X[i], 1e-4, "%s: wrong coordinate", what); vf_eq(g->nodes[i].y, Y[i], 1e-4, "%s: wrong coordinate", what); } }
  for (int k = 0; k < ne; k++) { const Edge *e = &g->edges[k]; int a = e->src, b = e->dest, ok = a < n && b < n && has[a][b] && e->positionInGraph == k; vf_true(ok, "%s: road %d has wrong ends or a wrong position", what, k); if (!ok) return;
    for (int q = 0; q < 2; q++) { const Edge *x = q ? &g->edges_matrix[b][a] : &g->edges_matrix[a][b]; ok = ok && x->positionInGraph == k && x->symbol == e->symbol && ((x->src == a && x->dest == b) || (x->src == b && x->dest == a)); if (ok) { vf_eq(x->weight, e->weight, 0, "%s: the matrix disagrees on a weight", what); vf_eq(x->prob, e->prob, 0, "%s: the matrix disagrees on a probability", what); } }
    vf_true(ok, "%s: the adjacency matrix designates another road", what); if (!ok) return;
    int y = e->symbol - 1; ok = y >= 0 && y < ne && !used[y]; vf_true(ok, "%s: a road's identity is wrong or used twice", what); if (!ok) return; used[y] = 1;
    vf_eq(e->weight, W[a][b], tw, "%s: wrong distance", what); vf_eq(e->prob, Q[a][b], 0, "%s: wrong probability", what);
    if (ordered && k) { const Edge *f = &g->edges[k - 1]; vf_le(f->weight, e->weight, 0, "%s: the roads are not sorted by weight", what);
      if (HYBRID && vf_is_concrete(f->weight) && vf_is_concrete(e->weight) && f->weight == e->weight) vf_le(e->prob, f->prob, 0, "%s: roads of equal weight are not sorted by probability", what); } }
}
static int uf[M]; static int root(int x) { while (uf[x] != x) { uf[x] = uf[uf[x]]; x = uf[x]; } return x; }
static int par[M], dep[M], pe[M];
/* the roads of t that avoid `skip` span the other cities and cannot be improved by exchanging a free one; con: constraints or NULL */
static int spanning(const MST *t, int skip, const SubProblem *s, const char *what) {
  int k = 0; static int adj[M][M]; static short dg[M]; for (int i = 0; i < n; i++) { uf[i] = i; dg[i] = 0; }
  for (int i = 0; i < t->num_edges && i < n; i++) { int a = t->edges[i].src, b = t->edges[i].dest, ok = a < n && b < n && has[a][b]; vf_true(ok, "%s: a road that does not exist", what); if (!ok) return 0;
    vf_true(t->edges_matrix[a][b] == i && t->edges_matrix[b][a] == i, "%s: the adjacency matrix disagrees with the roads", what); vf_eq(t->edges[i].weight, W[a][b], TOL, "%s: wrong weight", what);
    if (a == skip || b == skip) continue; int x = root(a), y = root(b); vf_true(x != y, "%s: a circuit", what); if (x == y) return 0; uf[x] = y; adj[a][dg[a]++] = b; adj[b][dg[b]++] = a; k++; }
  vf_true(k == n - 1 - (skip >= 0), "%s: %d roads do not span the cities", what, k); if (k != n - 1 - (skip >= 0)) return 0;
  int q[M], h = 0, l = 0, r = skip == 0; for (int i = 0; i < n; i++) dep[i] = -1; q[l++] = r; dep[r] = 0; par[r] = -1; while (h < l) { int c = q[h++]; for (int z = 0; z < dg[c]; z++) { int j = adj[c][z]; if (dep[j] < 0) { dep[j] = dep[c] + 1; par[j] = c; q[l++] = j; } } }
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (has[a][b] && a != skip && b != skip && t->edges_matrix[a][b] < 0) { if (s && s->constraints[a][b] == FORBIDDEN) continue;
    double top = -1; int u = a, v = b; while (u != v) { int c; if (dep[u] < dep[v]) { c = v; v = par[v]; u = u; } else { c = u; u = par[u]; } int f = par[c]; if (s && s->constraints[c][f] == MANDATORY) continue;
        if (vf_is_concrete(W[c][f])) { if (W[c][f] > top) top = W[c][f]; } else vf_le(W[c][f], W[a][b], TOL, "%s: not minimal", what); }
    if (top >= 0) vf_le(top, W[a][b], TOL, "%s: not minimal", what); }
  return 1;
}
static void sums(const MST *t, int want, const char *what) { double c = 0, p = 0; vf_true(t->num_edges == want && t->num_nodes == n, "%s: %d roads over %d cities", what, t->num_edges, t->num_nodes); int dg[M] = {0};
  for (int i = 0; i < want && i < t->num_edges; i++) { int a = t->edges[i].src, b = t->edges[i].dest; if (a >= n || b >= n) return; c = c + W[a][b]; p = p + Q[a][b]; dg[a]++; dg[b]++; }
  vf_eq(t->cost, c, TOL, "%s: the cost is not the sum of the weights", what); if (HYBRID) vf_eq(t->prob, p / want, TOL, "%s: the probability is not the mean of the roads'", what); int ok = 1; for (int i = 0; i < n; i++) ok &= t->nodes[i].num_neighbours == dg[i]; vf_true(ok, "%s: wrong degrees", what); }
/* the cheapest tour through exactly the symbolic roads of S (dynamic programme over the concrete ones), in 1/65536, that respects the constraints c (may be 0)
 * and, if fa >= 0, uses (MANDATORY) or avoids (FORBIDDEN) the road fa-fb; -1: there is none */
static long dp[1 << 13][13], wi[13][13]; static int sa[4], sb[4], ns;
static void symbolic_roads(void) { ns = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (has[i][j] && sym_[i][j]) { if (ns == 4) abort(); sa[ns] = i; sb[ns++] = j; } }
static long cheapest(ConstraintType (*c)[M], int S, int fa, int fb, ConstraintType ft) {
  const long B = 1l << 40; int m = n - 1, full = (1 << m) - 1, must = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int man = c && c[i][j] == MANDATORY, forb = !has[i][j] || (c && c[i][j] == FORBIDDEN); long w = 0;
    if ((i == fa && j == fb) || (i == fb && j == fa)) { man |= ft == MANDATORY; forb |= ft == FORBIDDEN; }
    int y = -1; for (int q = 0; q < ns; q++) if (sa[q] == i && sb[q] == j) y = q; if (y >= 0) { man |= S >> y & 1; forb |= !(S >> y & 1); } else if (has[i][j]) w = (long) (W[i][j] * 65536);
    if (man && forb) return -1; must += man; wi[i][j] = wi[j][i] = forb ? 64 * B : man ? w - B : w; }
  for (int T = 1; T <= full; T++) for (int j = 0; j < m; j++) if (T >> j & 1) { int R = T & ~(1 << j); long best = 1l << 60; if (!R) best = wi[m][j]; else for (int i = 0; i < m; i++) if (R >> i & 1) { long v = dp[R][i] + wi[i][j]; if (v < best) best = v; } dp[T][j] = best; }
  long best = 1l << 60; for (int j = 0; j < m; j++) if (dp[full][j] + wi[j][m] < best) best = dp[full][j] + wi[j][m];
  best += B * must; return best >= B / 2 || best < 0 ? -1 : best;
}
static double with(long c, int S) { double v = c / 65536.0; for (int q = 0; q < ns; q++) if (S >> q & 1) v = v + W[sa[q]][sb[q]]; return v; }
/* with too many cities for the dynamic programme: the planted tour only */
static int planted_road(int a, int b) { int d = pos[a] - pos[b]; if (d < 0) d = -d; return d == 1 || d == n - 1; }
static int planted_fits(ConstraintType (*c)[M], int fa, int fb, ConstraintType ft) { if (fa >= 0 && planted_road(fa, fb) != (ft == MANDATORY)) return 0; if (c) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c[i][j] == (planted_road(i, j) ? FORBIDDEN : MANDATORY)) return 0; return 1; }
static double planted_length(void) { double c = 0; for (int i = 0; i < n; i++) c = c + W[planted[i]][planted[(i + 1) % n]]; return c; }
static int possible(ConstraintType (*c)[M], int fa, int fb, ConstraintType ft) { if (n > 13) return planted_fits(c, fa, fb, ft); for (int S = 0; S < 1 << ns; S++) if (cheapest(c, S, fa, fb, ft) >= 0) return 1; return 0; }
/* no tour that respects c (and the road) is cheaper than v by more than tol */
static void none_below(double v, ConstraintType (*c)[M], int fa, int fb, ConstraintType ft, double tol, const char *what) { if (n > 13) { if (planted_fits(c, fa, fb, ft)) { vf_cover("planted tour judged"); vf_le(v, planted_length(), tol, "%s", what); } return; } for (int S = 0; S < 1 << ns; S++) { long k = cheapest(c, S, fa, fb, ft); if (k >= 0) vf_le(v, with(k, S), tol, "%s", what); } }
static void optimal(void) { symbolic_roads(); none_below(P.bestSolution.value, 0, -1, -1, 0, EPS + TOL, "a tour is better than the reported one by more than the tolerance"); }
static char *buf; static char *num(char *q, double v) { char b[64]; vf_num(v, b); int l = strlen(b); memcpy(q, b, l); return q + l; }
static void rd_csv(void *a) { read_tsp_csv_file(&g, (char *)vf_path("in.csv")); }
static void rd_tsp(void *a) { read_tsp_lib_file(&g, (char *)vf_path("in.tsp")); }
static void put(SubProblem *s, int a, int b, ConstraintType c) { s->constraints[a][b] = s->constraints[b][a] = c; if (c == MANDATORY) { s->mandatoryEdges[s->num_mandatory_edges].src = a; s->mandatoryEdges[s->num_mandatory_edges].dest = b; s->num_mandatory_edges++; } else s->num_forbidden_edges++; }
static void a_tour(const SubProblem *b, const char *what) {
  int nx[M][2], dg[M] = {0}; double c = 0, p = 0; vf_true(b->num_edges_in_cycle == n, "%s has %d roads", what, b->num_edges_in_cycle); if (b->num_edges_in_cycle != n) return;
  for (int i = 0; i < n; i++) { int u = b->cycleEdges[i].src, v = b->cycleEdges[i].dest, ok = u < n && v < n && has[u][v] && dg[u] < 2 && dg[v] < 2; vf_true(ok, "%s uses a road that does not exist or a city too often", what); if (!ok) return; nx[u][dg[u]++] = v; nx[v][dg[v]++] = u; c = c + W[u][v]; p = p + Q[u][v]; }
  int seen = 0, at = 0, pr = -1; do { int t = nx[at][0] != pr ? nx[at][0] : nx[at][1]; pr = at; at = t; seen++; } while (at && seen <= n);
  vf_true(seen == n, "%s is not one cycle", what); vf_eq(b->value, c, TOL, "%s: the cost is not its length", what); if (HYBRID) vf_eq(b->prob, p / n, TOL, "%s: the probability is not the mean of its roads'", what);
}
/* one way down the search tree, any child at each branching, any incumbent from the root on; check: 1 bounding, 2 fixing, 4 branching */
static void walk(int depth, int check) {
  static SubProblem cur, s0, s1, kid[2]; SubProblemsList open; ConstraintType c[M][M]; symbolic_roads();
  vf_poison(&P, sizeof P); graph(&P.graph); P.reformulationGraph = P.graph; P.candidateNodeId = vf_choose("special city", 2) ? n - 1 : 0; P.totTreeLevels = 1; P.generatedBBNodes = 1; P.exploredBBNodes = 0; P.num_fixed_edges = 0; P.interrupted = 0; P.start = 0;
  P.bestValue = P.bestSolution.value = INFINITE; P.bestSolution.num_edges_in_cycle = 0; P.bestSolution.type = CLOSED_UNFEASIBLE; P.bestSolution.prob = 0; set_problem(&P);
  vf_poison(&cur, sizeof cur); unconstrained(&cur); cur.treeLevel = 1; cur.id = 1; cur.fatherId = 0; cur.type = OPEN; cur.prob = 0; cur.value = INFINITE; cur.num_edges_in_cycle = 0; cur.edge_to_branch = -1;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!has[i][j]) put(&cur, i, j, FORBIDDEN);
  for (int d = 0; d < depth; d++) {
    s0 = cur; double before = P.bestValue; P.bestSolution.num_edges_in_cycle = 0; bound(&cur); int op = cur.type == OPEN && cur.edge_to_branch != -1, same = 1;
    vf_le(P.bestValue, before, 0, "bounding worsens the incumbent"); vf_eq(P.bestValue, P.bestSolution.value, 0, "the best value is not that of the best solution");
    if (P.bestSolution.num_edges_in_cycle) { vf_cover("new incumbent"); a_tour(&P.bestSolution, "the new incumbent"); } else vf_eq(P.bestValue, before, 0, "the incumbent's value changes without a tour");
    if (check & 1) { none_below(op ? cur.value : P.bestValue, s0.constraints, -1, -1, 0, op ? TOL : EPS + TOL, op ? "the bound exceeds the cost of a tour that respects the constraints" : "the node is closed although a tour beats the incumbent");
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same &= cur.constraints[i][j] == s0.constraints[i][j]; vf_true(same, "bounding changes the constraints"); }
    if (!op) { vf_cover(cur.type == CLOSED_BOUND ? "dominated" : cur.type == CLOSED_UNFEASIBLE ? "infeasible" : "solved"); return; }
    Edge e = P.graph.edges[cur.edge_to_branch]; vf_true(cur.edge_to_branch >= 0 && cur.edge_to_branch < P.graph.num_edges && cur.constraints[e.src][e.dest] == NOTHING, "the branching road is already decided");
    if (!d) { long best = -1; if (n > 13) { best = 0; for (int i = 0; i < n; i++) { double w = W[planted[i]][planted[(i + 1) % n]]; best += sym_[planted[i]][planted[(i + 1) % n]] ? 16384 : (long) (w * 65536); } } else for (int S = 0; S < 1 << ns; S++) { long k = cheapest(0, S, -1, -1, 0); if (k >= 0 && (best < 0 || k < best)) best = k; } P.bestValue = P.bestSolution.value = vf_double("incumbent", best / 65536.0 - (n > 13 ? 0 : 0.0625), best / 65536.0 + (n > 13 ? 0.25 : 0.5)); }
    s1 = cur; int f = variable_fixing(&cur); if (f) vf_cover("roads fixed"); int cnt = 0, fm = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ConstraintType x = s1.constraints[i][j], y = cur.constraints[i][j]; vf_true(cur.constraints[j][i] == y, "fixing: the constraint matrix is not symmetric"); if (x == y) continue; cnt++; fm |= y == MANDATORY; vf_true(x == NOTHING, "fixing changes a decided road");
      if (check & 2) none_below(P.bestValue, s1.constraints, i, j, y == MANDATORY ? FORBIDDEN : MANDATORY, TOL, "fixing by reduced costs excludes a tour that beats the incumbent"); }
    if (fm) vf_cover("roads made mandatory"); if (cnt > f) vf_cover("more roads decided than counted");
    new_SubProblemList(&open); branch(&open, &cur); int nk = 0; vf_true(open.size <= 2, "%d children", (int) open.size); SubProblemsListIterator *it = create_SubProblemList_iterator(&open); for (size_t i = 0; i < open.size && i < 2; i++) kid[nk++] = *SubProblemList_iterator_get_next(it); delete_SubProblemList_iterator(it); delete_SubProblemList(&open);
    if (check & 4) { int did[2] = {0}; for (int k = 0; k < nk; k++) { ConstraintType t = kid[k].constraints[e.src][e.dest]; int ok = t == MANDATORY || t == FORBIDDEN; vf_true(ok, "a child does not decide the branching road"); if (!ok) return; vf_true(!did[t == MANDATORY], "the children decide the branching road in the same way"); did[t == MANDATORY] = 1;
        vf_eq(kid[k].value, cur.value, 0, "a child does not inherit the bound"); vf_true(kid[k].type == OPEN && kid[k].treeLevel == cur.treeLevel + 1, "a child has a wrong type or level"); memcpy(c, cur.constraints, sizeof c); c[e.src][e.dest] = c[e.dest][e.src] = t; int man = 0;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ConstraintType x = c[i][j], y = kid[k].constraints[i][j]; man += y == MANDATORY; vf_true(kid[k].constraints[j][i] == y, "a child: the constraint matrix is not symmetric"); if (x == y) continue; vf_cover("roads inferred"); vf_true(x == NOTHING, "inference changes a decided road");
          if (possible(c, i, j, y == MANDATORY ? FORBIDDEN : MANDATORY)) vf_true(0, "inference excludes a tour that respects the child"); }
        vf_true(kid[k].num_mandatory_edges == man, "a child: %d mandatory roads are recorded, the matrix has %d", kid[k].num_mandatory_edges, man); }
      for (int t = 0; t < 2; t++) if (!did[t]) { vf_cover("a child is dropped"); if (possible(cur.constraints, e.src, e.dest, t ? MANDATORY : FORBIDDEN)) vf_true(0, "branching loses a tour"); } }
    if (!nk) return; if (d > 3) vf_cover("deep"); cur = kid[nk == 2 ? vf_choose("child", 2) : 0];
  }
}
/* branching on a large sparse graph made of several tours: each of them that respects the node lives on in the child that decides the road as it does */
static int T[6][M]; static unsigned char in[6][M][M];
static int fits(int t, ConstraintType (*c)[M]) { for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c[i][j] == (in[t][i][j] ? FORBIDDEN : MANDATORY)) return 0; return 1; }
static void branching(int tours, int k) {
  static SubProblem s; SubProblemsList open; ne = 0; memset(has, 0, sizeof has); memset(in, 0, sizeof in);
  for (int t = 0; t < tours; t++) { for (int i = 0; i < n; i++) T[t][i] = i; for (int i = n - 1; i > 0; i--) { int q = rnd() % (i + 1), x = T[t][i]; T[t][i] = T[t][q]; T[t][q] = x; } for (int i = 0; i < n; i++) { int a = T[t][i], b = T[t][(i + 1) % n]; in[t][a][b] = in[t][b][a] = 1; if (!has[a][b]) ne++; has[a][b] = has[b][a] = 1; } }
  vf_poison(&P, sizeof P); graph(&P.graph); P.reformulationGraph = P.graph; P.candidateNodeId = 0; P.totTreeLevels = 1; P.generatedBBNodes = 1; P.exploredBBNodes = 0; P.num_fixed_edges = 0; P.interrupted = 0; P.start = 0; P.bestValue = P.bestSolution.value = vf_double("incumbent", 1, n); set_problem(&P);
  vf_poison(&s, sizeof s); unconstrained(&s); s.treeLevel = 3; s.id = 5; s.fatherId = 2; s.type = OPEN; s.prob = 0; s.value = vf_double("bound", 0, n); s.num_edges_in_cycle = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!has[i][j]) put(&s, i, j, FORBIDDEN);
  int w = vf_choose("kept tour", tours), f = vf_choose("constraints", 6); s_ += f * 977; for (int q = 0; q < k * f; q++) { int i = rnd() % n, a = T[w][i], b = T[w][(i + 1) % n]; if (s.constraints[a][b] == NOTHING) put(&s, a, b, MANDATORY); }
  for (int q = 0; q < k * f; q++) { int a = rnd() % n, t = rnd() % tours, i = 0; while (T[t][i] != a) i++; int b = T[t][(i + 1) % n]; if (s.constraints[a][b] == NOTHING && !in[w][a][b]) put(&s, a, b, FORBIDDEN); }
  if (vf_choose("infer first", 2)) { int ok = infer_constraints(&s); vf_true(ok && fits(w, s.constraints), "inference excludes a tour that respects the constraints"); if (!ok) return; }
  int e = -1, r = vf_choose("branching road", 8); s_ += r; for (int q = 0; q < 4000 && e < 0; q++) { int x = rnd() % ne; if (r == 7) x = ne - 1 - q % ne; if (s.constraints[P.graph.edges[x].src][P.graph.edges[x].dest] == NOTHING) e = x; } if (e < 0) return; s.edge_to_branch = e; int a = P.graph.edges[e].src, b = P.graph.edges[e].dest;
  static SubProblem kid[2]; int nk = 0, live[6], lives = 0; for (int t = 0; t < tours; t++) live[t] = fits(t, s.constraints); new_SubProblemList(&open); branch(&open, &s); vf_true(open.size <= 2, "%d children", (int) open.size); SubProblemsListIterator *it = create_SubProblemList_iterator(&open); for (size_t i = 0; i < open.size && i < 2; i++) kid[nk++] = *SubProblemList_iterator_get_next(it); delete_SubProblemList_iterator(it); delete_SubProblemList(&open);
  for (int t = 0; t < tours; t++) if (live[t]) { int ok = 0; for (int q = 0; q < nk; q++) ok |= kid[q].constraints[a][b] == (in[t][a][b] ? MANDATORY : FORBIDDEN) && fits(t, kid[q].constraints); lives++; vf_true(ok, "branching loses a tour"); }
  if (nk == 2) vf_true(kid[0].constraints[a][b] != kid[1].constraints[a][b], "the children decide the branching road in the same way"); int ch = 0;
  for (int q = 0; q < nk; q++) { int man = 0, bad = 0, dup = 0; static unsigned char m[M][M]; memset(m, 0, sizeof m); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { ConstraintType x = s.constraints[i][j], y = kid[q].constraints[i][j]; bad |= kid[q].constraints[j][i] != y || (x != NOTHING && x != y); man += y == MANDATORY; ch += x != y && !(i == a && j == b) && !(i == b && j == a); }
    vf_true(!bad, "a child does not keep the constraints of its parent"); vf_true(kid[q].constraints[a][b] == MANDATORY || kid[q].constraints[a][b] == FORBIDDEN, "a child does not decide the branching road"); vf_true(kid[q].num_mandatory_edges == man, "a child: %d mandatory roads are recorded, the matrix has %d", kid[q].num_mandatory_edges, man);
    for (int i = 0; i < man && i < kid[q].num_mandatory_edges; i++) { int x = kid[q].mandatoryEdges[i].src, y = kid[q].mandatoryEdges[i].dest; if (x >= n || y >= n || kid[q].constraints[x][y] != MANDATORY || m[x][y]) { dup = 1; break; } m[x][y] = m[y][x] = 1; } vf_true(!dup, "a child: the list of mandatory roads disagrees with the matrix"); vf_eq(kid[q].value, s.value, 0, "a child does not inherit the bound"); }
  vf_cover(nk == 2 ? "two children" : nk ? "one child" : "no child"); if (ch) vf_cover("roads inferred"); if (ch > 300) vf_cover("more than 300 roads inferred"); if (lives > 1) vf_cover("several tours live");
}
static int nat(const char **p) { while (**p == ' ') (*p)++; if (**p < '0' || **p > '9') return -1; int v = 0; while (**p >= '0' && **p <= '9') v = v * 10 + *(*p)++ - '0'; return v; }
static void report(void) {
  vf_out_reset(); print_problem(); const char *p = strstr(vf_out(), "edges:"); vf_true(p != 0, "no cycle is printed"); if (!p) return; p += 6; unsigned char seen[M] = {0}; int first = -1, last = -1; double c = 0;
  for (int i = 0; i < n; i++) { int a = nat(&p); while (*p == ' ') p++; int ok = !strncmp(p, "<->", 3); if (ok) p += 3; int b = ok ? nat(&p) : -1; ok = ok && a >= 0 && b >= 0 && a < n && b < n && has[a][b] && (i == 0 || a == last) && !seen[b]; vf_true(ok, "the printed walk is not a tour"); if (!ok) return; if (!i) first = a; seen[b] = 1; last = b; c = c + W[a][b]; while (*p == ',' || *p == ' ') p++; }
  vf_true(first == last, "the printed walk is not closed"); vf_eq(c, P.bestSolution.value, TOL, "the printed tour is not the tour found");
  struct { const char *k; long v; } F[] = {{"generated BBNodes = ", P.generatedBBNodes}, {"explored BBNodes = ", P.exploredBBNodes}, {"max tree level = ", P.totTreeLevels}, {"Number of fixed edges = ", P.num_fixed_edges}, {"candidate node = ", P.candidateNodeId}, {"level of the BB tree = ", P.bestSolution.treeLevel}, {"BBNode number = ", P.bestSolution.id}, {"Cycle with ", n}};
  for (int i = 0; i < 8; i++) { const char *q = strstr(vf_out(), F[i].k); if (q) { q += strlen(F[i].k); vf_true(nat(&q) == F[i].v, "the report states a wrong '%s'", F[i].k); } else vf_true(0, "the report lacks '%s'", F[i].k); }
}
/* the cheapest 1-tree of special city c, by Prim's rule on the instance */
static double tcost, tprob;
static void one_tree(int c) {
  double key[M], w = 0, p = 0; int from[M], in[M] = {0}, r = c == 0;
  for (int i = 0; i < n; i++) from[i] = -1; in[c] = 1; int at = r;
  for (int t = 0; t < n - 1; t++) { in[at] = 1; if (t) { w = w + W[at][from[at]]; p = p + Q[at][from[at]]; }
    for (int j = 0; j < n; j++) if (!in[j] && has[at][j] && (from[j] < 0 || W[at][j] < key[j])) { key[j] = W[at][j]; from[j] = at; }
    int b = -1; for (int j = 0; j < n; j++) if (!in[j] && from[j] >= 0 && (b < 0 || key[j] < key[b])) b = j; at = b; if (b < 0) break; }
  int a = -1, b = -1; for (int j = 0; j < n; j++) if (has[c][j]) { if (a < 0 || W[c][j] < W[c][a]) { b = a; a = j; } else if (b < 0 || W[c][j] < W[c][b]) b = j; }
  tcost = w + W[c][a] + W[c][b]; tprob = (p + Q[c][a] + Q[c][b]) / n;
}
static int over(double d, double limit) { double x = d - limit; if (x < 1e-7 && x > -1e-7) vf_assume(0); return x > 0; }
static void special(int outlier) {
  for (int k = 0; k < 2; k++) { int o = outlier - k * 7; if (o < 0) continue; for (int j = 0; j < n; j++) if (has[o][j]) { double d = (k ? 0.125 : 0.25) + 1 / 131072.0; W[o][j] = W[j][o] = W[o][j] + d; } }
  vf_poison(&P, sizeof P); graph(&P.graph); P.reformulationGraph = P.graph; P.candidateNodeId = 0; P.totTreeLevels = 1; P.start = 0; P.bestValue = P.bestSolution.value = INFINITE; P.bestSolution.num_edges_in_cycle = 0; set_problem(&P);
  int c = find_candidate_node(), ref = 0; vf_true(c >= 0 && c < n, "the special city %d is not a city", c); double bv = 0, bp = 0;
  for (int i = 0; i < n; i++) { one_tree(i); int better = over(tcost - bv, EPS); if (HYBRID && !better && i) { double dc = tcost - bv, dq = tprob - bp; /* the same 1-tree again */ if (vf_is_concrete(dc) && vf_is_concrete(dq) && dc < 1e-9 && dc > -1e-9 && dq < 1e-9 && dq > -1e-9) continue; better = over(dc, 0) && over(dq, (double) BETTER_PROB); } if (better) { ref = i; bv = tcost; bp = tprob; } }
  vf_cover(ref > 255 ? "beyond 255" : ref > 127 ? "beyond 127" : "below 128"); vf_true(c == ref, "city %d is chosen, but the criterion prefers city %d", c, ref); same(&P.graph, 0, 1, 0, "the instance after the choice");
}
/* 1-trees with a cycle of a chosen length through the special city, the other cities hanging off it, the roads added in a chosen order */
static SubProblem rs;
static void recognise(void) {
  const int L[8] = {n, n - 1, 3, n / 2, n > 130 ? 128 : n - 2, n > 130 ? 129 : 4, n > 258 ? 256 : n - 3, n > 258 ? 257 : 5};
  int m = L[vf_choose("length of the cycle", 8)], sh = vf_choose("shape", 3), ord = vf_choose("order", 4), c = planted[0], k = 0; static int ea[M], eb[M]; static unsigned char in[M][M]; memset(in, 0, sizeof in); int deg[M] = {0}; if (m < 3) m = 3;
  for (int i = 0; i < m; i++) { ea[k] = planted[i]; eb[k++] = planted[(i + 1) % m]; }
  for (int i = m; i < n; i++) { int at = sh == 0 ? i - 1 : sh == 1 ? 1 + rnd() % (m - 1) : 1 + rnd() % (i - 1); ea[k] = planted[i]; eb[k++] = planted[at]; }
  for (int i = k - 1; i > 0; i--) { int q = ord == 0 ? i : ord == 1 ? k - 1 - i : rnd() % (i + 1); if (ord == 1 && q >= i) break; int x = ea[i], y = eb[i]; ea[i] = ea[q]; eb[i] = eb[q]; ea[q] = x; eb[q] = y; }
  vf_poison(&P, sizeof P); graph(&P.graph); P.candidateNodeId = c; set_problem(&P); vf_poison(&rs, sizeof rs); create_mst(&rs.oneTree, P.graph.nodes, n);
  for (int i = 0; i < k; i++) { Edge e = P.graph.edges_matrix[ea[i]][eb[i]]; if (rnd() % 2) { unsigned short t = e.src; e.src = e.dest; e.dest = t; } add_edge(&rs.oneTree, &e); in[ea[i]][eb[i]] = in[eb[i]][ea[i]] = 1; deg[ea[i]]++; deg[eb[i]]++; }
  rs.num_edges_in_cycle = 0; int r = check_hamiltonian(&rs), d[M] = {0}; vf_cover(m == n ? "tour" : "not a tour");
  vf_true(!!r == (m == n), m == n ? "a tour is not recognised" : "a 1-tree that is not a tour is recognised as one"); vf_true(rs.num_edges_in_cycle == m, "the recorded cycle has %d roads instead of %d", rs.num_edges_in_cycle, m); if (rs.num_edges_in_cycle != m) return;
  for (int i = 0; i < m; i++) { int a = rs.cycleEdges[i].src, b = rs.cycleEdges[i].dest, ok = a < n && b < n && in[a][b]; vf_true(ok, "the recorded cycle uses a road twice or one that is not in the 1-tree"); if (!ok) return; d[a]++; d[b]++; in[a][b] = in[b][a] = 0; }
  int ok = d[c] == 2; for (int i = 0; i < n; i++) ok &= d[i] == 0 || d[i] == 2; vf_true(ok, "the recorded roads are not a cycle through the special city");
  for (int i = 0; i < m; i++) { int q = (i + 1) % m, a = rs.cycleEdges[i].src, b = rs.cycleEdges[i].dest, e = rs.cycleEdges[q].src, f = rs.cycleEdges[q].dest; ok &= a == e || a == f || b == e || b == f; } vf_true(ok, "the recorded cycle is not in walking order");
}
/* one greedy construction from a chosen city with any incumbent, against the rule step by step and, by distance, against the one tour the rule gives */
static void greedy(void) {
  int at[6] = {0, n - 1, n / 2, n - 2, planted[0], planted[n / 2]}, start = at[vf_choose("start", 6)], inf = vf_choose("no incumbent yet", 2);
  vf_poison(&P, sizeof P); graph(&P.graph); P.reformulationGraph = P.graph; P.candidateNodeId = 0; P.totTreeLevels = 1; P.start = 0; P.bestSolution.num_edges_in_cycle = 0; P.bestSolution.type = CLOSED_UNFEASIBLE; P.bestSolution.prob = 0; P.bestValue = P.bestSolution.value = inf ? INFINITE : vf_double("incumbent", 0.1, n); set_problem(&P);
  double before = P.bestValue; SubProblem *b = &P.bestSolution; nearest_prob_neighbour(start);
  vf_le(P.bestValue, before, 0, "a construction worsens the incumbent"); vf_eq(P.bestValue, b->value, 0, "the best value is not that of the best solution");
  unsigned char used[M] = {0}; int cur = start, stuck = 0, tie = 0; double len = 0; used[start] = 1;
  for (int k = 1; k < n && !stuck; k++) { int best = -1; for (int j = 0; j < n; j++) if (!used[j] && has[cur][j]) { if (best < 0 || W[cur][j] < W[cur][best]) { best = j; tie = tie == cur + 1 ? 0 : tie; } else if (W[cur][j] == W[cur][best]) tie = cur + 1; } if (tie) break; if (best < 0) { stuck = 1; break; } len = len + W[cur][best]; used[best] = 1; cur = best; }
  if (!tie && !stuck && has[cur][start]) { len = len + W[cur][start]; vf_cover("nearest tour constructed"); vf_le(P.bestValue, len, TOL, "the incumbent is worse than the nearest-neighbour tour"); } else vf_cover(tie ? "tie" : "construction stuck");
  if (b->num_edges_in_cycle == 0) { vf_eq(P.bestValue, before, 0, "the incumbent's value changes without a tour"); vf_cover("incumbent kept"); return; }
  vf_cover(b->type == CLOSED_NN ? "new incumbent by distance" : "new incumbent by probability"); vf_true(b->type == CLOSED_NN || (HYBRID && b->type == CLOSED_NN_HYBRID), "the new incumbent has a wrong type"); a_tour(b, "the new incumbent"); if (b->num_edges_in_cycle != n) return;
  memset(used, 0, sizeof used); used[start] = 1; cur = start; int h = b->type == CLOSED_NN_HYBRID;
  for (int i = 0; i < n - 1; i++) { int a = b->cycleEdges[i].src, c = b->cycleEdges[i].dest, nx = a == cur ? c : a; vf_true(a == cur || c == cur, "the constructed walk is not connected"); if (a != cur && c != cur) return; double top = h ? 0 : 9;
    for (int x = 0; x < n; x++) if (!used[x] && has[cur][x]) { double v = h ? Q[cur][x] : W[cur][x]; if (!vf_is_concrete(v)) { if (h) vf_le(v, Q[cur][nx], 0, "a step does not go to a most probable neighbour"); else vf_le(W[cur][nx], v, 0, "a step does not go to a nearest neighbour"); } else if (h ? v > top : v < top) top = v; }
    if (h) vf_le(top, Q[cur][nx], 0, "a step does not go to a most probable neighbour"); else if (top < 9) vf_le(W[cur][nx], top, 0, "a step does not go to a nearest neighbour"); used[nx] = 1; cur = nx; }
}
void harness(void) {
  n = vf_param("n", 24); int mode = vf_param("mode", 1), kind = vf_param("kind", 0), base = vf_param("base", 1), check = vf_param("check", 255); if (vf_param("nb", 1) > 1) base += vf_choose("base", vf_param("nb", 1));
  instance(base, kind, vf_param("sym", 1), vf_param("miss", 0));
  if (mode == 1) { graph(&g); wrap_quick_sort(&g); same(&g, 1, 1, 0, "sorting"); vf_true(g.orderedEdges, "the graph is not marked as sorted"); wrap_quick_sort(&g); same(&g, 1, 0, 0, "sorting again"); vf_cover("sorted"); }
  if (mode == 2) { static MST t; for (int k = 0; k < 2; k++) { const char *w = k ? "kruskal" : "prim"; graph(&g); vf_poison(&t, sizeof t); if (k) kruskal(&g, &t); else prim(&g, &t); vf_true(t.isValid, "%s: not valid", w); if (spanning(&t, -1, 0, w)) sums(&t, n - 1, w); } vf_cover("spanning trees"); }
  if (mode == 3) { static SubProblem s; int c = n - 1 - vf_choose("special city", 3); vf_poison(&s, sizeof s); unconstrained(&s); graph(&P.graph); P.reformulationGraph = P.graph; P.candidateNodeId = c; set_problem(&P);
    int k = vf_param("k", 6); for (int q = 0; q < k; q++) { int i = rnd() % (n - 1), a = planted[i], b = planted[i + 1]; if (s.constraints[a][b] == NOTHING) put(&s, a, b, MANDATORY); }
    for (int q = 0; q < k * 4; q++) { int a = rnd() % n, b = rnd() % n; if (a != b && has[a][b] && s.constraints[a][b] == NOTHING) put(&s, a, b, FORBIDDEN); } for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!has[i][j]) put(&s, i, j, FORBIDDEN);
    int chain = vf_param("chain", 0), exact = vf_param("exact", 0); for (int q = 0; q < chain; q++) put(&s, planted[q], planted[q + 1], MANDATORY);
    for (int q = 0, c2 = 0; c2 < exact && q < 400000; q++) { int a = rnd() % n, b = rnd() % n, d = pos[a] - pos[b]; if (d < 0) d = -d; if (a != b && has[a][b] && d > 1 && d < n - 1 && s.constraints[a][b] == NOTHING) put(&s, a, b, FORBIDDEN), c2++; }
    int alg = vf_choose("algorithm", 2); const char *w = alg ? "kruskal" : "prim"; if (alg) constrained_kruskal(&P.graph, &s, c); else constrained_prim(&P.graph, &s, c);
    vf_true(s.oneTree.isValid, "%s: no 1-tree is found", w); if (!s.oneTree.isValid) return; BBNodeType t = mst_to_one_tree(&s, &P.graph); vf_true(t == OPEN, "%s: no 1-tree is found", w); if (t != OPEN) return;
    if (!spanning(&s.oneTree, c, &s, w)) return; sums(&s.oneTree, n, w); int cd = 0, bad = 0; for (int i = 0; i < n; i++) { int in = s.oneTree.edges[i].src == c || s.oneTree.edges[i].dest == c; cd += in; }
    vf_true(cd == 2, "%s: the special city has %d roads", w, cd); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int in = s.oneTree.edges_matrix[i][j] >= 0; bad |= (s.constraints[i][j] == MANDATORY && !in) || (s.constraints[i][j] == FORBIDDEN && in); } vf_true(!bad, "%s: the 1-tree does not respect the constraints", w);
    for (int i = 0; i < n; i++) { int a = s.oneTree.edges[i].src, b = s.oneTree.edges[i].dest; if ((a != c && b != c) || s.constraints[a][b] == MANDATORY) continue; for (int j = 0; j < n; j++) if (has[c][j] && s.oneTree.edges_matrix[c][j] < 0 && s.constraints[c][j] == NOTHING) vf_le(W[a][b], W[c][j], TOL, "%s: a road of the special city can be replaced by a cheaper one", w); }
    same(&P.graph, 0, 0, 0, "the graph after building the 1-tree"); vf_cover("1-trees"); }
  if (mode == 4) { buf = malloc((size_t) n * n * 120 + 100000); char *q = buf; for (int i = 0; i < n; i++) { *q++ = '('; q = num(q, X[i]); *q++ = ','; *q++ = ' '; q = num(q, Y[i]); *q++ = ')'; *q++ = ';'; } *q++ = '\n';
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { *q++ = '('; q = num(q, has[i][j] ? W[i][j] : 0); *q++ = ','; *q++ = ' '; q = num(q, has[i][j] ? (HYBRID ? Q[i][j] : 0.25) : 0); *q++ = ')'; *q++ = ';'; } *q++ = '\n'; } *q = 0;
    vf_file("in.csv", buf); free(buf); vf_poison(&g, sizeof g); int rc = vf_try(rd_csv, 0); vf_true(rc == -1, "a well-formed file is refused"); if (rc == -1) same(&g, 0, 1, 0, "reading a matrix file"); vf_cover("matrix files"); }
  if (mode == 5 || mode == 6) { char nb[32]; for (int i = 0; i < n; i++) { X[i] = (rnd() % 4096) / 4.0; Y[i] = (rnd() % 4096) / 4.0; } int v = n - 1; sprintf(nb, "x_%d", v); X[v] = vf_double(nb, 1025, 2000);
    if (mode == 5) { buf = malloc((size_t) n * 120 + 1000); char *q = buf; q += sprintf(q, "NAME : a\nEDGE_WEIGHT_TYPE : EUC_2D\nDIMENSION : %d\nNODE_COORD_SECTION\n", n); for (int i = 0; i < n; i++) { q += sprintf(q, "%d ", i + 1); q = num(q, X[i]); *q++ = ' '; q = num(q, Y[i]); *q++ = '\n'; } q += sprintf(q, "EOF\n"); vf_file("in.tsp", buf); free(buf); vf_poison(&g, sizeof g); int rc = vf_try(rd_tsp, 0); vf_true(rc == -1, "a well-formed file is refused"); if (rc != -1) return; }
    else { static Node nd[M]; List *l = new_list(); for (int i = 0; i < n; i++) { nd[i].positionInGraph = i; nd[i].x = X[i]; nd[i].y = Y[i]; nd[i].num_neighbours = 0; add_elem_list_bottom(l, &nd[i]); } vf_poison(&g, sizeof g); create_euclidean_graph(&g, l); }
    vf_true(g.num_nodes == n, "%d cities instead of %d", g.num_nodes, n); if (g.num_nodes != n) return; for (int i = 0; i < n; i++) { vf_eq(g.nodes[i].x, X[i], 1e-3, "a coordinate is wrong"); vf_eq(g.nodes[i].y, Y[i], 1e-3, "a coordinate is wrong"); X[i] = g.nodes[i].x; Y[i] = g.nodes[i].y; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double dx = X[i] - X[j], dy = Y[i] - Y[j]; W[i][j] = W[j][i] = sqrt(dx * dx + dy * dy); Q[i][j] = Q[j][i] = 0; has[i][j] = has[j][i] = 1; } ne = n * (n - 1) / 2;
    same(&g, 0, 1, 4e-3, "a graph of coordinates"); vf_cover("graphs of coordinates"); }
  if (mode == 10) { special(vf_param("out", n - 1)); return; }
  if (mode == 12) { greedy(); return; }
  if (mode == 11) { recognise(); return; }
  if (mode == 9) { branching(vf_param("tours", 4), vf_param("k", 10)); return; }
  if (mode == 8) { walk(vf_param("depth", 6), check); return; }
  if (mode == 7) { vf_poison(&P, sizeof P); graph(&P.graph); g0 = P.graph; branch_and_bound(&P); int ty = P.bestSolution.type; vf_cover(ty == CLOSED_NN ? "solved by nearest neighbour" : ty == CLOSED_NN_HYBRID ? "solved by most probable neighbour" : ty == CLOSED_1TREE ? "solved by a 1-tree" : ty == CLOSED_SUBGRADIENT ? "solved by subgradient" : "other"); if (P.generatedBBNodes > 255) vf_cover("more than 255 nodes"); if (P.generatedBBNodes > 1) vf_cover("branched");
    if (check & 1 && n <= 13) optimal();
    if (check & 1 && (kind == 2 || kind == 5)) { vf_le(P.bestSolution.value, planted_length(), EPS + TOL, "a tour is better than the reported one by more than the tolerance"); }
    if (check & 2) { a_tour(&P.bestSolution, "the reported solution"); vf_eq(P.bestValue, P.bestSolution.value, TOL, "the best value is not the value of the best solution"); }
    if (check & 4) report();
    if (check & 8) { same(&P.graph, 0, 1, 0, "the instance after solving"); int ok = 1; for (int k = 0; k < ne; k++) ok &= P.graph.edges[k].symbol == k + 1; vf_true(ok, "solving changes the order of the roads"); } }
}
