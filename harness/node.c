/* One search node: bounding, then (as the search does) fixing by reduced costs and branching.
 * check: 1 bounding, 2 fixing, 4 branching */
#include "bb.h"
static SubProblem s, s0, s1, inc; static SubProblemsList open; static int check; static double lim; static SubProblem *kid[2]; static int nkid, child_dropped;
static void lb(const int *t, int n, void *a) { if (admissible(t, n, s0.constraints)) vf_le(s.value, tour_w(t, n), TOL, "the bound exceeds the cost of a tour that respects the constraints"); }
static void closed(const int *t, int n, void *a) { if (admissible(t, n, s0.constraints)) vf_le(P.bestValue, tour_w(t, n), EPS + TOL, "the node is closed (%d) although a tour beats the incumbent", s.type); }
static void fixed(const int *t, int n, void *a) { if (admissible(t, n, s1.constraints) && !admissible(t, n, s.constraints)) vf_le(P.bestValue, tour_w(t, n), TOL, "fixing by reduced costs excludes a tour that beats the incumbent"); }
static void kids(const int *t, int n, void *a) { if (!admissible(t, n, s.constraints)) return; int ok = 0; for (int i = 0; i < nkid; i++) ok |= admissible(t, n, kid[i]->constraints); vf_true(ok, "branching loses a tour"); }
static void forced(const int *t, int n, void *a) { SubProblem *k = a; ConstraintType c[MAX_VERTEX_NUM][MAX_VERTEX_NUM]; memcpy(c, s.constraints, sizeof c); Edge e = P.graph.edges[s.edge_to_branch]; c[e.src][e.dest] = c[e.dest][e.src] = k->constraints[e.src][e.dest];
  if (admissible(t, n, c)) vf_true(admissible(t, n, k->constraints), "inference excludes a tour that respects the child"); }
void harness(void) {
  int n = vf_param("n", 4), k = vf_param("k", 2); check = vf_param("check", 7);
  inst_base(n, vf_param("base", 0), vf_param("sym", 3), vf_param("sp", 0));
  problem_setup(vf_choose("special city", n));
  node_setup(&s, k, vf_param("infer", 1)); s0 = s;
  s.treeLevel = vf_param("level", 2);
  P.bestValue = P.bestSolution.value = vf_double("incumbent", 0.5, n);
  s.value = s.treeLevel == 1 ? INFINITE : 0;
  double before = P.bestValue; inc = P.bestSolution;
  bound(&s);
  vf_le(P.bestValue, before, 0, "bounding worsens the incumbent");
  vf_eq(P.bestValue, P.bestSolution.value, 0, "the best value is not that of the best solution");
  if (P.bestSolution.num_edges_in_cycle) { vf_cover("new incumbent"); double len; if (is_tour(&P.bestSolution, &len, "the new incumbent")) vf_eq(len, P.bestValue, TOL, "the incumbent's value is not its length"); }
  else vf_eq(P.bestValue, before, 0, "the incumbent's value changes without a tour");
  int op = s.type == OPEN && s.edge_to_branch != -1; vf_cover(op ? "left open" : s.type == CLOSED_UNFEASIBLE ? "infeasible" : s.type == CLOSED_BOUND ? "dominated" : "solved");
  if (check & 1) all_tours(n, op ? lb : closed, 0);
  if (check & 1) { int same = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (s.constraints[i][j] != s0.constraints[i][j]) same = 0; vf_true(same, "bounding changes the constraints"); }
  if (!op || check < 2) return;
  Edge e = P.graph.edges[s.edge_to_branch]; vf_true(s.edge_to_branch < P.graph.num_edges && s.constraints[e.src][e.dest] == NOTHING, "the branching road is already decided");
  s1 = s; int f = variable_fixing(&s); vf_cover(f ? "roads fixed" : "no road fixed");
  if (check & 2) { all_tours(n, fixed, 0); consistent(&s, "fixing"); }
  if (!(check & 4)) return;
  new_SubProblemList(&open); branch(&open, &s);
  SubProblemsListIterator *it = create_SubProblemList_iterator(&open); for (size_t i = 0; i < open.size && i < 2; i++) kid[nkid++] = SubProblemList_iterator_get_next(it); delete_SubProblemList_iterator(it);
  vf_true(open.size <= 2, "%d children", (int)open.size); vf_cover(nkid == 2 ? "two children" : nkid ? "one child" : "no child");
  if (nkid == 2) vf_true(kid[0]->constraints[e.src][e.dest] != kid[1]->constraints[e.src][e.dest], "the children decide the branching road in the same way");
  for (int i = 0; i < nkid; i++) { ConstraintType c = kid[i]->constraints[e.src][e.dest]; vf_true(c == MANDATORY || c == FORBIDDEN, "a child does not decide the branching road"); consistent(kid[i], "a child"); all_tours(n, forced, kid[i]); vf_eq(kid[i]->value, s.value, 0, "a child does not inherit the bound"); vf_true(kid[i]->type == OPEN && kid[i]->treeLevel == s.treeLevel + 1, "a child has a wrong type or level"); }
  all_tours(n, kids, 0);
  delete_SubProblemList(&open);
}
