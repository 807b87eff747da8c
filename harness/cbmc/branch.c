/* Branching and inference, bit-precise: every constraint matrix of NC cities (capacity MAX_VERTEX_NUM), every branching road.
 * Against all tours: none is lost, none is excluded by inference; the counts and the list agree with the matrix. */
#include "nd.h"
#include "algorithms/branch_and_bound.h"
#ifndef NC
#define NC MAX_VERTEX_NUM
#endif
static Problem P; static SubProblem s, kid[2]; static SubProblemsList open;
static int M[NC][NC], K[2][NC][NC];      /* 0 free, 1 mandatory, 2 forbidden */
static int tour[NC];
static int respects(int C[NC][NC]) { for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { int u = 0; for (int i = 0; i < NC; i++) { int x = tour[i], y = tour[(i + 1) % NC]; if ((x == a && y == b) || (x == b && y == a)) u = 1; }
  if (u ? C[a][b] == 2 : C[a][b] == 1) return 0; } return 1; }
static int code(ConstraintType c) { return c == MANDATORY ? 1 : c == FORBIDDEN ? 2 : 0; }
void harness(void) {
  set_problem(&P); P.graph.num_nodes = NC; P.graph.num_edges = 0; P.totTreeLevels = 1; P.generatedBBNodes = 1; P.num_fixed_edges = 0;
  for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { Edge *e = &P.graph.edges[P.graph.num_edges]; e->src = a; e->dest = b; e->positionInGraph = P.graph.num_edges; e->weight = 1; e->prob = 0.25; P.graph.edges_matrix[a][b] = P.graph.edges_matrix[b][a] = *e; P.graph.num_edges++; }
  s.num_mandatory_edges = s.num_forbidden_edges = 0; s.value = 0.5; s.prob = 0; s.treeLevel = 3; s.id = 5; s.type = OPEN;
  for (int a = 0; a < MAX_VERTEX_NUM; a++) for (int b = 0; b < MAX_VERTEX_NUM; b++) s.constraints[a][b] = a == b ? FORBIDDEN : NOTHING;
  for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { int c = nd(0, 2); M[a][b] = c; s.constraints[a][b] = s.constraints[b][a] = c == 1 ? MANDATORY : c == 2 ? FORBIDDEN : NOTHING;
    if (c == 1) { ASSUME(s.num_mandatory_edges < NC); s.mandatoryEdges[s.num_mandatory_edges].src = a; s.mandatoryEdges[s.num_mandatory_edges].dest = b; s.num_mandatory_edges++; } else if (c == 2) s.num_forbidden_edges++; }
  int at = nd(0, NC * (NC - 1) / 2 - 1); Edge e = P.graph.edges[at]; int bs = e.src, bd = e.dest; s.edge_to_branch = at;
  P.graph.edges[at].prob = P.graph.edges_matrix[bs][bd].prob = P.graph.edges_matrix[bd][bs].prob = nd(0, 1) ? 0.75 : 0.25;
#ifdef UNDECIDED
  ASSUME(M[bs][bd] == 0);
#endif
  for (int i = 0; i < NC; i++) { tour[i] = nd(0, NC - 1); for (int k = 0; k < i; k++) ASSUME(tour[k] != tour[i]); }
  ASSUME(tour[0] == 0); ASSUME(respects(M));
  new_SubProblemList(&open); branch(&open, &s);
  CHECK(open.size <= 2, "more than two children"); int ok = 0;
  for (int q = 0; q < 2; q++) if (q < open.size) {
    SubProblem *k = q == 0 ? &open.head->subProblem : &open.tail->subProblem; int man = 0, bad = 0, in = 0, D[NC][NC];
    for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { if (k->constraints[a][b] != k->constraints[b][a]) bad = 1; K[q][a][b] = code(k->constraints[a][b]); if (K[q][a][b] == 1) man++; D[a][b] = M[a][b]; }
    CHECK(!bad, "a child's constraint matrix is not symmetric"); CHECK(K[q][bs][bd] != 0, "a child does not decide the branching road");
    CHECK(k->num_mandatory_edges == man, "a child's count of mandatory roads disagrees with its matrix");
    for (int i = 0; i < NC; i++) if (i < k->num_mandatory_edges) { int a = k->mandatoryEdges[i].src, b = k->mandatoryEdges[i].dest; if (a >= NC || b >= NC || k->constraints[a][b] != MANDATORY) bad = 1;
      for (int j = 0; j < i; j++) { int c = k->mandatoryEdges[j].src, d = k->mandatoryEdges[j].dest; if ((a == c && b == d) || (a == d && b == c)) bad = 1; } }
    CHECK(!bad, "a child's list of mandatory roads disagrees with its matrix");
    for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { if (M[a][b] && K[q][a][b] != M[a][b]) bad = 1; if (K[q][a][b] == 2 && !k->num_forbidden_edges) bad = 1; }
    CHECK(!bad, "a child drops a constraint of its father");
    D[bs][bd] = K[q][bs][bd]; int r = respects(K[q]); if (respects(D)) CHECK(r, "inference excludes a tour that respects the child"); ok |= r;
    CHECK(k->type == OPEN && k->treeLevel == 4 && k->value == 0.5 && k->fatherId == 5, "a child does not inherit from its father"); }
  if (open.size == 2) CHECK(K[0][bs][bd] != K[1][bs][bd], "the children decide the branching road in the same way");
  CHECK(ok, "branching loses a tour");
  REACHED();
}
