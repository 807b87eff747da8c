/* Constraint inference, bit-precise: every symmetric constraint matrix of NC cities (capacity MAX_VERTEX_NUM), every tour that respects it */
#include "nd.h"
#include "algorithms/branch_and_bound.h"
#ifndef NC
#define NC MAX_VERTEX_NUM
#endif
static Problem P; static SubProblem s;
static int M[NC][NC], K[NC][NC], succ[NC];
static int respects(int C[NC][NC]) { int ok = 1; for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { int u = succ[a] == b || succ[b] == a; if (u ? C[a][b] == 2 : C[a][b] == 1) ok = 0; } return ok; }
void harness(void) {
  set_problem(&P); P.graph.num_nodes = NC; P.num_fixed_edges = 0;
  s.num_mandatory_edges = s.num_forbidden_edges = 0;
  for (int a = 0; a < MAX_VERTEX_NUM; a++) for (int b = 0; b < MAX_VERTEX_NUM; b++) s.constraints[a][b] = a == b ? FORBIDDEN : NOTHING;
  for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { int c = nd(0, 2); M[a][b] = c; s.constraints[a][b] = s.constraints[b][a] = c == 1 ? MANDATORY : c == 2 ? FORBIDDEN : NOTHING;
    if (c == 1) { ASSUME(s.num_mandatory_edges < NC); s.mandatoryEdges[s.num_mandatory_edges].src = a; s.mandatoryEdges[s.num_mandatory_edges].dest = b; s.num_mandatory_edges++; } else if (c == 2) s.num_forbidden_edges++; }
  int pos[NC]; pos[0] = 0;                                                   /* a tour: positions are a permutation, city 0 first */
  for (int i = 1; i < NC; i++) { pos[i] = nd(1, NC - 1); for (int k = 1; k < i; k++) ASSUME(pos[k] != pos[i]); }
  for (int a = 0; a < NC; a++) for (int b = 0; b < NC; b++) if (pos[b] == (pos[a] + 1) % NC) succ[a] = b;
  int before = respects(M);
  int valid = infer_constraints(&s);
  if (before) CHECK(valid, "a tour respects the constraints, but inference declares them contradictory");
  int man = 0, bad = 0;
  for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { if (s.constraints[a][b] != s.constraints[b][a]) bad = 1; K[a][b] = s.constraints[a][b] == MANDATORY ? 1 : s.constraints[a][b] == FORBIDDEN ? 2 : 0; if (K[a][b] == 1) man++; }
  if (valid) {
    CHECK(!bad, "the constraint matrix is not symmetric after inference");
    for (int a = 0; a < NC; a++) for (int b = a + 1; b < NC; b++) { if (M[a][b] && K[a][b] != M[a][b]) bad = 1; if (K[a][b] == 2 && !s.num_forbidden_edges) bad = 1; }
    CHECK(!bad, "inference drops a constraint or does not count it");
    CHECK(s.num_mandatory_edges == man, "the count of mandatory roads disagrees with the matrix after inference");
    for (int i = 0; i < MAX_VERTEX_NUM; i++) if (i < s.num_mandatory_edges) { int a = s.mandatoryEdges[i].src, b = s.mandatoryEdges[i].dest; if (a >= NC || b >= NC || s.constraints[a][b] != MANDATORY) bad = 1;
      for (int j = 0; j < i; j++) { int c = s.mandatoryEdges[j].src, d = s.mandatoryEdges[j].dest; if ((a == c && b == d) || (a == d && b == c)) bad = 1; } }
    CHECK(!bad, "the list of mandatory roads disagrees with the matrix after inference");
    if (before) CHECK(respects(K), "inference excludes a tour that respects the constraints");
  }
  REACHED();
}
