/* The order of the open nodes. mode 0: preference between two nodes and the place of new children among the open ones;
 * mode 1: a whole search opens, every time, the node at the front of the queue */
#include "bb.h"
extern void nearest_prob_neighbour(unsigned short);
static SubProblem s, open_[400], o2; static SubProblemsList L; static Problem Q;
static int prefer(const SubProblem *a, const SubProblem *b) { return b->value - a->value > EPS || (HYBRID && b->value > a->value && a->prob - b->prob >= 0.05f); }
static void places(void) {
  int n = vf_param("n", 4), k = vf_param("open", 3); pairs_init(n); I.n = n; char nb[32];
  for (int i = 0; i < n; i++) I.x[i] = I.y[i] = 0;
  for (int e = 0; e < npairs; e++) { I.has[pa[e]][pb[e]] = I.has[pb[e]][pa[e]] = 1; I.w[pa[e]][pb[e]] = I.w[pb[e]][pa[e]] = 0.25; }
  int at = vf_param("at", 0); I.p[pa[at]][pb[at]] = I.p[pb[at]][pa[at]] = HYBRID ? vf_double("road probability", 0, 1) : 0;
  problem_setup(0); node_setup(&s, 0, 0); s.treeLevel = 2; s.edge_to_branch = at; s.value = vf_double("bound", 0, 2); s.prob = HYBRID ? vf_double("probability", 0, 1) : 0.5;
  new_SubProblemList(&L);
  for (int i = 0; i < k; i++) { node_setup(&open_[i], 0, 0); open_[i].id = 100 + i; sprintf(nb, "bound_%d", i); int fx = vf_param("fixed", 0); open_[i].value = fx ? (i + i * 7 % 5) * 2.0 / (k + 5) : vf_double(nb, 0, 2); sprintf(nb, "probability_%d", i); open_[i].prob = HYBRID ? (fx ? i * 37 % 64 / 64.0 : vf_double(nb, 0, 1)) : 0; add_elem_SubProblemList_bottom(&L, &open_[i]); }
  int first = prefer(&s, &open_[0]); vf_true(!!compare_subproblems(&s, &open_[0]) == first, "two nodes are not compared as documented");
  branch(&L, &s);
  int place = k; for (int i = k - 1; i >= 0; i--) if (prefer(&s, &open_[i])) place = i;
  vf_cover(place == 0 ? "queued first" : place == k ? "queued last" : "queued in between");
  vf_true((int)L.size == k + 2, "%d nodes are queued instead of %d", (int)L.size, k + 2); if ((int)L.size != k + 2) return;
  /* the second child is not preferred to the first one (same bound and probability), so it follows it, right there or further back */
  int order[410], m = 0; SubProblemsListIterator *it = create_SubProblemList_iterator(&L); for (int i = 0; i < k + 2; i++) { SubProblem *x = SubProblemList_iterator_get_next(it); order[m++] = x->id >= 100 ? (int)x->id - 100 : x->constraints[pa[at]][pb[at]] == MANDATORY ? 500 : 600;
    if (x->id < 100) { vf_eq(x->value, s.value, 0, "a child does not inherit the bound"); vf_eq(x->prob, s.prob, 0, "a child does not inherit the probability"); } else { vf_eq(x->value, open_[x->id - 100].value, 0, "an open node's bound changes"); vf_eq(x->prob, open_[x->id - 100].prob, 0, "an open node's probability changes"); } }
  delete_SubProblemList_iterator(it);
  int mandatory_first = !HYBRID || I.p[pa[at]][pb[at]] >= 0.5f; vf_cover(mandatory_first ? "mandatory child first" : "forbidden child first"); int c1 = mandatory_first ? 500 : 600, c2 = mandatory_first ? 600 : 500;
  /* reference: insert the first child before the first node it is preferred to; then the second one */
  int want[410], w = 0; for (int i = 0; i < k; i++) { if (i == place) { want[w++] = c1; want[w++] = -1; } want[w++] = i; } if (place == k) { want[w++] = c1; want[w++] = -1; }
  /* the second child goes before the first open node it is preferred to: the same place, after the first child */
  for (int i = 0; i < w; i++) if (want[i] == -1) want[i] = c2;
  for (int i = 0; i < k + 2; i++) vf_true(order[i] == want[i], "the open nodes are queued in a wrong order");
}
static void front(void) {
  int n = vf_param("n", 5); inst_base(n, vf_param("base", 3), vf_param("sym", 1), vf_param("sp", 0)); inst_graph(&I, &P.graph);
  branch_and_bound(&P); Q = P; vf_cover(Q.generatedBBNodes > 5 ? "more than 5 nodes" : Q.generatedBBNodes > 1 ? "2 to 5 nodes" : "not branched");
  P.bestValue = INFINITE; P.bestSolution.value = INFINITE; set_problem(&P); for (int i = 0; i < n; i++) nearest_prob_neighbour(i);
  P.candidateNodeId = Q.candidateNodeId; P.bestSolution.id = 0; P.exploredBBNodes = 0; P.generatedBBNodes = 1; P.totTreeLevels = 1; P.interrupted = 0; P.reformulationGraph = P.graph; P.num_fixed_edges = 0;
  node_setup(&s, 0, 0); s.treeLevel = 1; s.id = 1; s.fatherId = 0; s.value = INFINITE; new_SubProblemList(&L); add_elem_SubProblemList_bottom(&L, &s);
  while (L.size) { s = *get_SubProblemList_elem_index(&L, 0); delete_SubProblemList_elem_index(&L, 0); bound(&s); if (s.type == OPEN && s.edge_to_branch != -1) { P.num_fixed_edges += variable_fixing(&s); branch(&L, &s); } }
  vf_true(P.generatedBBNodes == Q.generatedBBNodes && P.exploredBBNodes == Q.exploredBBNodes && P.totTreeLevels == Q.totTreeLevels, "the search does not open the nodes in the order of the queue: %u/%u/%d nodes generated/explored/levels instead of %u/%u/%d", Q.generatedBBNodes, Q.exploredBBNodes, Q.totTreeLevels, P.generatedBBNodes, P.exploredBBNodes, P.totTreeLevels);
  vf_eq(P.bestSolution.value, Q.bestSolution.value, 0, "the search does not open the nodes in the order of the queue: other cost"); vf_true(P.bestSolution.id == Q.bestSolution.id, "the search does not open the nodes in the order of the queue: the tour is found in another node");
}
void harness(void) { if (vf_param("mode", 0)) front(); else places(); }
