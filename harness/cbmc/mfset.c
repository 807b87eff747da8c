/* Disjoint sets: any sequence of OPS merges and lookups over N elements against a partition. The elements made by
 * create_forest are moved to objects of their own before the first operation (cheaper to encode). */
#include "nd.h"
#include "data_structures/mfset.h"
#ifndef OPS
#define OPS 5
#endif
static Forest F; static Node nodes[MAX_VERTEX_NUM]; static int label[MAX_VERTEX_NUM];
static Set e0, e1, e2, e3, e4, e5; static Set *S[6] = {&e0, &e1, &e2, &e3, &e4, &e5};
void harness(void) {
  int n = MAX_VERTEX_NUM, skip = -1;
  for (int i = 0; i < n; i++) { nodes[i].positionInGraph = i; label[i] = i; }
#ifdef CONSTRAINED
  skip = nd(0, n - 1); create_forest_constrained(&F, nodes, n, skip); CHECK(F.num_sets == n - 1, "wrong number of sets");
#else
  create_forest(&F, nodes, n); CHECK(F.num_sets == n, "wrong number of sets");
#endif
  for (int i = 0; i < n; i++) if (i != skip) { CHECK(F.sets[i].num_in_forest == i && F.sets[i].curr.positionInGraph == i && find(&F.sets[i]) == &F.sets[i], "a new element is not its own representative"); *S[i] = F.sets[i]; }
  for (int k = 0; k < OPS; k++) {
    int op = nd(0, 1), a = nd(0, n - 1), b = nd(0, n - 1); ASSUME(a != skip && b != skip);
    if (op) { merge(S[a], S[b]); int la = label[a], lb = label[b]; for (int i = 0; i < n; i++) if (label[i] == lb) label[i] = la; }
    else find(S[a]);
  }
  int r[MAX_VERTEX_NUM];
  for (int i = 0; i < n; i++) if (i != skip) { Set *p = find(S[i]); int v = p->num_in_forest; r[i] = v;
    CHECK(v < n && v != skip && p == S[v] && label[v] == label[i], "the representative is not a member of the set"); }
  int q = nd(0, n - 1); ASSUME(q != skip); CHECK(find(S[q])->num_in_forest == r[q], "a lookup changes a membership");
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (i != skip && j != skip) CHECK((r[i] == r[j]) == (label[i] == label[j]), "two elements share a representative although never connected, or the other way round");
  REACHED();
}
