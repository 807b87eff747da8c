/* Disjoint sets, one step from any state: every forest over N elements (numbered so that a parent comes before its children) in which each parent has a greater rank and a root of rank r has
 * at least 2^r elements (as merging from singletons leaves it); then STEPS merges, through any elements, against the partition. */
#include "nd.h"
#include "data_structures/mfset.h"
#ifndef STEPS
#define STEPS 1
#endif
#define N MAX_VERTEX_NUM
static Set e0, e1, e2, e3, e4, e5, e6, e7; static Set *S[8] = {&e0, &e1, &e2, &e3, &e4, &e5, &e6, &e7};
static int par[N], rk[N], label[N], size[N], r[N];
void harness(void) {
  for (int i = 0; i < N; i++) { par[i] = nd(-1, i - 1); rk[i] = nd(0, 2); size[i] = 0; }
  for (int i = 0; i < N; i++) if (par[i] >= 0) ASSUME(rk[par[i]] > rk[i]);
  for (int i = 0; i < N; i++) { int a = i; if (par[a] >= 0) a = par[a]; if (par[a] >= 0) a = par[a]; label[i] = a; size[a]++; }
  for (int i = 0; i < N; i++) { if (par[i] < 0) ASSUME(rk[i] == 0 || size[i] >= (rk[i] == 1 ? 2 : 4)); S[i]->rango = rk[i]; S[i]->num_in_forest = i; S[i]->curr.positionInGraph = i; S[i]->parentSet = par[i] < 0 ? 0 : S[par[i]]; }
  for (int k = 0; k < STEPS; k++) { int a = nd(0, N - 1), b = nd(0, N - 1); merge(S[a], S[b]); int la = label[a], lb = label[b]; for (int i = 0; i < N; i++) if (label[i] == lb) label[i] = la; }
  for (int i = 0; i < N; i++) { Set *p = find(S[i]); int v = p->num_in_forest; r[i] = v; CHECK(v < N && p == S[v] && label[v] == label[i], "the representative is not a member of the set"); }
  { int i = nd(0, N - 1), j = nd(0, N - 1); CHECK((r[i] == r[j]) == (label[i] == label[j]), "two elements share a representative although never connected, or the other way round"); }
  REACHED();
}
