/* Disjoint sets of many elements: a history of a chosen shape, then symbolic merges and lookups, against a partition */
#include "common.h"
#include "data_structures/mfset.h"
#define M MAX_VERTEX_NUM
static Forest F; static Node nodes[M]; static int n, skip = -1, id[M], m, lab[M], size_[M]; static unsigned s_ = 7;
static unsigned rnd(void) { s_ = s_ * 1664525u + 1013904223u; return s_ >> 8; }
static int ref(int x) { while (lab[x] != x) x = lab[x]; return x; }
static void join(int i, int j) { int a = id[i], b = id[j]; merge(&F.sets[a], &F.sets[b]); a = ref(a); b = ref(b); if (a == b) return; if (size_[a] < size_[b]) { int t = a; a = b; b = t; } lab[b] = a; size_[a] += size_[b]; }
static void verify(const char *when) {
  static int rep[M], owner[M]; for (int i = 0; i < n; i++) owner[i] = -1;
  for (int i = 0; i < m; i++) { int a = id[i]; Set *p = find(&F.sets[a]); int v = p - F.sets, ok = v >= 0 && v < n && v != skip && p->num_in_forest == v && ref(v) == ref(a); vf_true(ok, "%s: the representative is not a member of the set", when); if (!ok) return; rep[a] = v; ok = owner[ref(a)] == -1 || owner[ref(a)] == v; vf_true(ok, "%s: connected elements have different representatives", when); owner[ref(a)] = v; }
  for (int i = m - 1; i >= 0; i--) vf_true(find(&F.sets[id[i]])->num_in_forest == rep[id[i]], "%s: a lookup changes a membership", when);
  for (int i = 0; i < m; i++) vf_true(F.sets[id[i]].curr.positionInGraph == id[i], "%s: the element holds another city", when);
}
void harness(void) {
  n = vf_param("n", M); if (vf_choose("excluded", 3)) skip = n - 1 - 3 * vf_choose("which", 2); s_ += 31 * vf_choose("numbering", 3); int shape = vf_choose("shape", 6), part = vf_choose("part", 3);
  for (int i = 0; i < n; i++) { nodes[i].positionInGraph = i; lab[i] = i; size_[i] = 1; if (i != skip) id[m++] = i; }
  vf_poison(&F, sizeof F); if (skip >= 0) create_forest_constrained(&F, nodes, n, skip); else create_forest(&F, nodes, n); vf_true(F.num_sets == m, "%d sets instead of %d", F.num_sets, m); verify("new sets");
  if (s_ != 7) for (int i = m - 1; i > 0; i--) { int k = rnd() % (i + 1), t = id[i]; id[i] = id[k]; id[k] = t; }
  int lim = part == 0 ? m : part == 1 ? m / 2 : m - 2;
  if (shape == 0) for (int i = 1; i < lim; i++) join(i - 1, i);
  if (shape == 1) for (int i = lim - 1; i > 0; i--) join(i, i - 1);
  if (shape == 2) for (int d = 1; d < lim; d *= 2) for (int i = 0; i + d < lim; i += 2 * d) join(i, i + d);
  if (shape == 3) for (int d = 1; d < lim; d *= 2) for (int i = 0; i + d < lim; i += 2 * d) join(i + d, i + rnd() % d);
  if (shape == 4) for (int i = 1; i < lim; i++) join(i, 0);
  if (shape == 5) for (int i = 0; i < lim; i++) join(rnd() % m, rnd() % m);
  verify("after merges");
  for (int k = 0; k < 2; k++) { char nb[32]; sprintf(nb, "first_%d", k); int at[6] = {0, m - 1, m / 2, m - 3, m - 2, 1}, ends = vf_param("ends", 6), a = at[vf_choose(nb, ends)]; sprintf(nb, "second_%d", k); join(a, at[vf_choose(nb, ends)]); }
  verify("after two more merges"); vf_cover(skip >= 0 ? "with an excluded city" : "all cities");
}
