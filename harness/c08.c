/* The priority queue. Symbolic values; mode 0: any sequence of `ops` operations on up to n elements; mode 1: `base` elements of
 * ascending concrete values, `ext` extractions, then symbolic decreases of any element and extractions; always drained at the end */
#include "common.h"
#include "data_structures/fibonacci_heap.h"
static FibonacciHeap h; static OrdTreeNode nodes[700]; static double v[700]; static int in[700], count;
static void insert(int k, double x) { v[k] = x; in[k] = 1; count++; create_insert_node(&h, &nodes[k], k, x); }
static void extract(void) {
  int m = extract_min(&h);
  if (!count) { vf_cover("extraction from an empty queue"); vf_true(m == -1, "extracting from an empty queue yields %d", m); return; }
  vf_true(m >= 0 && m < 700 && in[m], "an extraction yields %d, which is not queued", m); if (!(m >= 0 && m < 700 && in[m])) return;
  in[m] = 0; count--; for (int i = 0; i < 700; i++) if (in[i]) vf_le(v[m], v[i], TOL, "the extracted element is not the smallest");
  vf_true(h.num_nodes == count, "%d elements are reported, %d are queued", h.num_nodes, count);
}
static void decrease(int k, const char *nm, double lo) { double x = vf_double(nm, lo, 1.0); vf_assume_le(x, v[k]); v[k] = x; decrease_value(&h, &nodes[k], x); }
/* a heap thinned to the most children per element: all but the largest child subtree of every element are kept, the largest is cut */
static int removed[700], nrem; static double low = -2;
static void lower(OrdTreeNode *x) { v[x->key] = low; decrease_value(&h, x, low); low -= 1; }
static void rem(OrdTreeNode *y) { removed[nrem++] = y->key; OrdTreeNode *c = y->head_child_list; for (int i = 0; i < y->num_children; i++, c = c->right_sibling) rem(c); }
static void prune(OrdTreeNode *x, int root) { OrdTreeNode *ch[32]; int k = x->num_children; if (k > 32) return; OrdTreeNode *c = x->head_child_list; for (int i = 0; i < k; i++, c = c->right_sibling) ch[i] = c;
  int big = -1; if (!root) for (int i = 0; i < k; i++) if (big < 0 || ch[i]->num_children > ch[big]->num_children) big = i;
  for (int i = 0; i < k; i++) if (i == big) { rem(ch[i]); lower(ch[i]); } else prune(ch[i], 0); }
static void thinned(int n) {
  for (int i = 0; i < n; i++) insert(i, i / 512.0);
  extract(); if (!in[1]) return; prune(&nodes[1], 1);
  int k = nrem; for (int i = 0; i < k; i++) lower(&nodes[removed[i]]); for (int i = 0; i < k; i++) extract(); vf_cover("thinned heap");
}
void harness(void) {
  int n = vf_param("n", 4), ops = vf_param("ops", 5), base = vf_param("base", 0), made = 0; char nb[32];
  create_fibonacci_heap(&h);
  for (int i = 0; i < base; i++) { if (vf_param("thin", 0)) { thinned(base); break; } int k = vf_param("desc", 0) ? base - 1 - i : i; insert(k, (k + 1) / 64.0); } made = base;
  for (int i = 0; i < vf_param("ext", 0); i++) extract();
  if (!base) { int first = vf_param("first", 2); for (int i = 0; i < first; i++) { sprintf(nb, "value_%d", made); insert(made, vf_double(nb, 0, 1)); made++; } n = first > n ? first : n; }
  for (int o = 0; o < ops; o++) {
    sprintf(nb, "operation_%d", o); int kinds = 3, op = vf_choose(nb, kinds);
    if (op == 0) { vf_cover("extract"); extract(); }
    else if (op == 1) { if (!count) vf_assume(0); sprintf(nb, "element_%d", o); int k = vf_choose(nb, made); if (!in[k]) vf_assume(0); sprintf(nb, "lowered_%d", o); vf_cover("decrease"); decrease(k, nb, base ? -1 : 0); }
    else { if (made >= n + base) vf_assume(0); sprintf(nb, "value_%d", made); vf_cover("insert"); insert(made, vf_double(nb, base ? -1 : 0, 1)); made++; }
  }
  int left = count; for (int i = 0; i < left; i++) extract();
  extract();
}
