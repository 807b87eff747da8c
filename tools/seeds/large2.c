/* Large containers. argv[2]: merge, list, nodes, heap */
#include <unistd.h>
#include "algorithms/branch_and_bound.h"
#include "data_structures/fibonacci_heap.h"
#include "data_structures/mfset.h"
#define N 300
static int fail(const char *m) { fprintf(stderr, "%s\n", m); return 1; }
int main(int argc, char **argv) {
  alarm(60); const char *m = argv[2]; srand(7);
  if (!strcmp(m, "merge")) { static Forest f; static Node nd[N]; for (int i = 0; i < N; i++) nd[i].positionInGraph = i; create_forest(&f, nd, N);
    for (int i = N - 1; i > 0; i--) merge(&f.sets[i], &f.sets[(i * 7) % i]);
    for (int i = 0; i < 44; i++) merge(&f.sets[i], &f.sets[i + 256]);
    for (int i = 0; i < N; i++) if (find(&f.sets[i]) != find(&f.sets[0])) return fail("apart after merging everything");
    create_forest(&f, nd, N); for (int i = 0; i + 256 < N; i++) { merge(&f.sets[i], &f.sets[i + 256]); if (find(&f.sets[i]) != find(&f.sets[i + 256])) return fail("merged but apart"); } }
  if (!strcmp(m, "list")) { static int v[N]; List *l = new_list(); for (int i = 0; i < N; i++) { v[i] = i; add_elem_list_bottom(l, &v[i]); if (get_list_size(l) != i + 1) return fail("size"); }
    for (int i = 0; i < N; i++) if (get_list_elem_index(l, i) != &v[i]) return fail("element");
    int x = -1; add_elem_list_index(l, &x, 280); if (get_list_elem_index(l, 280) != &x || get_list_size(l) != N + 1) return fail("insertion"); delete_list_elem_index(l, 280);
    for (int i = N - 1; i >= 0; i--) { delete_list_elem_index(l, i); if (get_list_size(l) != i) return fail("deletion"); } }
  if (!strcmp(m, "nodes")) { static SubProblem s; SubProblemsList l; new_SubProblemList(&l); for (int i = 0; i < N; i++) { s.id = i; add_elem_SubProblemList_bottom(&l, &s); if (get_SubProblemList_size(&l) != i + 1) return fail("size"); }
    for (int i = 0; i < N; i++) if (get_SubProblemList_elem_index(&l, i)->id != i) return fail("element");
    s.id = 9999; add_elem_SubProblemList_index(&l, &s, 290); if (get_SubProblemList_elem_index(&l, 290)->id != 9999) return fail("insertion"); delete_SubProblemList_elem_index(&l, 290);
    for (int i = N - 1; i >= 0; i--) { delete_SubProblemList_elem_index(&l, i); if (get_SubProblemList_size(&l) != i) return fail("deletion"); } }
  if (!strcmp(m, "heap")) { static OrdTreeNode n[N]; static double v[N]; static char out[N]; FibonacciHeap h; create_fibonacci_heap(&h); for (int i = 0; i < N; i++) { v[i] = rand() % 5000 / 8.0; create_insert_node(&h, &n[i], i, v[i]); }
    double last = -1; for (int i = 0; i < N; i++) { int k = extract_min(&h); if (k < 0 || k >= N || out[k]) return fail("not an element of the queue"); if (v[k] < last) return fail("not the least"); out[k] = 1; last = v[k]; } if (extract_min(&h) != -1) return fail("not empty"); }
  return 0; }
