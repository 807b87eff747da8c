/* Lists of many elements against a plain sequence: symbolic operations at symbolic indices. kind 0: generic list, 1: list of search nodes */
#include "common.h"
#include "data_structures/b_and_b_data.h"
#include "data_structures/doubly_linked_list/list_functions.h"
#include "data_structures/doubly_linked_list/list_iterator.h"
#define CAP 700
static int ref[CAP], len, val[CAP], kind; static List *L; static SubProblemsList S; static SubProblem sp; static SubProblem *mk(int v) { sp.id = v; sp.treeLevel = v; return &sp; }
static void bottom(int v) { if (kind) add_elem_SubProblemList_bottom(&S, mk(v)); else add_elem_list_bottom(L, &val[v]); ref[len++] = v; }
static void insert(int v, int at) { if (kind) add_elem_SubProblemList_index(&S, mk(v), at); else add_elem_list_index(L, &val[v], at); if (at > len) return; for (int i = len; i > at; i--) ref[i] = ref[i - 1]; ref[at] = v; len++; }
static void del(int at) { if (kind) delete_SubProblemList_elem_index(&S, at); else delete_list_elem_index(L, at); if (at >= len) return; for (int i = at; i < len - 1; i++) ref[i] = ref[i + 1]; len--; }
static int get(int at) { if (kind) { SubProblem *p = get_SubProblemList_elem_index(&S, at); return p ? (int) p->id : -1; } int *p = get_list_elem_index(L, at); return p ? *p : -1; }
static void verify(void) {
  int sz = kind ? (int) get_SubProblemList_size(&S) : (int) get_list_size(L); vf_true(sz == len, "%d elements instead of %d", sz, len); if (sz != len) return; vf_true((kind ? is_SubProblemList_empty(&S) : is_list_empty(L)) == (len == 0), "emptiness is reported wrongly");
  for (int i = 0; i < len; i += 1 + 36 * (i > 4 && i < len - 5 && i % 37 == 0)) { int x = get(i); vf_true(x == ref[i], "element %d is %d instead of %d", i, x, ref[i]); if (x != ref[i]) return; }
  if (kind) { SubProblemsListIterator *it = create_SubProblemList_iterator(&S); for (int i = 0; i < len; i++) { vf_true(is_SubProblemList_iterator_valid(it), "the iteration ends early"); if (!is_SubProblemList_iterator_valid(it)) return; SubProblem *p = SubProblemList_iterator_get_next(it); vf_true((int) p->id == ref[i] && (int) p->treeLevel == ref[i], "the iteration is in another order"); } vf_true(!is_SubProblemList_iterator_valid(it), "the iteration goes on after the last element"); delete_SubProblemList_iterator(it); }
  else { ListIterator *it = create_list_iterator(L); for (int i = 0; i < len; i++) { vf_true(is_list_iterator_valid(it), "the iteration ends early"); if (!is_list_iterator_valid(it)) return; int *p = list_iterator_get_next(it); vf_true(p && *p == ref[i], "the iteration is in another order"); } vf_true(!is_list_iterator_valid(it), "the iteration goes on after the last element"); delete_list_iterator(it); }
}
void harness(void) {
  int n = vf_param("n", 300), v = 0; kind = vf_param("kind", 0); for (int i = 0; i < CAP; i++) val[i] = i; if (kind) new_SubProblemList(&S); else L = new_list();
  int build = vf_choose("built", 3); for (int i = 0; i < n; i++) { if (build == 0) bottom(v); else if (build == 1) insert(v, 0); else insert(v, v / 2); v++; }
  verify();
  for (int k = 0; k < vf_param("ops", 3); k++) { char nb[32]; sprintf(nb, "operation_%d", k); int op = vf_choose(nb, kind ? 3 : 4); int at = 0; if (op < 2) { int A[10] = {0, 1, 127, 128, 255, 256, len - 1, len, len + 1, len + 65536}; sprintf(nb, "index_%d", k); at = A[vf_choose(nb, 10)]; }
    if (op == 0) { insert(v++, at); vf_cover("insert"); } else if (op == 1) { del(at); vf_cover("delete"); } else if (op == 2) { bottom(v++); vf_cover("append"); } else { delete_list_elem_bottom(L); if (len) len--; vf_cover("delete at the end"); } }
  verify(); int all = vf_choose("emptied", 3); if (all) while (len) { int b = len; del(all == 1 ? 0 : len - 1); if (len == b) break; } verify();
  if (all && !len) { bottom(v++); verify(); } if (kind) delete_SubProblemList(&S); else del_list(L);
}
