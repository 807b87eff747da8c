/* Lists against a plain sequence, any history of OPS operations. WHICH 0: generic list, 1: list of search nodes */
#include "nd.h"
#include "data_structures/b_and_b_data.h"
#ifndef OPS
#define OPS 4
#endif
#ifndef START
#define START 2
#endif
#define CAP (OPS + START + 1)
static int ref[CAP + 1], len;
static void ins(int at, int v) { for (int i = CAP - 1; i > 0; i--) if (i > at) ref[i] = ref[i - 1]; ref[at] = v; len++; }
static void del(int at) { for (int i = 0; i < CAP - 1; i++) if (i >= at) ref[i] = ref[i + 1]; len--; }
#if WHICH == 0
static int val[CAP + 2];
static List *L;
#define ID(p) ((int)(((int *)(p)) - val))
static void add(int v) { add_elem_list_bottom(L, &val[v]); }
static void addi(int v, int at) { add_elem_list_index(L, &val[v], at); }
static void deli(int at) { delete_list_elem_index(L, at); }
static int get(int at) { int *p = get_list_elem_index(L, at); return p ? *p : -1; }
typedef DllElem El;
static int elv(El *e) { return *(int *)e->value; }
#else
static SubProblemsList Lo; static SubProblemsList *L = &Lo; static SubProblem sp;
static void add(int v) { sp.id = v; add_elem_SubProblemList_bottom(L, &sp); }
static void addi(int v, int at) { sp.id = v; add_elem_SubProblemList_index(L, &sp, at); }
static void deli(int at) { delete_SubProblemList_elem_index(L, at); }
static int get(int at) { SubProblem *p = get_SubProblemList_elem_index(L, at); return p ? (int)p->id : -1; }
typedef SubProblemElem El;
static int elv(El *e) { return e->subProblem.id; }
#endif
static void verify(void) {
  CHECK(L->size == len, "wrong size");
  El *e = L->head, *prev = 0; int i = 0;
  for (int k = 0; k < CAP; k++) if (k < len) { CHECK(e != 0, "the list ends early"); if (!e) return; CHECK(elv(e) == ref[k], "wrong order"); CHECK(e->prev == prev, "backward link disagrees"); prev = e; e = e->next; }
  CHECK(e == 0, "the list goes on after its last element"); CHECK(L->tail == prev, "wrong tail"); CHECK((len == 0) == (L->head == 0), "wrong head");
}
void harness(void) {
  int fresh = 1;
#if WHICH == 0
  L = new_list(); for (int i = 0; i < CAP + 2; i++) val[i] = i;
  CHECK(is_list_empty(L) && get_list_size(L) == 0, "a new list is not empty");
#else
  new_SubProblemList(L); CHECK(is_SubProblemList_empty(L) && get_SubProblemList_size(L) == 0, "a new list is not empty");
#endif
  for (int k = 0; k < START; k++) { add(fresh); ref[len++] = fresh; fresh++; }
  for (int k = 0; k < OPS; k++) {
    int op = nd(0, WHICH ? 2 : 3), at = nd(0, CAP);
    if (op == 0) { addi(fresh, at); if (at <= len) ins(at, fresh); fresh++; }
    else if (op == 1) { deli(at); if (at < len) del(at); }
    else if (op == 2) { add(fresh); ref[len] = fresh; len++; fresh++; }
#if WHICH == 0
    else { delete_list_elem_bottom(L); if (len) len--; }
#endif
  }
  verify();
#if WHICH == 0
  CHECK(is_list_empty(L) == (len == 0) && get_list_size(L) == len, "emptiness or size is reported wrongly");
  ListIterator *it = create_list_iterator(L);
  for (int k = 0; k < CAP + 1; k++) { CHECK(is_list_iterator_valid(it) == (k < len), "the iterator's validity is wrong"); int *p = list_iterator_get_next(it); CHECK((p != 0) == (k < len), "the iterator visits a wrong number of elements"); if (p && k < len) CHECK(*p == ref[k], "the iterator visits the elements in a wrong order"); }
  delete_list_iterator(it);
#else
  CHECK(is_SubProblemList_empty(L) == (len == 0) && get_SubProblemList_size(L) == len, "emptiness or size is reported wrongly");
  SubProblemsListIterator *it = create_SubProblemList_iterator(L);
  for (int k = 0; k < CAP + 1; k++) { CHECK(is_SubProblemList_iterator_valid(it) == (k < len), "the iterator's validity is wrong"); SubProblem *p = SubProblemList_iterator_get_next(it); CHECK((p != 0) == (k < len), "the iterator visits a wrong number of elements"); if (p && k < len) CHECK((int)p->id == ref[k], "the iterator visits the elements in a wrong order"); }
  delete_SubProblemList_iterator(it);
#endif
  int q = nd(0, CAP); CHECK(get(q) == (q < len ? ref[q] : -1), "an indexed read returns another element"); verify();
  REACHED();
#if WHICH == 0
  del_list(L);
#else
  delete_SubProblemList(L);
#endif
}
