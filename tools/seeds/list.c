/* Random histories of a list against an array. */
#include "data_structures/doubly_linked_list/list_functions.h"
#include <stdio.h>
int main(void) {
    static int el[64]; srand(3);
    for (int r = 0; r < 20000; r++) {
        List *l = new_list(); int *a[64], n = 0;
        for (int k = 0; k < 12; k++) {
            int op = rand() % 4, i = rand() % (n + 2); int *e = &el[rand() % 64];
            if (op == 0) { add_elem_list_bottom(l, e); a[n++] = e; }
            else if (op == 1) { add_elem_list_index(l, e, i); if (i <= n) { for (int j = n; j > i; j--) a[j] = a[j - 1]; a[i] = e; n++; } }
            else if (op == 2) { delete_list_elem_index(l, i); if (i < n) { for (int j = i; j + 1 < n; j++) a[j] = a[j + 1]; n--; } }
            else { delete_list_elem_bottom(l); if (n) n--; }
            int bad = l->size != n || is_list_empty(l) != (n == 0) || (n == 0 && l->tail != NULL);
            DllElem *d = l->head; for (int j = 0; j < n && !bad; j++) { bad |= !d || d->value != a[j]; if (d) d = d->next; }
            if (bad) { fprintf(stderr, "history %d: wrong after operation %d\n", r, k); return 1; }
        }
    }
    return 0;
}
