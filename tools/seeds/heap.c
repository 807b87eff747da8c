/* Random queue histories against a plain array. */
#include "data_structures/fibonacci_heap.h"
#include <stdio.h>
#include <stdlib.h>
int main(void) {
    srand(5);
    for (int r = 0; r < 3000; r++) {
        FibonacciHeap h; static OrdTreeNode nd[64]; double v[64]; int in[64] = {0}, n = 0; create_fibonacci_heap(&h);
        int size = 8 + rand() % 40;
        for (int k = 0; k < 300; k++) {
            int left = 0; for (int i = 0; i < n; i++) left += in[i];
            int op = k >= 200 ? 2 : rand() % 3;
            if (op == 0 && n < size) { v[n] = rand() % 1000; create_insert_node(&h, &nd[n], n, v[n]); in[n++] = 1; }
            else if (op == 1 && left) { int i; do i = rand() % n; while (!in[i]); v[i] -= rand() % 500; decrease_value(&h, &nd[i], v[i]); }
            else if (op == 2 && left && (k >= 200 || rand() % 2)) {
                int i = extract_min(&h); double best = 1e9; for (int j = 0; j < n; j++) if (in[j] && v[j] < best) best = v[j];
                if (i < 0 || i >= n || !in[i] || v[i] != best) { fprintf(stderr, "history %d, step %d: element %d extracted, the smallest value is %f\n", r, k, i, best); return 1; }
                in[i] = 0;
            }
        }
        for (int i = 0; i < n; i++) if (in[i] && h.num_nodes == 0) { fprintf(stderr, "history %d: element %d lost\n", r, i); return 1; }
    }
    return 0;
}
