from pyd import *
import main as nn
def run(n, c, p):
    d = np.array([[dist(a, b) for b in c] for a in c])
    nn.write_adjacency_matrix(None, Tensor(np.array([p], dtype=np.float32)), Tensor(np.array([d], dtype=np.float32)), [x for q in c for x in q], T + "/m.csv", n)
    got, rows = matrix(T + "/m.csv")
    ok(len(got) == n and all(near(g[k], q[k]) for g, q in zip(got, c) for k in (0, 1)), "coordinates")
    ok(len(rows) == n and all(len(r) == n for r in rows), "shape")
    for i in range(n):
        for j in range(n): ok(near(rows[i][j][0], d[i][j]) and near(rows[i][j][1], p[i][j]), "entry %d %d: %s" % (i, j, rows[i][j]))
run(3, [(0.1, 0.2), (0.5, 0.9), (0.7, 0.3)], [[0, 0.5, 0.25], [0.5, 0, 0.125], [0.25, 0.125, 0]])
run(4, [(0.12345, 0.2), (0.5, 0.9111), (0.7, 0.3), (0.70001, 0.3)], [[0, 1.2345e-5, 0.99999, 3e-7], [0.3, 0, 0.125, 2.5e-6], [0.25, 0.125, 0, 4.321e-5], [0.5, 1e-3, 9.87e-6, 0]])
