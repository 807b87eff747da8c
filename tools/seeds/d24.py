from pyd import *
import main as nn, random
os.chdir(T); os.makedirs("data/hyb_tsp")
def grow(n, m):
    r = random.Random(n); c = [(round(r.uniform(0.1, 1), 3), round(r.uniform(0.1, 1), 3)) for _ in range(n)]
    f = "data/hyb_tsp/test_%d_nodes_temp.txt" % n
    open(f, "w").write(" ".join("%s %s" % q for q in c) + " output " + " ".join(map(str, range(1, n + 1))) + " 1\n")
    nn.add_dummy_cities(n, m); t = open(f).read().split(" output")[0].split(" "); g = [(float(t[i]), float(t[i + 1])) for i in range(0, len(t), 2)]
    ok(len(g) == m and all(dist(a, b) < 1e-9 for a, b in zip(g, c)), "the cities stay")
    return c, g, r
for n, m in ((3, 5), (5, 20), (7, 20), (19, 20)):
    c, g, r = grow(n, m); near_c = [min(range(n), key=lambda k: dist(q, c[k])) for q in g]
    p = [[0 if i == j else round(r.random(), 6) for j in range(m)] for i in range(m)]; d = np.array([[dist(a, b) for b in g] for a in g])
    nn.write_adjacency_matrix(None, Tensor(np.array([p])), Tensor(np.array([d])), [x for q in g for x in q], T + "/m.csv", n); got, rows = matrix(T + "/m.csv")
    ok(len(got) == n and len(rows) == n and all(len(x) == n for x in rows), "shape")
    for i in range(n):
        for j in range(n):
            ok(near(rows[i][j][0], dist(c[i], c[j])), "distance")
            if i != j: ok(near(rows[i][j][1], max(p[i][k] for k in range(m) if near_c[k] == j)), "probability of %d-%d with %d cities for a network of %d" % (i, j, n, m))
def shrink(n, m, keep):
    r = random.Random(n); c = [[round(r.uniform(0.1, 1), 3), round(r.uniform(0.1, 1), 3)] for _ in range(n)]; k = [c[i] for i in keep]
    p = [[0 if i == j else round(r.random(), 6) for j in range(m)] for i in range(m)]; d = np.array([[dist(a, b) for b in k] for a in k])
    nn.write_adjacency_matrix(c, Tensor(np.array([p])), Tensor(np.array([d])), [x for q in k for x in q], T + "/m.csv", n, [0] * n); got, rows = matrix(T + "/m.csv")
    ok(len(got) == n and sorted(got) == sorted(map(tuple, c)), "all cities")
    for i in range(n):
        for j in range(n):
            ok(near(rows[i][j][0], dist(got[i], got[j])), "distance of two cities")
            if i < m and j < m: ok(near(rows[i][j][1], p[i][j]), "probability")
shrink(4, 3, [0, 1, 2]); shrink(5, 3, [0, 1, 2]); shrink(5, 3, [4, 0, 2]); shrink(6, 4, [1, 2, 5, 3])
