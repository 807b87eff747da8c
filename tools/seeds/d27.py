from pyd import *
import itertools, random
from utils import graph_utils as G
r = random.Random(3)
for n in (3, 4, 5):
    d = np.zeros((n, n))
    for i in range(n):
        for j in range(i): d[i][j] = d[j][i] = r.random()
    for i in range(n): d[i][i] = r.random() / 2
    for t in itertools.permutations(range(n)):
        l = sum(d[t[k]][t[(k + 1) % n]] for k in range(n)); W = G.tour_nodes_to_W(list(t)); roads = {frozenset((t[k], t[(k + 1) % n])) for k in range(n)}
        ok(all((W[i][j] == 1) == (i != j and frozenset((i, j)) in roads) for i in range(n) for j in range(n)), "roads of %s" % (t,))
        ok(near(G.tour_nodes_to_tour_len(list(t), d), l), "length from the order %s" % (t,)); ok(near(G.W_to_tour_len(W, d), l), "length from the matrix %s" % (t,))
    for t in itertools.product(range(-1, n + 1), repeat=n): ok(bool(G.is_valid_tour(list(t), n)) == (sorted(t) == list(range(n))), "validity of %s" % (t,))
    ok(not G.is_valid_tour(list(range(n - 1)), n) and not G.is_valid_tour(list(range(n)) + [0], n), "length of an order")
