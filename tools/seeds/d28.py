from pyd import *
import random, itertools
from utils.google_tsp_reader import GoogleTSPReader
r = random.Random(4)
def run(n, k, tours, bs, end="\n"):
    C = [[(r.random(), r.random()) for _ in range(n)] for _ in tours]
    open(T + "/d.txt", "w").write("".join(" ".join("%s %s" % q for q in c) + " output " + " ".join(str(x + 1) for x in list(t) + [t[0]]) + end for c, t in zip(C, tours)))
    seen = 0
    for b in GoogleTSPReader(n, k, bs, T + "/d.txt"):
        for z in range(bs):
            c, t = C[seen], tours[seen]; seen += 1; roads = {frozenset((t[i], t[(i + 1) % n])) for i in range(n)}
            ok(all(near(b.nodes_coord[z][i][x], c[i][x]) for i in range(n) for x in (0, 1)), "coordinates")
            ok(list(b.tour_nodes[z]) == list(t), "tour"); ok(near(b.tour_len[z], sum(dist(c[t[i]], c[t[(i + 1) % n]]) for i in range(n))), "length")
            for i in range(n):
                ok(b.nodes_target[z][t[i]] == i, "place of city %d in %s: %s" % (t[i], t, b.nodes_target[z]))
                near_i = set(sorted(range(n), key=lambda j: dist(c[i], c[j]))[:k + 1]) if k != -1 else set(range(n))
                for j in range(n):
                    ok(near(b.edges_values[z][i][j], dist(c[i], c[j])), "distance"); ok((b.edges_target[z][i][j] == 1) == (frozenset((i, j)) in roads), "target %d %d of %s" % (i, j, t))
                    ok(b.edges[z][i][j] == (2 if i == j else 1 if j in near_i else 0), "neighbours of %d" % i)
    ok(seen == len(tours) // bs * bs, "number of instances")
for n in (3, 4, 5):
    P = list(itertools.permutations(range(n)))
    run(n, -1, P, 1); run(n, -1, P, 2); run(n, 1, P[:5], 1); run(n, 2, P[-4:], 2)
run(7, 3, [r.sample(range(7), 7) for _ in range(6)], 3)
