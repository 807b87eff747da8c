"""C28: the instance file reader of the network code."""
import numpy as np
from common import *
REL = GCN + "utils/google_tsp_reader.py"
def perm(vf, n):
    rest, r = list(range(n)), []
    while rest: r.append(rest.pop(vf.choose(len(rest))))
    return r
def harness(vf, w):
    n, L, nb = vf.p("n", 3), vf.p("lines", 1), vf.p("neighbours", -1)
    g = w.load(REL, "google_tsp_reader")
    C = [[[vf.real("x%d_%d" % (l, i), 0, 1), vf.real("y%d_%d" % (l, i), 0, 1)] for i in range(n)] for l in range(L)]
    if nb >= 0:
        for l in range(L):
            for i in range(n):
                for j in range(i): vf.assume(_or(C[l][i][0] - C[l][j][0] >= 0.01, C[l][j][0] - C[l][i][0] >= 0.01))
    T = [perm(vf, n) if l == 0 or vf.p("all_tours") else list(range(n))[::-1] for l in range(L)]
    end = [" \n", "\n", ""][vf.choose(3)]
    text = [" ".join("%s %s" % (x, y) for x, y in C[l]) + " output " + " ".join(str(c + 1) for c in T[l] + T[l][:1]) + end for l in range(L)]
    w.fs.makedirs("data"); w.fs.files[w.fs.norm("data/f.txt")] = "\n".join(t.rstrip("\n") for t in text) + ("\n" if end else "")
    bs = vf.p("batch", 1); r = w.get(g, "GoogleTSPReader")(n, nb, bs, "data/f.txt")
    got = [b for b in r]; rows = []
    vf.check(len(got) == L // bs, "the reader yields every full batch of the file once")
    for b in got:
        for key, shape in (("edges", (bs, n, n)), ("edges_values", (bs, n, n)), ("edges_target", (bs, n, n)), ("nodes", (bs, n)), ("nodes_target", (bs, n)), ("nodes_coord", (bs, n, 2)), ("tour_nodes", (bs, n)), ("tour_len", (bs,))):
            vf.check(tuple(np.shape(b[key])) == shape, "an array of the batch has the wrong shape: " + key)
        for k in range(bs): rows.append({key: b[key][k] for key in ("edges", "edges_values", "edges_target", "nodes", "nodes_target", "nodes_coord", "tour_nodes", "tour_len")})
    rest = list(range(L))
    for e in rows:
        m = [l for l in rest if all(same(vf, e["nodes_coord"][i][k], C[l][i][k]) for i in range(n) for k in (0, 1))]
        vf.check(bool(m), "a batch holds the coordinates of a line of the file, each line once"); l = m[0]; rest.remove(l); c, t = C[l], T[l]
        succ = {t[i]: t[(i + 1) % n] for i in range(n)}; length = 0.0; D = e["edges_values"]
        for i in range(n):
            vf.eq(D[i][i], 0.0, "the distance of a city to itself is 0"); vf.eq(e["nodes"][i], 1, "every city is marked as a city")
            vf.check(e["tour_nodes"][i] == t[i], "the tour is the tour on the line"); vf.check(e["nodes_target"][t[i]] == i, "a city's target is its place in the tour")
            for j in range(n):
                if i == j: continue
                vf.dist(D[i][j], c[i], c[j], "an entry is the Euclidean distance of its cities"); vf.eq(D[i][j], D[j][i], "the distances are symmetric")
                vf.check(e["edges_target"][i][j] == (1 if succ[i] == j or succ[j] == i else 0), "the targets mark exactly the roads of the tour on the line")
            vf.check(e["edges_target"][i][i] == 0, "the targets mark exactly the roads of the tour on the line")
            length = length + D[t[i]][t[(i + 1) % n]]
        vf.eq(e["tour_len"], length, "the length is the length of the closed tour")
        W = e["edges"]
        for i in range(n):
            vf.check(W[i][i] == 2, "a city is marked as connected to itself")
            ones = [j for j in range(n) if j != i and bool(W[i][j] == 1)]; zeros = [j for j in range(n) if j != i and bool(W[i][j] == 0)]
            vf.check(len(ones) + len(zeros) == n - 1, "a road is marked 0 or 1")
            vf.check(len(ones) == (n - 1 if nb < 0 else nb), "a city is connected to the asked number of neighbours")
            for a in ones:
                for b in zeros: vf.check(D[i][a] <= D[i][b], "a city is connected to its nearest neighbours")
    vf.cover("n%d nb%d" % (n, nb))
from common import _or
