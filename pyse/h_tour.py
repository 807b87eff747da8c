"""C27: the tour helpers of the network code."""
import numpy as np, z3
from engine import SNum, be
from shims import Tensor
from common import _or
REL = "src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py"
def perm(vf, n):
    rest, r = list(range(n)), []
    while rest: r.append(rest.pop(vf.choose(len(rest))))
    return r
def matrix(vf, w, n, tag):
    W = w.np.zeros((n, n))
    for i in range(n):
        for j in range(i): W[i][j] = W[j][i] = vf.real("%s%d_%d" % (tag, i, j), "0.001", 100)
    return W
def total(W, t): return sum((W[t[i]][t[(i + 1) % len(t)]] for i in range(1, len(t))), W[t[0]][t[1]])
def batches(vf, w, g, n):
    """the means over a batch of predicted tours, as orders of cities and as scored roads"""
    B = vf.p("batch", 2); ts = [perm(vf, n) for _ in range(B)]; Ws = [matrix(vf, w, n, "w%d_" % b) for b in range(B)]
    want = sum((total(W, t) for W, t in zip(Ws[1:], ts[1:])), total(Ws[0], ts[0])) / B
    X = Tensor(np.stack(Ws)); vf.eq(g.mean_tour_len_nodes(X, Tensor(np.array(ts, dtype=object), "l")), want, "the mean length of the tours given by their cities is the mean of their lengths")
    q = np.empty((B, n, n, 2), dtype=object); y = np.empty((B, n, n, 2), dtype=object)
    for b in range(B):
        for i in range(n):
            for j in range(n):
                on = abs(ts[b].index(i) - ts[b].index(j)) in (1, n - 1) and i != j
                s = vf.real("s%d_%d_%d" % (b, i, j), "0.001", 5); y[b, i, j] = (0.0, s) if on else (s, 0.0); q[b, i, j] = (0.25, 0.75) if on else (0.75, 0.25)
    Y = w.logits = Tensor(y); w.softmax = Tensor(q)
    vf.eq(g.mean_tour_len_edges(X, Y), want, "the mean length of the tours given by their roads is the mean of their lengths"); vf.cover("batch")
def neighbours(vf, w, g, n):
    """the largest rank a road of the solution has among the roads of its city"""
    t = perm(vf, n); W = matrix(vf, w, n, "w"); A = g.tour_nodes_to_W(list(t))
    for i in range(n):
        for j in range(n):
            for k in range(j): vf.assume(_or(W[i][j] - W[i][k] >= 0.001, W[i][k] - W[i][j] >= 0.001))
    class D: num_nodes = n
    class Set:
        num_nodes = n
        def __iter__(s): b = D(); b.edges = np.ones((1, n, n)); b.edges_target = np.stack([A]); b.edges_values = np.stack([W]); return iter([b])
    got = g.get_max_k(Set(), 1); ranks = [sum(1 if W[i][k] < W[i][t[(p + d) % n]] else 0 for k in range(n)) for p, i in enumerate(t) for d in (1, -1)]
    vf.check(got == max(ranks), "the neighbourhood needed is the largest rank of a road of the tour"); vf.cover("rank")

def harness(vf, w):
    g = w.load(REL, "graph_utils"); n = vf.p("n", 4)
    if vf.p("mode") == "batches": return batches(vf, w, g, n)
    if vf.p("mode") == "neighbours": return neighbours(vf, w, g, n)
    if vf.p("valid"):
        nodes = [vf.int("v%d" % i, -1, n) for i in range(vf.p("len", n))]
        got = g.is_valid_tour(nodes, n)
        if vf.symbolic:
            e = [x.e for x in nodes]; want = z3.And(*([z3.Distinct(*e) if len(e) > 1 else z3.BoolVal(True)] + [z3.And(x >= 0, x < n) for x in e])) if len(e) == n else z3.BoolVal(False)
            vf.check(_b(be(got) == want), "a list of cities is accepted as a tour exactly when it is a permutation")
        else: vf.check(bool(got) == (sorted(nodes) == list(range(n))), "a list of cities is accepted as a tour exactly when it is a permutation")
        vf.cover("valid" if got else "invalid"); return
    t = perm(vf, n); W = w.np.zeros((n, n))
    for i in range(n):
        for j in range(i): W[i][j] = W[j][i] = vf.real("w%d_%d" % (i, j), 0, 100)
        W[i][i] = vf.real("d%d" % i, 0, 100) if vf.p("diag") else 0.0
    A = g.tour_nodes_to_W(list(t)); roads = {frozenset((t[i], t[(i + 1) % n])) for i in range(n)}
    want = 0.0
    for a, b in (sorted(r) for r in roads): want = want + W[a][b]
    vf.check(np.shape(A) == (n, n), "the tour's matrix has one row and column for each city")
    for i in range(n):
        for j in range(n): vf.check(A[i][j] == (1 if frozenset((i, j)) in roads and i != j else 0), "the tour's matrix marks exactly the tour's roads")
    vf.eq(g.tour_nodes_to_tour_len(list(t), W), want, "the length from the order of the cities is the sum of the tour's roads")
    vf.eq(g.W_to_tour_len(A, W), want, "the length from the tour's matrix is the sum of the tour's roads")
    vf.cover("tour")
class _b:
    def __init__(s, e): s.e = e
from engine import SBool as _b
