from mt import *
import itertools, math
from utils import model_utils as M
for n in (3, 4):
    for trial in range(12):
        P = arr(lambda i: R.uniform(0.05, 0.95), 1, n, n); D = arr(lambda i: 0.0, 1, n, n)
        for i in range(n):
            for j in range(i): D[0, i, j] = D[0, j, i] = R.uniform(0.1, 1)
        Y = TT(arr(lambda i: math.log(P[i[:3]] if i[3] else 1 - P[i[:3]]), 1, n, n, 2)); ts = [(0,) + t for t in itertools.permutations(range(1, n))]
        prob = lambda t: math.prod(P[0, t[k], t[k + 1]] for k in range(n - 1)); length = lambda t: sum(D[0, t[k], t[(k + 1) % n]] for k in range(n))
        for kind in ("raw", "logits"):
            t = tuple(int(x) for x in M.beamsearch_tour_nodes(Y, len(ts), 1, n, T.FloatTensor, T.LongTensor, kind).a[0]); ok(sorted(t) == list(range(n)) and abs(prob(t) - max(map(prob, ts))) < 1e-9, "the most probable tour (%s)" % kind)
            t = tuple(int(x) for x in M.beamsearch_tour_nodes_shortest(Y, TT(D), len(ts), 1, n, T.FloatTensor, T.LongTensor, kind).a[0]); ok(sorted(t) == list(range(n)) and abs(length(t) - min(map(length, ts))) < 1e-9, "the shortest tour (%s)" % kind)
