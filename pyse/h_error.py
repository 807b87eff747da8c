"""C37: the error metrics of the network's predictions."""
import numpy as np
from shims import Tensor, scores
from common import GCN

def harness(vf, w):
    n, B = vf.p("n", 3), vf.p("batch", 1); w.search = [GCN]; m = w.load(GCN + "utils/model_utils.py", "utils.model_utils")
    E = np.empty((B, n, n), dtype=object); Y = np.empty_like(E); free = vf.p("free", 9)
    probs = np.empty((B, n, n, 2), dtype=object); hit = np.empty_like(E); k = 0
    for b, i, j in np.ndindex(B, n, n):
        k += 1; up = k <= free
        E[b, i, j] = (2 if i == j else vf.choose(2) if up and vf.p("sparse") else 1); Y[b, i, j] = 1 if (i - j) % n in (1, n - 1) and (vf.p("allroads") or i + j != 1 + 2 * b) else 0
        p = vf.real("p%d_%d_%d" % (b, i, j), 0, 1) if up else 0.75 if (i * 5 + j * 3 + b) % 4 else 0.25
        if up: vf.assume(_ne(p))
        probs[b, i, j] = (1 - p, p)
    scores(w, probs)
    for b, i, j in np.ndindex(B, n, n): hit[b, i, j] = int((1 if probs[b, i, j, 1] > probs[b, i, j, 0] else 0) == Y[b, i, j])
    got = w.get(m, "edge_error")(w.logits, Tensor(Y, "l"), Tensor(E, "l"))
    vf.check(len(got) == 5, "three errors and two lists of instances")
    def want(mask):
        a = []
        for b in range(B):
            s = sum(mask(b, i, j) for i in range(n) for j in range(n)); a.append(sum(mask(b, i, j) * hit[b, i, j] for i in range(n) for j in range(n)) / s)
        return 100 * (1 - sum(a) / B), [x < 1 for x in a]
    pred = lambda b, i, j: hit[b, i, j] if Y[b, i, j] else 1 - hit[b, i, j]
    e, _ = want(lambda b, i, j: E[b, i, j]); t, ti = want(lambda b, i, j: Y[b, i, j]); s, si = want(lambda b, i, j: 1 if Y[b, i, j] or pred(b, i, j) else 0)
    vf.eq(got[0], e, "the error over the roads of the graph is the share predicted wrong"); vf.eq(got[1], t, "the error over the roads of the tour is the share predicted wrong")
    vf.eq(got[2], s, "the error over the roads of the tour or predicted is the share predicted wrong")
    vf.check([bool(x) for x in got[3].a.reshape(-1)] == ti, "the instances whose tour is not predicted entirely are marked"); vf.check([bool(x) for x in got[4].a.reshape(-1)] == si, "the instances with a wrong road are marked")
    vf.cover("errors")

def _ne(p):
    a, b = p <= 0.49, p >= 0.51
    return a | b if not isinstance(a, bool) else a or b
