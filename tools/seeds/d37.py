from mt import *
from utils import model_utils as M
for n, B in ((3, 2), (4, 3)):
    for k in range(20):
        Y = arr(lambda i: int(i[1] != i[2] and R.random() < 0.6 or i[1:] == (0, 1)), B, n, n); E = arr(lambda i: 2 if i[1] == i[2] else R.randrange(2), B, n, n); S = arr(lambda i: R.random(), B, n, n, 2); p = (S[..., 1] > S[..., 0]).astype(int)
        if k % 4 == 0: p = Y.astype(int); S = arr(lambda i: float(p[i[:3]] == i[3]), B, n, n, 2)
        y = Y.astype(int); hit = p == y; got = M.edge_error(TT(S), TT(Y, "l"), TT(E, "l")); masks = [E.astype(int), y, ((y + p) > 0).astype(int)]
        acc = [[(hit[b] * m[b]).sum() / m[b].sum() for b in range(B)] for m in masks]
        for a, g in zip(acc, got): ok(abs(float(g) - 100 * (1 - sum(a) / B)) < 1e-6, "errors")
        for a, g in zip(acc[1:], got[3:]): ok([bool(v) for v in g.a.reshape(-1)] == [v < 1 for v in a], "marked instances")
