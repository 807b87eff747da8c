"""C32: the graph network under relabelling of the cities."""
import numpy as np
import tens
from tens import TT
from common import GCN, _or

def perm(kind, n): return [1, 0] + list(range(2, n)) if kind == "swap" else [(i + 1) % n for i in range(n)]

def build(vf, w, sym):
    """the real network with any weights, and any batch of instances"""
    n, h, B = vf.p("n", 3), vf.p("h", 2), vf.p("batch", 1); lib = tens.Lib(vf); lib.cut_linear = bool(vf.p("cut", 1))
    for k in ("models", "models.gcn_model"): w.mods.pop(k, None)
    w.mods.update(lib.modules()); w.mods["models"] = type(w.mods["torch"])("models"); w.search = [GCN]
    conf = w.load(GCN + "config.py", "config")
    import json, os
    with open(os.path.join(w.repo, GCN, "configs/default.json")) as f: c = json.load(f)
    c.update(num_nodes=n, hidden_dim=h, num_layers=vf.p("layers", 2), mlp_layers=vf.p("mlp", 2), aggregation=vf.p("agg", "mean"))
    m = w.load(GCN + "models/gcn_model.py", "models.gcn_model"); T = lib.torch
    net = w.get(m, "ResidualGatedGCNModel")(conf.Settings(c), T.FloatTensor, T.LongTensor)
    def arr(f, *sh, sym=False):
        a = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh): a[i] = a[i[:-2] + (i[-1], i[-2])] if sym and i[-1] < i[-2] else f("_".join(map(str, i)))
        return a
    X = arr(lambda t: vf.real("x" + t, 0, 1), B, n, 2); D = arr(lambda t: vf.real("d" + t, 0, 2), B, n, n, sym=sym)
    E = arr(lambda t: vf.int("e" + t, 0, 2), B, n, n, sym=sym); Y = arr(lambda t: vf.int("y" + t, 0, 1), B, n, n)
    cw = [vf.real("cw%d" % k, 0.5, 2) for k in (0, 1)]; N = np.empty((B, n), dtype=object); N.fill(1)
    def run(X, D, E, Y): y, loss = net.forward(TT(E, "l"), TT(D), TT(N, "l"), TT(X), TT(Y, "l"), cw); return y.a, loss.a.reshape(-1)[0]
    return lib, net, c, X, D, E, Y, cw, run

def harness(vf, w):
    sym = vf.p("what", "relabel") == "directions"; lib, net, c, X, D, E, Y, cw, run = build(vf, w, sym); B, n = X.shape[:2]
    y, loss = run(X, D, E, Y)
    vf.check(y.shape == (B, n, n, c["voc_edges_out"]), "the network gives scores to every road of every instance")
    if sym:
        for i in np.ndindex(*y.shape):
            if i[1] < i[2]: vf.eq(y[i], y[i[0], i[2], i[1], i[3]], "a road has the same scores in both directions")
        vf.cover("directions"); return
    p = perm(vf.p("perm", "swap"), n); k = vf.p("only", -1)      # only: the one instance of the batch that is relabelled
    def rel(a, axes):
        r = a.copy()
        for b in range(B):
            if k in (-1, b):
                v = a[b]
                for ax in range(axes): v = np.take(v, p, axis=ax)
                r[b] = v
        return r
    y2, loss2 = run(rel(X, 1), rel(D, 2), rel(E, 2), rel(Y, 2)); want = rel(y, 2)
    for i in np.ndindex(*y.shape): vf.eq(y2[i], want[i], "relabelling the cities relabels the scores of the roads")
    vf.eq(loss2, loss, "relabelling the cities does not change the loss")
    vf.cover("relabelled")
