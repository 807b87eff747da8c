"""C36: the network is the published one: a checkpoint's parameters, put into the documented formulas."""
import numpy as np
import tens
from tens import TT
from common import GCN
from h_gcn import build

def params(m, pre=""):
    """the parameters of a module under the names a checkpoint has for them"""
    r = {}
    items = enumerate(m) if isinstance(m, list) else vars(m).items()
    for k, v in items:
        if isinstance(v, TT): r[pre + str(k)] = v.a
        elif isinstance(v, tens.Module): r.update(params(v, pre + str(k) + "."))
    return r

def published(c):
    h, L, out = c["hidden_dim"], c["num_layers"], c["voc_edges_out"]
    r = {"nodes_coord_embedding.weight": (h, c["node_dim"]), "edges_values_embedding.weight": (h // 2, 1), "edges_embedding.weight": (c["voc_edges_in"], h // 2)}
    for l in range(L):
        for f in ("node_feat", "edge_feat"):
            for u in "UV": r["gcn_layers.%d.%s.%s.weight" % (l, f, u)] = (h, h); r["gcn_layers.%d.%s.%s.bias" % (l, f, u)] = (h,)
        for b in ("bn_node", "bn_edge"):
            for u in ("weight", "bias"): r["gcn_layers.%d.%s.batch_norm.%s" % (l, b, u)] = (h,)
    for k in range(c["mlp_layers"] - 1): r["mlp_edges.U.%d.weight" % k] = (h, h); r["mlp_edges.U.%d.bias" % k] = (h,)
    r["mlp_edges.V.weight"] = (out, h); r["mlp_edges.V.bias"] = (out,)
    return r

def reference(lib, W, c, X, D, E):
    """the formulas of the paper and of the layers' descriptions, one entry at a time"""
    B, n = X.shape[:2]; h = c["hidden_dim"]; cut = lib.cut if lib.cut_linear else lambda v: v
    def lin(v, name, out):
        w, b = W[name + ".weight"], W.get(name + ".bias"); return [cut(sum((v[k] * w[o, k] for k in range(len(v))), 0.0 if b is None else b[o])) for o in range(out)]
    R = range(n)
    x = [[lin(X[b, i], "nodes_coord_embedding", h) for i in R] for b in range(B)]
    def tag(t):
        one = TT(np.array([t], dtype=object), "l"); m = object.__new__(tens.Embedding); m.lib, m.weight = lib, TT(W["edges_embedding.weight"]); return list(m.forward(one).a[0])
    e = [[[lin([D[b, i, j]], "edges_values_embedding", h // 2) + tag(E[b, i, j]) for j in R] for i in R] for b in range(B)]
    def norm(vals, g, be):      # vals: all values of one channel
        v = [lib.cut(t) for t in vals]; m = sum(v[1:], v[0]) / len(v); q = lib.inv(lib.sqrt(sum(((t - m) * (t - m) for t in v), 0.0) / len(v) + 1e-5))
        return [(t - m) * q * g + be for t in v]
    for l in range(c["num_layers"]):
        p = "gcn_layers.%d." % l; et, xt = [], []
        for b in range(B):
            ue = [[lin(e[b][i][j], p + "edge_feat.U", h) for j in R] for i in R]; vx = [lin(x[b][i], p + "edge_feat.V", h) for i in R]
            t = [[[ue[i][j][k] + vx[i][k] + vx[j][k] for k in range(h)] for j in R] for i in R]; et.append(t)
            g = [[[lib.sigmoid(v) for v in t[i][j]] for j in R] for i in R]
            un = [lin(x[b][i], p + "node_feat.U", h) for i in R]; vn = [lin(x[b][i], p + "node_feat.V", h) for i in R]; row = []
            for i in R:
                r = []
                for k in range(h):
                    s = sum((g[i][j][k] * vn[j][k] for j in R), 0.0)
                    r.append(un[i][k] + (s * lib.inv(sum((g[i][j][k] for j in R), 0.0) + 1e-20) if c["aggregation"] == "mean" else s))
                row.append(r)
            xt.append(row)
        for k in range(h):
            z = norm([et[b][i][j][k] for b in range(B) for i in R for j in R], W[p + "bn_edge.batch_norm.weight"][k], W[p + "bn_edge.batch_norm.bias"][k]); q = 0
            for b in range(B):
                for i in R:
                    for j in R: et[b][i][j][k] = e[b][i][j][k] + lib.relu(z[q]); q += 1
            z = norm([xt[b][i][k] for b in range(B) for i in R], W[p + "bn_node.batch_norm.weight"][k], W[p + "bn_node.batch_norm.bias"][k]); q = 0
            for b in range(B):
                for i in R: xt[b][i][k] = x[b][i][k] + lib.relu(z[q]); q += 1
        x, e = xt, et
    y = np.empty((B, n, n, c["voc_edges_out"]), dtype=object)
    for b in range(B):
        for i in R:
            for j in R:
                v = e[b][i][j]
                for k in range(c["mlp_layers"] - 1): v = [lib.relu(t) for t in lin(v, "mlp_edges.U.%d" % k, h)]
                for k, t in enumerate(lin(v, "mlp_edges.V", c["voc_edges_out"])): y[b, i, j, k] = t
    return y

def node_loss(vf, w):
    """the loss of scores of the cities, and the rate an optimizer goes on with"""
    import itertools
    lib = tens.Lib(vf); n, B = vf.p("n", 3), vf.p("batch", 2)
    for k in ("models", "models.gcn_model"): w.mods.pop(k, None)
    w.mods.update(lib.modules()); w.search = [GCN]; m = w.load(GCN + "utils/model_utils.py", "utils.model_utils")
    S = np.empty((B, n, 2), dtype=object); Y = np.empty((B, n), dtype=object)
    for i in np.ndindex(B, n, 2): S[i] = vf.real("s%d_%d_%d" % i, -2, 2)
    for i in np.ndindex(B, n): Y[i] = vf.choose(2)
    cw = [vf.real("cw%d" % k, 0.5, 2) for k in (0, 1)]; got = w.get(m, "loss_nodes")(TT(S), TT(Y, "l"), TT(np.array(cw, dtype=object))); L = lib.log_softmax_of(S)
    want = lib.nll(TT(np.transpose(L, (0, 2, 1))), TT(Y, "l"), TT(np.array(cw, dtype=object)))
    vf.eq(got.a.reshape(-1)[0], want.a.reshape(-1)[0], "the loss of the cities is the weighted mean of the negative log-likelihoods of their targets")
    class Opt: pass
    o = Opt(); o.param_groups = [{"lr": 0.1, "weight_decay": k} for k in range(3)]; lr = vf.real("lr", 0, 1); r = w.get(m, "update_learning_rate")(o, lr)
    vf.check(r is o and len(o.param_groups) == 3 and all(g["weight_decay"] == k and len(g) == 2 for k, g in enumerate(o.param_groups)), "setting the learning rate changes nothing else")
    for g in o.param_groups: vf.eq(g["lr"], lr, "setting the learning rate sets that of every group of parameters")
    vf.cover("losses")

def harness(vf, w):
    if vf.p("what") == "nodes": return node_loss(vf, w)
    lib, net, c, X, D, E, Y, cw, run = build(vf, w, False)
    W = params(net); P = published(c)
    vf.check(set(W) == set(P), "the network has exactly the parameters of the published checkpoints")
    for k in P: vf.check(tuple(W[k].shape) == P[k], "the parameters have the sizes of the published checkpoints")
    y, loss = run(X, D, E, Y); want = reference(lib, W, c, X, D, E)
    vf.check(y.shape == want.shape, "the network gives scores to every road of every instance")
    for i in np.ndindex(*y.shape): vf.eq(y[i], want[i], "the scores are those of the documented graph convolution")
    S = lib.log_softmax_of(want); num, den = 0.0, 0.0
    r = TT(np.transpose(S, (0, 3, 1, 2))); vf.eq(loss, lib.nll(r, TT(Y, "l"), TT(np.array(cw, dtype=object))).a.reshape(-1)[0], "the loss is the weighted log-likelihood of the targets")
    vf.cover("computed")
