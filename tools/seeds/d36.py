from dnet import *
sg = lambda v: 1 / (1 + np.exp(-v))
def ref(m, X, D, E, agg):
    A = lambda t: np.array(t.a, dtype=float); lin = lambda v, l: v @ A(l.weight).T + (A(l.bias) if l.bias is not None else 0)
    X, D = X.astype(float), D.astype(float); x = lin(X, m.nodes_coord_embedding); e = np.concatenate([lin(D[..., None], m.edges_values_embedding), A(m.edges_embedding.weight)[E.astype(int)]], axis=3)
    def bn(v, b): ax = tuple(range(v.ndim - 1)); return (v - v.mean(axis=ax)) / np.sqrt(v.var(axis=ax) + 1e-5) * A(b.batch_norm.weight) + A(b.batch_norm.bias)
    for l in m.gcn_layers:
        v = lin(x, l.edge_feat.V); et = lin(e, l.edge_feat.U) + v[:, :, None] + v[:, None]; g = sg(et); s = (g * lin(x, l.node_feat.V)[:, None]).sum(axis=2)
        xt = lin(x, l.node_feat.U) + (s / (1e-20 + g.sum(axis=2)) if agg == "mean" else s); e = e + np.maximum(bn(et, l.bn_edge), 0); x = x + np.maximum(bn(xt, l.bn_node), 0)
    for u in m.mlp_edges.U: e = np.maximum(lin(e, u), 0)
    return lin(e, m.mlp_edges.V)
for agg in ("mean", "sum"):
    m, X, D, E, Y, run = net(4, 4, 2, agg, 2, False); y, l = run(X, D, E, Y); r = ref(m, X, D, E, agg); ok(np.allclose(y, r, atol=1e-6), "scores (%s)" % agg)
    s = r - np.log(np.exp(r).sum(axis=3, keepdims=True)); w = np.array([0.7, 1.6])[Y.astype(int)]; ok(abs(l + (np.take_along_axis(s, Y.astype(int)[..., None], 3)[..., 0] * w).sum() / w.sum()) < 1e-6, "loss")
