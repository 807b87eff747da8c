from dnet import *
for agg in ("mean", "sum"):
    m, X, D, E, Y, run = net(4, 4, 3, agg, 2, True); y, l = run(X, D, E, Y); ok(np.allclose(y, y.transpose(0, 2, 1, 3)), "both directions of a road")
    p = [2, 0, 3, 1]; q = np.ix_([0, 1], p, p); y2, l2 = run(X[:, p], D[q], E[q], Y[q]); ok(np.allclose(y2, y[q]) and abs(l - l2) < 1e-9, "relabelled cities")
