from mt import *
import math, json
from config import Settings
from models.gcn_model import ResidualGatedGCNModel
def net(n, h, L, agg, B, sym):
    c = json.load(open(NN + "/configs/default.json")); c.update(num_nodes=n, hidden_dim=h, num_layers=L, mlp_layers=2, aggregation=agg); m = ResidualGatedGCNModel(Settings(c), T.FloatTensor, T.LongTensor)
    X = arr(lambda i: R.random(), B, n, 2); D = arr(lambda i: R.random(), B, n, n); E = arr(lambda i: R.randrange(2) if i[1] != i[2] else 2, B, n, n); Y = arr(lambda i: R.randrange(2), B, n, n)
    if sym:
        for b, i, j in np.ndindex(B, n, n):
            if j < i: D[b, i, j] = D[b, j, i]; E[b, i, j] = E[b, j, i]
    def run(X, D, E, Y): y, l = m.forward(TT(E, "l"), TT(D), TT(arr(lambda i: 1, B, n), "l"), TT(X), TT(Y, "l"), [0.7, 1.6]); return np.array(y.a, dtype=float), float(np.array(l.a).reshape(-1)[0])
    return m, X, D, E, Y, run
