from mt import *
import math
figs, cur = [], [None]; P = sys.modules["matplotlib.pyplot"]; N = sys.modules["networkx"]; sys.modules["matplotlib"].pyplot = P
class Panel:
    def __init__(s): s.title, s.nodes, s.edges = None, [], []
    def set_title(s, t, *a, **k): s.title = t
class Fig:
    def __init__(s): s.panels = []
    def add_subplot(s, *a, **k): cur[0] = Panel(); s.panels.append(cur[0]); return cur[0]
P.figure = lambda *a, **k: figs.append(Fig()) or figs[-1]; P.show = lambda *a, **k: None; P.cm = ModuleType("cm"); P.cm.Reds = "Reds"
N.from_numpy_matrix = N.from_numpy_array = lambda a, **k: len(a); at = lambda k: k.get("ax") or cur[0]
N.draw_networkx_nodes = lambda G, pos, **k: at(k).nodes.append((pos, k)); N.draw_networkx_edges = lambda G, pos, edgelist=(), **k: at(k).edges.append((pos, list(edgelist), k))
from utils import plot_utils as U
n, B = 4, 2; X = arr(lambda i: R.random(), B, n, 2); D = arr(lambda i: 0.0, B, n, n); E = arr(lambda i: 2 if i[1] == i[2] else R.randrange(2), B, n, n); Y = arr(lambda i: 0, B, n, n); ts = []; Z = arr(lambda i: R.random(), B, n, n); bs = []
for b in range(B):
    t = list(range(n)); R.shuffle(t); ts.append(t); u = list(range(n)); R.shuffle(u); bs.append(u)
    for i in range(n):
        Y[b, t[i], t[(i + 1) % n]] = Y[b, t[(i + 1) % n], t[i]] = 1
        for j in range(i): D[b, i, j] = D[b, j, i] = R.random()
S = arr(lambda i: math.log(Z[i[:3]] if i[3] else 1 - Z[i[:3]]), B, n, n, 2); U.plot_predictions_beamsearch(TT(X), TT(E, "l"), TT(D), TT(Y, "l"), TT(S), TT(np.array(bs, dtype=object), "l"), num_plots=B); ok(len(figs) == B, "figures"); seen = set()
for f in figs:
    pos = f.panels[0].nodes[0][0]; b = [b for b in range(B) if all(abs(pos[i][k] - X[b, i, k]) < 1e-9 for i in range(n) for k in (0, 1))]; ok(len(b) == 1, "places"); b = b[0]; ok(b not in seen, "instances"); seen.add(b)
    for p, t in ((f.panels[0], ts[b]), (f.panels[2], bs[b])):
        r = {(t[k], t[(k + d) % n]) for k in range(n) for d in (1, -1)}; red = [q for _, l, k in p.edges if k.get("edge_color") in ("r", "red") for q in l]; rest = [q for _, l, k in p.edges if k.get("edge_color") not in ("r", "red") for q in l]
        ok(set(red) == r and set(rest) == {(i, j) for i in range(n) for j in range(n) if E[b, i, j] == 1}, "roads"); ok("%.3f" % sum(D[b, t[k], t[(k + 1) % n]] for k in range(n)) in p.title, "length")
    _, l, k = f.panels[1].edges[0]; ok(set(l) == {(i, j) for i in range(n) for j in range(n) if Z[b, i, j] > 0.25}, "probable roads"); ok(all(abs(float(c) - Z[b, i, j]) < 1e-6 for (i, j), c in zip(l, k["edge_color"])) and len(k["edge_color"]) == len(l), "probabilities")
