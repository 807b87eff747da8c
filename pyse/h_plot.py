"""C39: the figures of instances, predictions and tours."""
import re, numpy as np
from engine import SNum
from base import Stub
from shims import Tensor, scores
from common import GCN, fl
from h_tour import perm, total
from common import _or

def harness(vf, w):
    n, B, k, bs = vf.p("n", 3), vf.p("batch", 2), vf.p("plots", 2), vf.p("beam", 1)
    figs, shown, cur = [], [0], [None]
    class Panel:
        def __init__(s, where): s.where, s.title, s.nodes, s.edges = where, None, [], []
        def set_title(s, t, *a, **q): s.title = t
    class Figure:
        def __init__(s, num): s.num, s.panels = num, []
        def add_subplot(s, *a, **q):
            v = [int(c) for c in str(a[0])] if len(a) == 1 else list(a)
            if len(v) != 3 or not 1 <= v[2] <= v[0] * v[1]: raise ValueError("num must be an integer with 1 <= num <= the number of panels")
            p = Panel(a); s.panels.append(p); cur[0] = p; return p
    plt = Stub("matplotlib.pyplot"); cm = plt.cm = Stub("cm"); cm.Reds = "Reds"
    def figure(num=None, *a, **q):
        f = next((f for f in figs if num is not None and f.num == num), None)
        if f is None: f = Figure(num); figs.append(f)
        return f
    def show(*a, **q): shown[0] = len(figs)
    plt.figure, plt.show = figure, show; w.mods["matplotlib.pyplot"] = plt; w.mods["matplotlib"].pyplot = plt
    nx = Stub("networkx"); nx.from_numpy_matrix = nx.from_numpy_array = lambda a, *r, **q: len(a)
    at = lambda q: q.get("ax") or cur[0]
    def places(G, pos):
        if not isinstance(G, int) or not isinstance(pos, dict): raise KeyError('a city without a place')
    def nodes(G, pos, **q): places(G, pos); at(q).nodes.append((G, pos, q))
    def edges(G, pos, edgelist=None, **q): places(G, pos); at(q).edges.append((pos, edgelist, q))
    nx.draw_networkx_nodes, nx.draw_networkx_edges = nodes, edges; w.mods["networkx"] = nx
    w.mods.pop("utils.plot_utils", None); w.search = [GCN]; m = w.load(GCN + "utils/plot_utils.py", "utils.plot_utils")
    X = np.empty((B, n, 2), dtype=object); D = np.empty((B, n, n), dtype=object); E = np.ones((B, n, n), dtype=object); T = np.zeros((B, n, n), dtype=object); P = np.empty((B, n, n, 2), dtype=object); c = 0; ts, bts = [], []
    for b in range(B):
        t = perm(vf, n) if b < vf.p("tours", 1) else [(i + b) % n for i in range(n)][::-1]; u = perm(vf, n) if bs and b >= B - vf.p("tours", 1) else [(2 * i + b) % n if n % 2 else (i + b) % n for i in range(n)]; ts.append(t); bts.append(u)
        for i in range(n):
            for d in (0, 1): X[b, i, d] = vf.real("x%d_%d_%d" % (b, i, d), 0, 1)
            T[b, t[i], t[(i + 1) % n]] = T[b, t[(i + 1) % n], t[i]] = 1
            for j in range(n):
                D[b, i, j] = 0.0 if i == j else D[b, j, i] if j < i else vf.real("d%d_%d_%d" % (b, i, j), "0.001", 2)
                E[b, i, j] = 2 if i == j else 1 - (vf.choose(2) if c < vf.p("sparse", 2) else int((i + j + b) % 4 == 1)); c += i != j
                p = vf.real("p%d_%d_%d" % (b, i, j), 0, 1) if b == 0 and i * n + j < vf.p("free", 4) else ((i * 5 + j * 3 + b) % 7) / 7.0
                vf.assume(_or(p >= 0.251, p <= 0.249)); P[b, i, j] = (1 - p, p)
    scores(w, P)
    a = [Tensor(X), Tensor(E, "l"), Tensor(D), Tensor(T, "l"), w.logits] + ([Tensor(np.array(bts, dtype=object), "l")] if bs else [])
    plot = w.get(m, "plot_predictions_beamsearch" if bs else "plot_predictions"); err = vf.fails(lambda: plot(*a, **({"num_plots": k} if k != 3 else {}))); vf.check(err is None, "predictions can be plotted (%s)" % err)
    vf.check(len(figs) == k and shown[0] == k, "as many figures are shown as were asked for"); left = list(range(B))
    pairs = lambda l: sorted((int(x), int(y)) for x, y in l)
    def on(M): return sorted((i, j) for i in range(n) for j in range(n) if M[i][j] == 1)
    for f in figs:
        vf.check(len(f.panels) == 2 + bs and len({p.where for p in f.panels}) == 2 + bs, "a figure has a panel for the optimal tour, the prediction" + (" and the predicted tour" if bs else ""))
        pos = [dict(q[1]) for p in f.panels for q in p.nodes] + [dict(q[0]) for p in f.panels for q in p.edges]; vf.check(all(len(p.nodes) == 1 and p.edges for p in f.panels), "every panel shows the cities and their roads")
        vf.check(all(sorted(q) == list(range(n)) for q in pos), "every city has its place")
        b = next((b for b in left if all(is_(q[i][d], X[b, i, d]) for q in pos for i in range(n) for d in (0, 1))), None); vf.check(b is not None, "a figure shows the cities of one instance where they are, and no instance twice"); left.remove(b)
        for p in f.panels:
            G, _, q = p.nodes[0]; col = list(q["node_color"]); vf.check(G == n and len(col) == n and col[0] not in col[1:] and len(set(col[1:])) == 1, "the first city is told from the others")
        for p, M, t in [(f.panels[0], T[b], ts[b])] + ([(f.panels[2], None, bts[b])] if bs else []):
            M = on(M) if M is not None else sorted({(t[i], t[(i + d) % n]) for i in range(n) for d in (1, -1)})
            red = [x for _, l, q in p.edges if q.get("edge_color") in ("r", "red") for x in l]; rest = [x for _, l, q in p.edges if q.get("edge_color") not in ("r", "red") for x in l]
            vf.check(pairs(red) == M, "the roads of a tour are drawn in red"); vf.check(pairs(rest) == on(E[b]), "the other roads drawn are those the network was given")
            v = re.findall(r"[\d.\ue000-\uf8ff\U000f0000-\U0010ffff]+", p.title or ""); vf.check(len(v) == 1, "a tour is shown with its length")
            vf.check(near(fl(w, v[0]), total(D[b], t)), "a tour is shown with its length")
        heat = f.panels[1].edges; vf.check(len(heat) == 1, "the prediction is drawn once"); _, l, q = heat[0]
        want = sorted((i, j) for i in range(n) for j in range(n) if P[b, i, j, 1] > 0.25); vf.check(pairs(l) == want, "the prediction shows the roads with a probability above a quarter")
        for (i, j), v in zip(l, q["edge_color"]): vf.eq(v, P[b, i, j, 1], "a road is coloured by its own probability")
        vf.check(len(q["edge_color"]) == len(l), "a road is coloured by its own probability")
    vf.cover("plotted")

def near(a, b): return (a - b <= 0.00051) & (b - a <= 0.00051)
def is_(a, b): return (a.e.eq(b.e) if isinstance(a, SNum) and isinstance(b, SNum) else False) if isinstance(a, SNum) or isinstance(b, SNum) else abs(a - b) < 1e-6
