"""C23, C24, C30: from an instance line through the network front end (graph-convnet-tsp/main.py) to the matrix file."""
import json, numpy as np
from common import *
from shims import Tensor

def setup(vf, w, n, m, text):
    """the working directory of graph-convnet-tsp with one prepared instance file"""
    w.fs.cwd = "/work/main/graph-convnet-tsp"
    for d in ("data/hyb_tsp", "logs/tsp%d" % m, "/work/data/out"): w.fs.makedirs(d, exist_ok=True)
    w.fs.files[w.fs.norm("data/hyb_tsp/test_%d_nodes_temp.txt" % n)] = text
    with open(os.path.join(w.repo, GCN, "configs/default.json")) as f: base = json.load(f)
    w.fs.makedirs("configs", exist_ok=True); w.fs.files[w.fs.norm("configs/default.json")] = json.dumps(base)
    nb = vf.p("neighbours", -1)
    w.fs.files[w.fs.norm("logs/tsp%d/config.json" % m)] = json.dumps(dict(base, expt_name="tsp%d" % m, num_nodes=m, num_neighbors=nb))
    w.search = [GCN]

def network(vf, w, m, seen, tag="p"):
    """a network that answers any probabilities, different for every input"""
    def f(coords, dists, edges):
        if tuple(coords.shape) != (1, m, 2) or tuple(dists.shape) != (1, m, m): raise ValueError("the network is given arrays of the wrong shape")
        seen.append((coords, dists)); k = len(seen) - 1
        p = np.empty((1, m, m), dtype=object)
        for i in range(m):
            for j in range(m): p[0, i, j] = vf.real("%s%d_%d_%d" % (tag, k, i, j), 0, 1) if vf.p("probs", "any") == "any" else ((i * 37 + j * 61 + k * 11) % 97) / 97.0
        w.probs = p
        return p
    w.network = f

def harness(vf, w):
    n, m = vf.p("n", 3), vf.p("m", 3); mode = vf.p("mode", "file")
    if mode == "choice": return other_lines(vf, w, n)
    C = cities(vf, n, vf.p("cities", "apart"))
    setup(vf, w, n, m, line(C, output(n)))
    if mode == "direct": return direct(vf, w, C, n, m)
    mod = w.load(GCN + "main.py", "main"); seen = []; network(vf, w, m, seen)
    med = []
    def medoids(count, k):
        rest, r = list(range(count)), []
        if k > count: raise G.Unsupported("more clusters than cities")
        while len(r) < k: r.append(rest.pop(vf.choose(len(rest))))
        med[:] = r; return r
    w.medoids = medoids
    fis = getattr(mod, "fix_instance_size", None)
    if m < n and fis is not None: fis.__defaults__ = tuple(m if d == 100 else d for d in fis.__defaults__ or ())
    vf.assume_draws = 0
    out = "/work/data/out/tsp_test_1.csv"
    limit_draws(vf, w)
    w.get(mod, "main")(out, n, m)
    vf.check(len(seen) == 1, "the network is run once on the instance")
    vf.check(len(w.loaded) == 1 and w.fs.norm(str(w.loaded[0])).startswith("/work/main/graph-convnet-tsp/logs/tsp%d/" % m) and "val" in str(w.loaded[0]), "the network has the weights that were best in the training for its size")
    vf.check(all(c["num_nodes"] == m for c in w.built) and w.built, "the network is built for its size")
    X, D = seen[0]; X, D = X[0], D[0]
    # what the network was asked about: the instance itself, the instance with added copies, or its medoids
    base = C if n <= m else [C[i] for i in med]
    for i in range(min(n, m)):
        for k in (0, 1): vf.eq(X[i][k], base[i][k], "the network is asked about the cities of the instance, in order")
    for i in range(n, m):
        for k in (0, 1): vf.eq(X[i][k], C[(i - n) % n][k], "an added city is a copy of a city of the instance, taken in turn")
    for i in range(m):
        for j in range(i): vf.dist(D[i][j], X[i], X[j], "the network is given the distances of its cities"); vf.eq(D[i][j], D[j][i], "the network is given symmetric distances")
    text = w.fs.files[out]; P = w.probs[0]
    if n <= m:
        def prob(i, k):
            r = P[i][k]
            for j in range(n, m):
                if (j - n) % n == k: r = big(r, P[i][j])
            return r
        check_matrix(vf, w, text, C, prob); vf.cover("same size" if n == m else "padded")
    else:
        pos = {}
        def prob(i, j):
            a, b = order[i], order[j]
            return P[med.index(a)][med.index(b)] if a in med and b in med else 0.0
        got, rows = parse_csv(w, text)
        if rows is None: vf.check(False, "the solver's reader refuses the file: " + got); return
        order = []
        for g in got:
            k = [i for i in range(n) if same(vf, g[0], C[i][0]) and same(vf, g[1], C[i][1]) and i not in order]
            if not k: vf.check(False, "every city of the instance is in the file once"); return
            order.append(k[0])
        vf.check(len(order) == n, "every city of the instance is in the file once")
        check_matrix(vf, w, text, C, prob, order=False); vf.cover("clustered")

def limit_draws(vf, w):
    """the added cities are drawn again until they differ; histories with more than 3 draws for one city are outside the bounds"""
    r = w.np.random; old = r.randint; cnt = [0]; lim = vf.p("draws", 6)
    def randint(*a, **k):
        cnt[0] += 1
        if cnt[0] > lim: raise G.Infeasible()
        return old(*a, **k)
    r.randint = randint

def direct(vf, w, C, n, m):
    """write_adjacency_matrix on any distances and probabilities of the network"""
    mod = w.load(GCN + "main.py", "main")
    P = np.empty((1, m, m), dtype=object); D = np.empty((1, m, m), dtype=object)
    for i in range(m):
        for j in range(m): P[0, i, j] = vf.real("p%d_%d" % (i, j), 0, 1); D[0, i, j] = 0.0 if i == j else vf.real("d%d_%d" % (min(i, j), max(i, j)), 0.001, 2)
    X = C + [[vf.real("ax%d" % i, 0, 1), vf.real("ay%d" % i, 0, 1)] for i in range(n, m)]
    out = "/work/data/out/t.csv"
    w.get(mod, "write_adjacency_matrix")(None, Tensor(P.copy()), Tensor(D.copy()), [v for c in X for v in c], out, n)
    got, rows = parse_csv(w, w.fs.files[out])
    if rows is None: vf.check(False, "the solver's reader refuses the file: " + got); return
    def prob(i, k):
        r = P[0][i][k]
        for j in range(n, m):
            if (j - n) % n == k: r = big(r, P[0][i][j])
        return r
    check_matrix(vf, w, w.fs.files[out], C, prob, dist=False)
    for i in range(n):
        for j in range(n):
            if i != j: vf.eq(rows[i][j][0], D[0][i][j], "an entry keeps the distance of its cities")
    vf.cover("direct")

def other_lines(vf, w, n):
    """C30: a file whose first line is the instance, followed by other instances, read in any order"""
    k = vf.p("lines", 2)
    all_c = [[[vf.real("x%d_%d" % (l, i), 0, 1), vf.real("y%d_%d" % (l, i), 0, 1)] for i in range(n)] for l in range(k)]
    setup(vf, w, n, n, "".join(line(c, output(n)) for c in all_c))
    mod = w.load(GCN + "main.py", "main"); seen = []; network(vf, w, n, seen)
    g = w.get(mod, "get_config")("logs/tsp%d/config.json" % n)
    g.test_filepath = "data/hyb_tsp/test_%d_nodes_temp.txt" % n; g.batch_size = 1
    T = w.mods["torch"]; net = w.mods["models.gcn_model"].ResidualGatedGCNModel(g, T.FloatTensor, T.LongTensor)
    y, d, coords = w.get(mod, "compute_prob")(net, g, T.LongTensor, T.FloatTensor)
    C = all_c[0]
    vf.check(len(seen) >= 1, "the network is run")
    vf.check(len(coords) == 2 * n, "the coordinates returned are those of one instance")
    X = seen[-1][0][0]
    for i in range(n):
        for t in (0, 1): vf.eq(coords[2 * i + t], C[i][t], "the coordinates returned are those of the instance asked for"); vf.eq(X[i][t], C[i][t], "the network's last answer is about the instance asked for")
    P, Dm = np.asarray(y.a), np.asarray(d.a); vf.check(P.shape == (1, n, n) and Dm.shape == (1, n, n), "one probability and one distance for every road")
    for i in range(n):
        for j in range(n):
            vf.eq(P[0][i][j], w.probs[0][i][j], "the probabilities are those the network computed for the instance")
            if i != j: vf.dist(Dm[0][i][j], C[i], C[j], "the distances are those of the instance")
    vf.cover("lines %d" % k)
