"""C38: the tools around the training data: generating instances, splitting them, and solving them with the reference solver."""
import numpy as np, re
import engine as G
from engine import SNum
from base import Stub
from common import *
from h_tour import perm
D = GCN + "data/"
def harness(vf, w):
    w.fs.cwd = "/work/data"; w.fs.makedirs("/work/data"); {"generate": generate, "split": split, "solve": solve}[vf.p("mode", "generate")](vf, w)

def generate(vf, w):
    n, S = vf.p("n", 4), vf.p("samples", 2); tours, asked = [], []
    class Solver:
        @staticmethod
        def from_data(xs, ys, norm=None, name=None): s = Solver(); asked.append((list(xs), list(ys))); return s
        def solve(s, *a, **k):
            t = perm(vf, n) if len(tours) < vf.p("freetours", 1) else [(i + len(tours)) % n for i in range(n)][::-1]
            tours.append(t); r = Stub("solution"); r.tour = np.array(t); r.optimal_value = 1.0; r.found_tour = r.success = True; return r
    c = Stub("concorde"); t = c.tsp = Stub("concorde.tsp"); t.TSPSolver = Solver; w.mods.update({"concorde": c, "concorde.tsp": t})
    err = vf.fails(w.main, D + "generate_tsp_concorde.py", ["--num_samples", str(S), "--num_nodes", str(n)] + (["--filename", "own.txt"] if vf.p("named") else []))
    vf.check(err is None, "instances can be generated (%s)" % err)
    f = "own.txt" if vf.p("named") else "tsp%d_concorde.txt" % n; text = w.fs.files.get(w.fs.norm(f)); vf.check(text is not None, "the instances are written to the file of their size, or the one asked for")
    lines = text.split("\n"); vf.check(lines[-1] == "" and len(lines) == S + 1, "every instance has its own line"); vf.check(len(asked) == S == len(tours), "every instance is solved once")
    seen = []
    for l, (xs, ys), t in zip(lines, asked, tours):
        head, _, tail = l.partition(" output "); v = [fl(w, x) for x in head.split(" ")]; vf.check(len(v) == 2 * n and len(xs) == len(ys) == n, "a line has the coordinates of all cities")
        for i in range(n): vf.eq(v[2 * i], xs[i], "the tour of a line is the one found for its cities", 1e-12); vf.eq(v[2 * i + 1], ys[i], "the tour of a line is the one found for its cities", 1e-12)
        vf.check([int(x) for x in tail.split()] == [i + 1 for i in t + t[:1]], "the tour of a line is the one found for its cities, numbered from 1 and closed"); seen.append(v)
    if vf.symbolic: vf.check(len({str(x.e) for v in seen for x in v if isinstance(x, SNum)}) == 2 * n * S, "every coordinate is drawn by itself")
    # the lines are what the network's reader takes them for
    w.search = [GCN]; R = w.load(GCN + "utils/google_tsp_reader.py", "reader").GoogleTSPReader(n, -1, 1, w.fs.norm(f)); k = 0
    left = list(range(S))
    for b in R:
        i = next((i for i in left if all(same(vf, b.nodes_coord[0][c][d], seen[i][2 * c + d]) for c in range(n) for d in (0, 1))), None)
        vf.check(i is not None, "the network's reader finds the instances that were generated"); left.remove(i); t = tours[i]
        want = {(t[j], t[(j + 1) % n]) for j in range(n)}; want |= {(b_, a_) for a_, b_ in want}
        vf.check({(a, c) for a in range(n) for c in range(n) if b.edges_target[0][a][c] == 1} == want, "the network's reader finds the tours that were generated")
    vf.check(not left, "the network's reader finds the instances that were generated"); vf.cover("generated")

def split(vf, w):
    L = vf.p("lines", 4); C = [[vf.real("x%d" % l, 0, 1), vf.real("y%d" % l, 0, 1)] for l in range(L)]; n = vf.p("n", 20)
    lines = ["%s %s output 1 %d 1 \n" % (C[l][0], C[l][1], l) for l in range(L)]; text = "".join(lines); text = text[:-1] if vf.choose(2) else text
    name = ["tsp%d_concorde.txt" % n, "own.txt"][vf.choose(2)]; w.fs.files[w.fs.norm(name)] = text; k = vf.int("val", 0, L + 2)
    err = vf.fails(w.main, D + "split_train_val.py", ["--num_nodes", str(n), "--val_size", str(k)] + (["--filename", name] if name == "own.txt" else [])); vf.check(err is None, "an instance file can be split (%s)" % err)
    a, b = (w.fs.files.get(w.fs.norm("tsp%d_%s_concorde.txt" % (n, t))) for t in ("val", "train")); vf.check(a is not None and b is not None, "both parts are written")
    import operator; k = operator.index(k)
    vf.check(a == "".join(text.splitlines(True)[:k]), "the validation part is the first instances, as many as asked for"); vf.check(a + b == text, "every other instance is in the training part, unchanged and in order")
    vf.check(w.fs.files[w.fs.norm(name)] == text, "the file that is split is left as it is"); vf.cover("split %d" % k)

def solve(vf, w):
    n, S = vf.p("n", 3), vf.p("samples", 2); C = [[[vf.real("x%d_%d" % (l, i), 0, 1), vf.real("y%d_%d" % (l, i), 0, 1)] for i in range(n)] for l in range(S)]
    w.fs.files["/work/data/in.txt"] = "".join(line(c, output(n)) for c in C); probs, sols = [], []
    class Problem:
        @staticmethod
        def from_coordinates(xs, ys, norm=None, name=None): p = Problem(); p.c = (list(xs), list(ys)); return p
    class Concorde:
        def solve(s, p, *a, **k):
            r = Stub("solution"); r.tour = perm(vf, n) if len(sols) < vf.p("freetours", 2) else list(range(n)); r.running_time = vf.real("time%d" % len(sols), 0, 9); r.bb_nodes = vf.int("nodes%d" % len(sols), 1, 9); probs.append(p); sols.append(r); return r
    c = Stub("concorde"); a = c.concorde = Stub("concorde.concorde"); a.Concorde = Concorde; b = c.problem = Stub("concorde.problem"); b.Problem = Problem; w.mods.update({"concorde": c, "concorde.concorde": a, "concorde.problem": b})
    err = vf.fails(w.main, D + "pyconcorde_solver.py", ["/work/data/in.txt"]); vf.check(err is None, "a file of instances can be solved (%s)" % err)
    vf.check(len(probs) == S, "every instance is solved once"); lens = []
    for l, p in enumerate(probs):
        vf.check(len(p.c[0]) == len(p.c[1]) == n, "an instance is solved with all its cities")
        for i in range(n):
            for t in (0, 1): vf.eq(p.c[t][i], C[l][i][t], "an instance is solved on its own coordinates", 1e-12)
        t = sols[l].tour; r = [G.sqrt((C[l][t[i]][0] - C[l][t[(i + 1) % n]][0])**2 + (C[l][t[i]][1] - C[l][t[(i + 1) % n]][1])**2) for i in range(n)]; lens.append(sum(r[1:], r[0]))
    text = w.fs.files.get("/work/data/results.txt"); vf.check(text is not None, "the results are written"); rows = text.strip("\n").split("\n"); vf.check(len(rows) == S, "every instance has a result")
    clean = lambda t: fl(w, re.sub(r"[^\d.eE+\-\ue000-\uf8ff\U000f0000-\U0010ffff]", "", re.sub(r"(np|numpy)\.(float|int)\d*", "", t)))
    for l, row in enumerate(rows):
        vf.check(row.startswith("Result of instance %d: " % l), "the results are numbered as the instances"); v = row.partition(": ")[2].strip("[]").rsplit(", ", 3)
        t = [int(x) for x in re.findall(r"\d+", v[0])]; vf.check(t == list(sols[l].tour), "a result shows the tour found")
        vf.eq(clean(v[1]), sols[l].running_time, "a result shows the time of its instance"); vf.eq(clean(v[2]), sols[l].bb_nodes, "a result shows the number of nodes of its instance"); vf.eq(clean(v[3]), lens[l], "the value of a result is the length of its closed tour")
    means = [x for a in w.printed for x in [" ".join(map(str, a))] if "ean" in x]
    for name, vals in (("optimal", lens), ("time", [s.running_time for s in sols]), ("nodes", [s.bb_nodes for s in sols])):
        m = [x for x in means if name in x.partition(":")[0]]; vf.check(len(m) == 1, "the means are printed"); vf.eq(clean(m[0].partition(":")[2]), sum(vals[1:], vals[0]) / S, "the means printed are those of the results: " + name)
    vf.cover("solved")
