from pyd import *
import runpy, random, re
from types import ModuleType, SimpleNamespace as NS
r = random.Random(4); os.chdir(T); D = NN + "/data/"; asked = []
def mod(n, **k):
    m = ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
def tour(n): t = list(range(n)); r.shuffle(t); return t
class Solver:
    @staticmethod
    def from_data(xs, ys, norm=None, **k): return NS(solve=lambda *a, **q: (asked.append((list(xs), list(ys), tour(len(xs)))), NS(tour=np.array(asked[-1][2])))[1])
class Concorde:
    def solve(s, p, *a, **k): asked.append((list(p.x), list(p.y), tour(len(p.x)), r.random(), r.randrange(1, 9))); return NS(tour=asked[-1][2], running_time=asked[-1][3], bb_nodes=asked[-1][4])
mod("concorde"); mod("concorde.tsp", TSPSolver=Solver); mod("concorde.concorde", Concorde=Concorde); mod("concorde.problem", Problem=NS(from_coordinates=lambda xs, ys, norm=None, **k: NS(x=xs, y=ys)))
def run(f, *a):
    sys.argv = [f] + list(a); out = sys.stdout; sys.stdout = open(os.devnull, "w")
    try: runpy.run_path(D + f, run_name="__main__")
    finally: sys.stdout = out
run("generate_tsp_concorde.py", "--num_samples", "6", "--num_nodes", "5"); L = open("tsp5_concorde.txt").read().splitlines(); ok(len(L) == 6, "generated lines")
for l, (x, y, t) in zip(L, asked):
    a, b = l.split(" output "); v = list(map(float, a.split())); ok(v[::2] == x and v[1::2] == y and [int(k) for k in b.split()] == [k + 1 for k in t + t[:1]], "generated line")
for k in range(8):
    run("split_train_val.py", "--num_nodes", "5", "--val_size", str(k)); ok(open("tsp5_val_concorde.txt").read().splitlines() == L[:k] and open("tsp5_train_concorde.txt").read().splitlines() == L[k:], "split at %d" % k)
asked.clear(); run("pyconcorde_solver.py", "tsp5_concorde.txt"); W = open("results.txt").read().splitlines(); ok(len(W) == 6 == len(asked), "results")
for i, (l, w, (x, y, t, s, b)) in enumerate(zip(L, W, asked)):
    v = list(map(float, l.split(" output")[0].split())); ok(v[::2] == x and v[1::2] == y, "instance solved"); n = len(t); d = sum(dist((x[t[k]], y[t[k]]), (x[t[(k + 1) % n]], y[t[(k + 1) % n]])) for k in range(n))
    c = [float(q) for q in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", re.sub(r"np\.float64", "", w.split(": ")[1]))]; ok(w.startswith("Result of instance %d:" % i) and c[:n] == t and near(c[n], s) and c[n + 1] == b and near(c[n + 2], d), "result")
