from pyd import *
import HybridSolver as H, types
def run(rng, lines, n, fails=False):
    d = tempfile.mkdtemp(dir=T); os.makedirs(d + "/main/graph-convnet-tsp/data/hyb_tsp"); os.chdir(d + "/main"); solved = []
    open("graph-convnet-tsp/data/hyb_tsp/test_%d_nodes.txt" % n, "w").write("".join(" ".join("%s %s" % (l + i / 10 + 0.01, l * 2 + i * i / 7) for i in range(n)) + " output " + " ".join(map(str, range(1, n + 1))) + " 1\n" for l in range(1, lines + 1)))
    def call(cmd, *a, **k):
        if cmd[0] not in ("cmake", "make"): solved.append((int(cmd[1].split("_")[-1][:-4]), matrix(cmd[1])[0])); open(cmd[2], "w").write("REPORT\n")
        return types.SimpleNamespace(returncode=0)
    H.subprocess.run = H.subprocess.check_call = call; err = None; out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try: H.hybrid_solver(rng, n, False, True)
    except Exception as e: err = e
    finally: sys.stdout = out
    a, b = (1, int(rng)) if "-" not in rng else (max(1, int(rng.split("-")[0])), int(rng.split("-")[1])); want = list(range(a, min(b, lines) + 1))
    ok([s[0] for s in solved] == want, "instances solved for %s of %d: %s" % (rng, lines, [s[0] for s in solved]))
    ok((err is not None) == (b > lines), "error for %s of %d lines: %s" % (rng, lines, err))
    for i, c in solved: ok(all(near(c[k][0], i + k / 10 + 0.01) and near(c[k][1], i * 2 + k * k / 7) for k in range(n)), "coordinates of instance %d" % i)
for r in ("1", "3", "2-3", "0-2", "3-3", "1-4", "4", "4-5", "2-6"): run(r, 3, 4)
run("2-2", 2, 3); run("3-5", 2, 3)
