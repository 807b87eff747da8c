"""Builds the native helpers from the repository's C sources: the reader (for replays) and the real reports (for the analyser)."""
import os, sys, glob, json, math, random, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
def build(repo, src, out, cap, hybrid):
    m = os.path.join(repo, "src/HybridSolver/main"); dirs = sorted({d for d, _, f in os.walk(m) if any(x.endswith(".h") for x in f)})
    cs = [c for c in glob.glob(m + "/**/*.c", recursive=True) if os.path.basename(c) != "main.c"]
    p = subprocess.run(["gcc", "-O1", "-w", "-DMAX_VERTEX_NUM=%d" % cap, "-DHYBRID=%d" % hybrid] + ["-I" + d for d in dirs] + [os.path.join(HERE, "csrc", src)] + cs + ["-lm", "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    return out if p.returncode == 0 else None
def reader(repo, d): return build(repo, "creader.c", os.path.join(d, "creader"), 8, 1)
def reports(repo, d):
    """the report of every kind of run, as the solver prints it; and a line telling of an improvement, from a real run"""
    b = build(repo, "creport.c", os.path.join(d, "creport"), 8, 0)
    if not b: return None
    t = subprocess.run([b], stdout=subprocess.PIPE, text=True, timeout=20).stdout.split("=====\n")
    r = dict(zip(("NN", "NN_HYBRID", "1TREE", "SUBGRADIENT", "interrupted", "no tour"), t))
    for s in range(200):
        g = random.Random(s); P = [(g.random(), g.random()) for _ in range(8)]; f = os.path.join(d, "i.csv")
        with open(f, "w") as h: h.write(";".join("(%r, %r)" % p for p in P) + "\n" + "".join("".join("(%r, 0);" % math.dist(a, c) for c in P) + "\n" for a in P))
        o = subprocess.run([b, f], stdout=subprocess.PIPE, text=True, timeout=20).stdout
        l = [x for x in o.split("\n") if "best value" in x]
        if l:
            n = list(re.finditer(r"\d+\.\d+", l[-1])); cost = re.search(r"SUBPROBLEM with cost = ([\d.]+)", o)
            if len(n) == 2 and cost and n[0].group(0) == cost.group(1): r["update"] = l[-1][:n[0].start()] + "<VALUE>" + l[-1][n[0].end():n[1].start()] + "<TIME>" + l[-1][n[1].end():]; break
    f = os.path.join(d, "reports.json"); json.dump(r, open(f, "w")); return f
if __name__ == "__main__": print(reports(sys.argv[1], sys.argv[2]), reader(sys.argv[1], sys.argv[2]))
