"""C26: the converter for the CPLEX reference solver."""
import numpy as np, re
from common import *
REL = "src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py"
def parse_dat(vf, w, text):
    """n=<int>; Cost=[ [a, b, ...] ... ]; as OPL reads it: rows in brackets, separated by blanks or commas"""
    m = re.match(r"\s*n\s*=\s*(\d+)\s*;\s*Cost\s*=\s*\[(.*)\]\s*;\s*$", text, re.S)
    if not m: return None, None
    body = m.group(2).strip(); rows = []
    while body:
        if not body.startswith("["): return None, None
        e = body.find("]")
        if e < 0: return None, None
        items = body[1:e].replace(",", " , ").split(); r = []; comma = True
        for t in items:
            if t == ",":
                if comma: return None, None
                comma = True
            else: r.append(t); comma = False
        if comma and r: return None, None
        rows.append([fl(w, t) for t in r]); body = body[e + 1:].lstrip(" \n\t,")
    return int(m.group(1)), rows
def harness(vf, w):
    n = vf.p("n", 3); m = w.load(REL, "converter")
    w.fs.cwd = "/work/d"; w.fs.makedirs("/work/d")
    if vf.p("tsplib"): return tsplib(vf, w, m, n)
    C = [[vf.real("x%d" % i, -1000, 1000), vf.real("y%d" % i, -1000, 1000)] for i in range(n)]
    sep = [" ", "   ", "\t"][vf.choose(3)]; tail = ["EOF\n", "", "EOF", "\n"][vf.choose(4)]
    body = "".join("%s%d%s%s%s%s\n" % (["", " "][vf.p("indent", 0)], i + 1, sep, x, sep, y) for i, (x, y) in enumerate(C))
    head = "NAME : t\nTYPE : TSP\nDIMENSION : %d\nEDGE_WEIGHT_TYPE : EUC_2D\n" % n + ["NODE_COORD_SECTION\n", "NODE_COORD_SECTION \n"][vf.choose(2)]
    w.fs.files["/work/d/a.tsp"] = head + body + tail
    if vf.p("all"):
        w.fs.files["/work/d/b.tsp"] = head + body.replace("1" + sep, "1" + sep, 1) + tail; w.fs.files["/work/d/c.txt"] = "x"
        w.get(m, "convert_all_file")(True)
        vf.check(sorted(f for f in w.fs.files if f.endswith(".dat")) == ["/work/d/a.dat", "/work/d/b.dat"], "every .tsp file, and no other, gets a .dat file of its name")
    else: w.get(m, "convert_custom_euclidean")("a.tsp", "a.dat")
    out = w.fs.files["/work/d/a.dat"]; k, rows = parse_dat(vf, w, out)
    vf.check(rows is not None, "the data file has the form n=...; Cost=[[...]...];"); vf.check(k == n, "the data file has the number of cities")
    vf.check(len(rows) == n and all(len(r) == n for r in rows), "the matrix has one row and one column for each city")
    for i in range(n):
        vf.eq(rows[i][i], 0.0, "the distance of a city to itself is 0")
        for j in range(n):
            if i != j: vf.dist(rows[i][j], C[i], C[j], "an entry is the Euclidean distance of its cities, in the order of the file"); vf.eq(rows[i][j], rows[j][i], "the matrix is symmetric")
    vf.cover("n%d" % n)
def tsplib(vf, w, m, n):
    W = np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(i): W[i][j] = W[j][i] = vf.real("w%d_%d" % (i, j), 0, 1000)
        W[i][i] = vf.real("w%d_%d" % (i, i), 0, 1000) if vf.p("diag") else 0.0
    class P:
        def get_graph(s, *a): return "graph"
        def as_name_dict(s): return {}
    w.mods["tsplib95"].__dict__["load"] = lambda f: P() if f == "a.tsp" else None
    def mat(g): 
        if g != "graph": raise G.Unsupported("graph")
        return W.copy()
    for f in ("to_numpy_matrix", "to_numpy_array"): w.mods["networkx"].__dict__[f] = mat
    w.fs.files["/work/d/a.tsp"] = "x"
    w.get(m, "convert")("a.tsp", "a.dat"); k, rows = parse_dat(vf, w, w.fs.files["/work/d/a.dat"])
    vf.check(rows is not None, "the data file has the form n=...; Cost=[[...]...];"); vf.check(k == n, "the data file has the number of cities")
    vf.check(len(rows) == n and all(len(r) == n for r in rows), "the matrix has one row and one column for each city")
    for i in range(n):
        for j in range(n): vf.eq(rows[i][j], W[i][j], "the matrix is the one of the problem")
    vf.cover("tsplib")
