"""What the harnesses share: reading the matrix file the way the C reader does, instance lines, the network stand-in."""
import os, subprocess, tempfile, numpy as np, z3
import engine as G
from engine import SNum, isnum
GCN = "src/HybridSolver/main/graph-convnet-tsp/"

def fl(w, t): return w.builtins["float"](t)

def lead(t):
    """the numeral a scanf %lf would read at the start of t, and what follows"""
    import re
    t = t.lstrip(" \t\n")
    if t and G.has_tokens(t[0]) and ord(t[0]) < 0xF0000: return t[0], t[1:]
    m = re.match(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)", t)
    return (m.group(0), t[m.end():]) if m else (None, t)

def pair(w, t):
    """(a, b) as sscanf("(%lf, %lf)") reads it, or None"""
    if not t.startswith("("): return None
    a, r = lead(t[1:])
    if a is None or not r.startswith(","): return None
    b, r = lead(r[1:])
    return None if b is None else (fl(w, a), fl(w, b))

def parse_csv(w, text):
    """cities and rows of entries as the C reader sees them; a string if it would refuse the file"""
    lines = text.split("\n"); lines = lines[:-1] if lines[-1] == "" else lines
    if not lines: return "the file is empty", None
    tok = lambda l: [t for t in l.split(";") if t]
    cities = [pair(w, t) for t in tok(lines[0])]
    if None in cities: return "the cities are not written as (x, y)", None
    rows = []
    for i, l in enumerate(lines[1:]):
        r = [pair(w, t) if j != i else (0.0, 0.0) for j, t in enumerate(tok(l))]
        if None in r: return "an entry of row %d is not written as (w, p)" % i, None
        rows.append(r)
    return cities, rows

def cities(vf, n, mode="apart", span=1):
    """n cities: 'apart' (no two share an x), or 'any' distinct coordinates of the range"""
    c = [[vf.real("x%d" % i, 0, span), vf.real("y%d" % i, 0, span)] for i in range(n)]
    if mode == "apart":
        for i in range(n):
            for j in range(i): vf.assume(_or(c[i][0] - c[j][0] >= 0.001, c[j][0] - c[i][0] >= 0.001))
    return c
def _or(a, b): return (a | b) if not isinstance(a, bool) and not isinstance(b, bool) else bool(a) or bool(b)

def line(c, tail=" output 1 2 3 1\n"): return " ".join("%s %s" % (x, y) for x, y in c) + tail
def output(n): return " output " + " ".join(str(i + 1) for i in range(n)) + " 1\n"

def same(vf, a, b, tol=1e-9):
    if isinstance(a, SNum) or isinstance(b, SNum): return isinstance(a, SNum) and isinstance(b, SNum) and (a.e.eq(b.e) or z3.is_true(z3.simplify(z3.simplify(G.rv(a) - G.rv(b), som=True) == 0)))
    return abs(a - b) <= tol

def big(a, b):
    """the larger of two numbers, without a decision"""
    if isinstance(a, SNum) or isinstance(b, SNum): return SNum(z3.If(G.rv(a) >= G.rv(b), G.rv(a), G.rv(b)))
    return max(a, b)

def check_matrix(vf, w, text, want_cities, prob, msg="", order=True, dist=True, probs=True, creader=True, tol=None):
    """the file is read as the instance; prob(i, j) in positions of the file's cities"""
    got, rows = parse_csv(w, text); n = len(want_cities)
    if rows is None: vf.check(False, msg + "the solver's reader refuses the file: " + got); return None
    vf.check(len(got) == n, msg + "the file has as many cities as the instance")
    vf.check(len(rows) == n and all(len(r) == n for r in rows), msg + "the matrix has one row and one column for each city")
    if order: where = list(range(n))
    else:
        where = []; rest = list(range(n))
        for g in got:
            k = [i for i in rest if same(vf, g[0], want_cities[i][0]) and same(vf, g[1], want_cities[i][1])]
            if not k: vf.check(False, msg + "every city of the instance is in the file once"); return None
            where.append(k[0]); rest.remove(k[0])
    for i in range(n):
        vf.eq(got[i][0], want_cities[where[i]][0], msg + "the cities keep their coordinates and order", tol); vf.eq(got[i][1], want_cities[where[i]][1], msg + "the cities keep their coordinates and order", tol)
    for i in range(n):
        for j in range(n):
            if i == j: continue
            if dist: vf.dist(rows[i][j][0], want_cities[where[i]], want_cities[where[j]], msg + "an entry is the Euclidean distance of its cities", tol)
            if probs: vf.eq(rows[i][j][1], prob(i, j), msg + "an entry has the probability the network gave to the road")
    if not vf.symbolic and creader and os.environ.get("VF_CREADER"): c_reader(vf, text, got, rows, msg)
    return where

def c_reader(vf, text, got, rows, msg):
    """the file through the natively compiled reader of the solver"""
    with tempfile.NamedTemporaryFile("w", suffix=".csv") as f:
        f.write(text); f.flush()
        p = subprocess.run([os.environ["VF_CREADER"], f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    vf.check(p.returncode == 0, msg + "the solver's reader accepts the file")
    L = [l.split() for l in p.stdout.splitlines()]; n = int(L[0][1]); vf.check(L[0][0] == "nodes" and n == len(got), msg + "the solver's reader finds all cities")
    for k, l in enumerate(x for x in L if x[0] == "node"): vf.eq(float(l[1]), got[k][0], msg + "the solver's reader finds the coordinates"); vf.eq(float(l[2]), got[k][1], msg + "the solver's reader finds the coordinates")
    edges = {(int(l[1]), int(l[2])): (float(l[3]), float(l[4])) for l in L if l[0] == "edge"}
    for i in range(n):
        for j in range(i + 1, n):
            if rows[i][j][0] > 0: vf.check((i, j) in edges, msg + "the solver's reader finds every road"); vf.eq(edges[i, j][0], rows[i][j][0], msg + "the solver's reader finds the distances"); vf.eq(edges[i, j][1], rows[i][j][1], msg + "the solver's reader finds the probabilities")
