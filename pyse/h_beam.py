"""C31: tours from the network's probabilities by beam search."""
import numpy as np, itertools
import tens, engine as G
from tens import TT
from engine import SNum
from common import GCN
import z3

def harness(vf, w):
    n, K, B = vf.p("n", 3), vf.p("beam", 2), vf.p("batch", 1); kind = vf.p("type", "raw"); rs = bool(vf.p("random")); lib = tens.Lib(vf); lib.ties = vf.p("ties", 1)
    for k in ("models", "models.gcn_model"): w.mods.pop(k, None)
    w.mods.update(lib.modules()); w.search = [GCN]
    P = np.empty((B, n, n), dtype=object); fixed = vf.p("probs", "any") == "fixed"
    for i in np.ndindex(B, n, n):
        t = "%d_%d_%d" % i; v = ((i[0] * 29 + i[1] * 37 + i[2] * 61 + (i[1] * i[2]) * 13 + 5) % 89 + 5) / 97.0
        if kind == "raw": P[i] = v if fixed else vf.real("p" + t, "0.001", "0.999")
        else: P[i] = -v * 7 if fixed else vf.real("l" + t, -100, 0)
    if kind != "raw" and not fixed:
        for i in np.ndindex(B, n, n): vf.assume(_or(P[i] == 0, P[i] <= -1e-7))      # what single precision can tell from certainty
    D = np.empty((B, n, n), dtype=object)
    for b in range(B):
        for i in range(n):
            D[b, i, i] = 0.0
            for j in range(i): D[b, i, j] = D[b, j, i] = vf.real("d%d_%d_%d" % (b, j, i), "0.001", 2)
    logits = TT(np.zeros((B, n, n, 2), dtype=object))
    def softmax(x, dim, log):
        if x is not logits or dim not in (3, -1): raise G.Unsupported("softmax of something that is not the network's output")
        if log != (kind != "raw"): raise G.Unsupported("the other kind of probabilities")
        q = np.empty((B, n, n, 2), dtype=object); q[..., 1] = P; q[..., 0] = 1 - P if not log else -1.0; return TT(q)
    lib.softmax_of = softmax
    m = w.load(GCN + "utils/model_utils.py", "utils.model_utils"); T = lib.torch; args = (B, n, T.FloatTensor, T.LongTensor, kind, rs)
    beams = []; bs = m.Beamsearch
    class Spy(bs):
        def __init__(s, *a, **k): beams.append(s); bs.__init__(s, *a, **k)
    m.Beamsearch = Spy
    if vf.p("mode", "probable") == "probable": tours = w.get(m, "beamsearch_tour_nodes")(logits, K, *args)
    else: tours = w.get(m, "beamsearch_tour_nodes_shortest")(logits, TT(D), K, *args)
    vf.check(len(beams) == 1, "one search")
    A = np.asarray(tours.a); vf.check(A.shape == (B, n), "one tour for every instance")
    for b in range(B):
        t = [int(v) for v in A[b]]; vf.check(sorted(t) == list(range(n)), "the returned tour visits every city exactly once")
        if not rs: vf.check(t[0] == 0, "the search starts at the first city")
        alls = [(t[0],) + p for p in itertools.permutations([c for c in range(n) if c != t[0]])]
        wide = K >= len(alls)
        if vf.p("mode", "probable") == "probable":
            mine = score(P[b], t, kind)
            if wide or K == 1 and n == 2: vs = alls
            elif K == 1: vs = None
            else: vs = []
            if vs is None:                      # one place in the beam: always the most probable next city
                for s in range(n - 1):
                    for c in range(n):
                        if c not in t[:s + 1]: ge(vf, P[b][t[s], t[s + 1]], P[b][t[s], c], "a beam of one place moves to the most probable city not yet visited")
            else:
                for p in vs: ge(vf, mine, score(P[b], p, kind), "a beam with room for every tour returns the most probable one")
            if not wide and K > 1:              # never worse than the same beam's own last choice
                last = [t[:-1] + [c] for c in range(n) if c not in t[:-1]]
                for p in last: ge(vf, mine, score(P[b], p, kind), "the tour ends with its most probable city")
            vf.cover("probable")
        else:
            L = length(D[b], t)
            cands = alls if wide else finals(beams[0], b, n, K)
            for p in cands:
                if sorted(p) == list(range(n)): ge(vf, length(D[b], list(p)), L, "no valid tour left in the beam is shorter than the returned one")
            vf.cover("shortest")

def _or(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a or b
    return G.SBool(z3.Or(G.be(a), G.be(b)))
def score(P, t, kind):
    r = 1.0 if kind == "raw" else 0.0
    for a, b in zip(t, t[1:]): r = r * P[a, b] if kind == "raw" else r + P[a, b]
    return r
def length(D, t):
    r = 0.0
    for a, b in zip(t, list(t[1:]) + [t[0]]): r = r + D[a, b]
    return r
def ge(vf, a, b, msg):
    if isinstance(a, SNum) or isinstance(b, SNum): vf.check(G.SBool(G.rv(a) - G.rv(b) >= -G.rv(G.TOL)), msg)
    else: vf.check(a - b >= -1.001e-6, msg)
def finals(s, b, n, K):
    """the tours in the beam at the end, from its back pointers"""
    r = []
    for k in range(K):
        t = []; q = k
        for j in range(n - 1, 0, -1): t.append(int(s.next_nodes[j].a[b, q])); q = int(s.prev_Ks[j - 1].a[b, q])
        t.append(int(s.next_nodes[0].a[b, q])); r.append(tuple(reversed(t)))
    return r
