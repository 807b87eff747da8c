"""Which scenarios decide which property."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUME = ["numbers are reals: rounding of individual floating point operations is not modelled (concrete values keep their exact binary value); assertions carry a tolerance of 1e-6, and every counterexample is confirmed by running the natively compiled code on it",
          "regions of inputs thinner than about 1e-10 are not distinguished"]

def known(prop, msg, scenario):
    """Entry of known_findings.txt that covers this failure, or None. Lines: known: property=ID scenario=NAME message=TEXT"""
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("known: property=%s scenario=%s message=" % (prop, scenario)):
            if l.split("message=", 1)[1].strip() == msg: return l.split(" ", 2)[2].strip()
    return None

def se(name, harness, hybrid, mx, params=None, budget=(10, 60), **kw):
    d = dict(kind="se", name=name, harness=harness, defs=["HYBRID=%d" % hybrid, "MAX_VERTEX_NUM=%d" % mx], params=params or {}, budget=budget)
    d["defs"] += kw.pop("defs", [])
    d.update(kw); return d

def bmc(name, harness, hybrid, mx, unwind, budget=(25, 200), defs=(), **kw):
    return dict(kind="cbmc", name=name, harness=harness, defs=["HYBRID=%d" % hybrid, "MAX_VERTEX_NUM=%d" % mx] + list(defs), unwind=unwind, budget=budget, **kw)

PROPS = {}
NOT_APPLICABLE = {}
def prop(pid, **kw): PROPS[pid] = kw

MODES = ((0, "classic"), (1, "hybrid"))
HYB = lambda h: "hybrid" if h else "classic"

REL = ["constrained_prim", "constrained_kruskal", "initialize_matrix"]
def big(name, hybrid, cap, params, budget, **kw):
    if params["mode"] == 3: kw.update(externals=REL[:2], defs=["RELAX"])
    return se("big/" + name, "big", hybrid, cap, params, budget, **kw)

def searches(check):
    """Whole solver runs, every decision on the symbolic roads and probabilities explored."""
    return [
        se("n3/classic", "search", 0, 3, {"n": 3, "check": check}, (3, 20)),
        se("n4/all-roads/classic", "search", 0, 4, {"n": 4, "sym": 6, "check": check}, (6, 120)),
        se("n4of5/all-roads/hybrid", "search", 1, 5, {"n": 4, "sym": 6, "sp": 1, "check": check}, (6, 120)),
        se("n5/2-roads/classic", "search", 0, 5, {"n": 5, "sym": 2, "base": 111, "check": check}, (6, 40)),
        se("n5/missing/hybrid", "search", 1, 5, {"n": 5, "sym": 1, "sp": 1, "base": 3, "step": 4, "nb": 12, "miss": 3, "check": check}, (6, 60)),
        se("n6/missing/classic", "search", 0, 6, {"n": 6, "sym": 1, "base": 3, "step": 4, "nb": 12, "miss": 3, "check": check}, (5, 60)),
        se("n6/ties/classic", "search", 0, 6, {"n": 6, "sym": 1, "base": 3, "step": 4, "nb": 40, "check": check}, (5, 60)),
        se("n6/ties/hybrid", "search", 1, 6, {"n": 6, "sym": 1, "sp": 1, "base": 3, "step": 16, "nb": 10, "check": check}, (6, 60)),
        se("n7of8/hybrid", "search", 1, 8, {"n": 7, "sym": 1, "base": 1, "step": 1, "nb": 32, "check": check}, (6, 60)),
        se("n8/ties/classic", "search", 0, 8, {"n": 8, "sym": 1, "base": 3, "step": 36, "nb": 6, "check": check}, (5, 60)),
        big("n10/classic", 0, 10, {"n": 10, "mode": 7, "base": 1, "nb": 12, "check": check}, (6, 60)),
        big("n11of12/ties/hybrid", 1, 12, {"n": 11, "mode": 7, "kind": 1, "base": 1, "nb": 12, "check": check}, (6, 90)),
        big("n12/euclidean/hybrid", 1, 12, {"n": 12, "mode": 7, "kind": 4, "base": 1, "nb": 6, "sym": 2, "check": check}, (6, 90)),
        big("n24/potentials/hybrid", 1, 24, {"n": 24, "mode": 7, "kind": 5, "base": 1, "nb": 4, "check": check}, (5, 60)),
        big("n40of44/potentials/classic", 0, 44, {"n": 40, "mode": 7, "kind": 5, "base": 1, "nb": 4, "sym": 2, "miss": 40, "check": check}, (5, 60)),
        big("n260/planted/classic", 0, 260, {"n": 260, "mode": 7, "kind": 2, "check": check}, (6, 60)),
        big("n260of270/planted/hybrid", 1, 270, {"n": 260, "mode": 7, "kind": 2, "check": check}, (6, 60)),
        big("n130/potentials/hybrid", 1, 130, {"n": 130, "mode": 7, "kind": 5, "check": check}, (8, 90)),
    ] + ([] if check == 8 else [      # PRIM 0: relaxations with Kruskal, which reorders the list of roads
        se("kruskal/n4/all-roads/classic", "search", 0, 4, {"n": 4, "sym": 6, "check": check}, (4, 60), defs=["KRUSKAL"]),
        se("kruskal/n6/missing/hybrid", "search", 1, 6, {"n": 6, "sym": 1, "sp": 1, "base": 3, "step": 4, "nb": 12, "miss": 3, "check": check}, (5, 60), defs=["KRUSKAL"]),
        big("kruskal/n11of12/ties/classic", 0, 12, {"n": 11, "mode": 7, "kind": 1, "base": 1, "nb": 12, "check": check}, (5, 60), defs=["KRUSKAL"]),
        big("kruskal/n40of44/potentials/hybrid", 1, 44, {"n": 40, "mode": 7, "kind": 5, "base": 1, "nb": 4, "sym": 2, "miss": 40, "check": check}, (5, 60), defs=["KRUSKAL"]),
    ]) + [
        se("n6/2-roads/hybrid", "search", 1, 6, {"n": 6, "sym": 2, "sp": 1, "base": 3, "step": 4, "nb": 10, "check": check}, (6, 90), thorough_only=True),
        se("n9/ties/hybrid", "search", 1, 9, {"n": 9, "sym": 1, "base": 3, "step": 4, "nb": 16, "check": check}, (6, 90), thorough_only=True),
        se("n5/3-roads/hybrid", "search", 1, 5, {"n": 5, "sym": 3, "sp": 2, "base": 111, "check": check}, (6, 90), thorough_only=True),
    ]
def programs(check):
    """The whole program on an instance file."""
    return [
        se("main/n4/classic", "main", 0, 4, {"n": 4, "sym": 6, "check": check}, (4, 40)),
        se("main/n5of6/hybrid", "main", 1, 6, {"n": 5, "base": 3, "step": 2, "nb": 10, "sym": 1, "sp": 1, "miss": 1, "check": check}, (5, 40)),
    ]
SEARCH_BOUNDS = "both relaxation algorithms (PRIM 1, the default, and 0, except for C21); instances of 10 to 12 cities with 1 or 2 symbolic roads against a dynamic programme over all tours, and of 24 to 260 cities whose best tour is known by construction (1 or 2 roads symbolic), explored within the time budget; complete solver runs: 3 cities (every road symbolic in [1/16,1]); 4 cities with every road symbolic (and one probability), explored within the time budget; 5 to 9 cities, 1 to 3 roads (and up to 2 probabilities) symbolic over their whole range around families of fixed instances (random, Euclidean, many equal distances), up to 3 missing roads, capacity equal to or above the number of cities; scenarios marked complete are exhaustive over the stated symbolic values"
SEARCH_OUT = "instances of more than 12 cities other than those with a known best tour (24 to 260 cities); instances that differ from the families in more roads than are symbolic; runs cut by the time limit (C19)"
prop("C01", bounds=SEARCH_BOUNDS, outside=SEARCH_OUT, jobs=searches(1) + programs(1))
prop("C02", bounds=SEARCH_BOUNDS, outside=SEARCH_OUT, jobs=searches(2) + programs(2))
prop("C21", bounds=SEARCH_BOUNDS, outside=SEARCH_OUT, jobs=searches(8))

def nodes(check, **kw):
    return [
        se("n4/classic", "node", 0, 4, {"n": 4, "k": 2, "sym": 2, "check": check}, (6, 90)),
        se("n4/hybrid", "node", 1, 4, {"n": 4, "k": 2, "base": 5, "sym": 2, "sp": 1, "check": check}, (5, 60)),
        se("n5/k3/classic", "node", 0, 5, {"n": 5, "k": 3, "base": 3, "step": 4, "nb": 8, "sym": 1, "check": check}, (6, 60)),
        se("n5/k2/hybrid", "node", 1, 5, {"n": 5, "k": 2, "base": 1, "step": 1, "nb": 8, "sym": 1, "sp": 1, "check": check}, (6, 60)),
        se("n5of7/k3/hybrid", "node", 1, 7, {"n": 5, "k": 3, "base": 1, "step": 1, "nb": 8, "sym": 1, "check": check}, (6, 60)),
        se("n6/k4/classic", "node", 0, 6, {"n": 6, "k": 4, "base": 3, "step": 4, "nb": 4, "sym": 1, "check": check}, (8, 90)),
        se("root/n5/classic", "node", 0, 5, {"n": 5, "k": 1, "level": 1, "base": 1, "step": 1, "nb": 16, "sym": 1, "check": check}, (5, 60)),
        se("n6/k3/free/hybrid", "node", 1, 6, {"n": 6, "k": 3, "infer": 0, "base": 3, "step": 4, "nb": 6, "sym": 1, "check": check}, (5, 60)),
        se("kruskal/n5/k3/hybrid", "node", 1, 5, {"n": 5, "k": 3, "base": 1, "step": 1, "nb": 8, "sym": 1, "sp": 1, "check": check}, (5, 60), defs=["KRUSKAL"]),
        big("kruskal/walk/n10/ties/classic", 0, 10, {"n": 10, "mode": 8, "kind": 1, "base": 1, "nb": 8, "check": check}, (5, 60), defs=["KRUSKAL"]),
        big("walk/n10/classic", 0, 10, {"n": 10, "mode": 8, "base": 1, "nb": 8, "check": check}, (6, 90)),
        big("walk/n10of11/ties/hybrid", 1, 11, {"n": 10, "mode": 8, "kind": 1, "base": 1, "nb": 8, "check": check}, (6, 90)),
        big("walk/n9/missing/hybrid", 1, 9, {"n": 9, "mode": 8, "kind": 4, "base": 1, "nb": 8, "miss": 8, "check": check}, (6, 60)),
        big("walk/n12/potentials/classic", 0, 12, {"n": 12, "mode": 8, "kind": 5, "base": 1, "nb": 4, "depth": 9, "check": check}, (6, 120)),
        big("walk/n40/sparse/hybrid", 1, 40, {"n": 40, "mode": 8, "kind": 6, "base": 1, "nb": 6, "deg": 6, "depth": 9, "check": check}, (6, 90)),
        big("walk/n130/sparse/classic", 0, 130, {"n": 130, "mode": 8, "kind": 6, "base": 1, "nb": 4, "deg": 6, "check": check}, (6, 90), thorough_only=True),
        big("walk/n200/sparse/classic", 0, 200, {"n": 200, "mode": 8, "kind": 6, "base": 1, "nb": 8, "deg": 4, "depth": 4, "check": check}, (9, 90)),
        big("walk/n260/sparse/classic", 0, 260, {"n": 260, "mode": 8, "kind": 6, "base": 1, "nb": 2, "deg": 5, "depth": 3, "check": check}, (8, 120), thorough_only=True),
        se("n7/k5/classic", "node", 0, 7, {"n": 7, "k": 5, "base": 3, "step": 4, "nb": 4, "sym": 1, "check": check}, (5, 120), thorough_only=True),
    ]
NODE_BOUNDS = "both relaxation algorithms (PRIM 1, the default, and 0); ways of up to 6 (9) nodes down the search tree of instances of 9 to 12 cities (1 road symbolic over [1/16,1] around families of random, Euclidean, tied and sparse instances; any child at every branching; any incumbent from 1/16 below to 1/2 above the optimum), against a dynamic programme over all tours, and of 40 to 260 cities against one good tour, explored within the time budget; one search node of 4 to 7 cities (capacity up to 7), every special city, every set of up to 2..5 mandatory/forbidden roads (after inference, as branching leaves them, and without), every incumbent value in [0.5,n], 1 or 2 roads symbolic over [1/16,1] around families of instances (all roads' base values symbolic for n=4 with 2 free)"
prop("C03", bounds=NODE_BOUNDS, outside="more than 12 cities except against one tour; more constrained roads in nodes that the walks do not reach", jobs=nodes(1))
prop("C05", bounds=NODE_BOUNDS, outside="more than 12 cities; more constrained roads in nodes that the walks do not reach", jobs=nodes(2))

prop("C07", bounds="graphs of 24, 130 and 260 cities, 1 or 2 weights symbolic, against every exchange of one road; complete and arbitrary sparse graphs of 2..4 cities (5 for Kruskal), every weight in [0,1] and probability in [0,1] symbolic", outside="more cities",
  jobs=[se("n4/classic", "c07", 0, 4, {"n": 4}, (10, 60)), se("n4/hybrid", "c07", 1, 4, {"n": 4}, (20, 60)),
        se("n4/sparse/classic", "c07", 0, 4, {"n": 4, "sparse": 1}, (20, 120)),
        se("n3of6/sparse/hybrid", "c07", 1, 6, {"n": 3, "sparse": 1}, (10, 60)),
        se("n5/kruskal/classic", "c07", 0, 5, {"n": 5, "alg": 2}, (20, 120)),
        se("n5/prim/classic", "c07", 0, 5, {"n": 5, "alg": 1}, (10, 300)),
        big("n24/hybrid", 1, 24, {"n": 24, "mode": 2, "sym": 2, "nb": 3, "miss": 100}, (6, 60)), big("n130/ties/classic", 0, 130, {"n": 130, "mode": 2, "kind": 1}, (8, 60)), big("n260/ties/classic", 0, 260, {"n": 260, "mode": 2, "kind": 1}, (8, 90)), big("n260/sparse/hybrid", 1, 260, {"n": 260, "mode": 2, "kind": 4, "deg": 20}, (6, 90)),
        se("n4/sparse/hybrid", "c07", 1, 4, {"n": 4, "sparse": 1}, (10, 120), thorough_only=True)])

prop("C09", bounds="one merge from every forest over 6 elements (7 thorough; elements numbered so that parents come first) and two over 4 that merging from singletons can leave (parent of greater rank, root of rank r with at least 2^r elements), through any elements; every sequence of up to 4 merges and lookups over 3 and 4 elements and of 3 over 5 elements or 4 with an excluded one (thorough: 5 operations over 4 elements); 40 and 260 elements after histories of 6 shapes, two more merges of any of 6 (3) elements", outside="other histories of more elements",
  jobs=[bmc("any-state/n6/1merge", "mfstep", 0, 6, 7, (200, 400)), bmc("any-state/n4/2merges", "mfstep", 0, 4, 5, (100, 300), ["STEPS=2"]), bmc("any-state/n7/1merge", "mfstep", 0, 7, 8, (100, 600), thorough_only=True), bmc("n4/4ops", "mfset", 0, 4, 5, (100, 200), ["OPS=4"]), bmc("n4/3ops/excluded", "mfset", 0, 4, 5, (100, 200), ["OPS=3", "CONSTRAINED"]), bmc("n3/4ops", "mfset", 0, 3, 5, (100, 200), ["OPS=4"]),
        bmc("n5/3ops", "mfset", 0, 5, 6, (100, 300), ["OPS=3"], thorough_only=True), bmc("n4/5ops", "mfset", 0, 4, 6, (100, 600), ["OPS=5"], thorough_only=True),
        se("histories/n40", "c09", 0, 40, {"n": 40}, (6, 30)), se("histories/n260", "c09", 1, 260, {"n": 260, "ends": 3}, (10, 60))])
prop("C18", bounds="both list types, starting with 0 or 2 elements: every history of 3 (from 2 elements) or 4 (from none) insertions at the end or at any index, deletions at any index or at the end, with in-range and out-of-range indices; then a full iteration and any indexed read (thorough: 4 operations from 2 elements); lists of 300 elements built at either end or in the middle, then any 2 operations at any of 10 indices, then emptied from either end", outside="longer histories; the search-node list is checked with nodes of capacity 3",
  jobs=[bmc("generic/from2", "lists", 0, 3, 9, (100, 200), ["WHICH=0", "OPS=3", "START=2"]), bmc("generic/from0", "lists", 0, 3, 9, (100, 200), ["WHICH=0", "OPS=4", "START=0"]),
        bmc("nodes/from2", "lists", 0, 3, 9, (100, 200), ["WHICH=1", "OPS=3", "START=2"]), bmc("nodes/from0", "lists", 0, 3, 9, (100, 200), ["WHICH=1", "OPS=4", "START=0"]),
        bmc("generic/from2/4ops", "lists", 0, 3, 10, (100, 700), ["WHICH=0", "OPS=4", "START=2"], thorough_only=True), bmc("nodes/from2/4ops", "lists", 0, 3, 10, (100, 700), ["WHICH=1", "OPS=4", "START=2"], thorough_only=True),
        se("generic/n300", "c18", 0, 3, {"n": 300, "ops": 2}, (8, 60)), se("nodes/n300", "c18", 0, 3, {"n": 300, "ops": 2, "kind": 1}, (8, 60))])

prop("C04", bounds=NODE_BOUNDS + "; CBMC: every constraint matrix of 4 cities (capacity 4 and 6; 5 cities for inference), every branching road, every tour; sparse graphs of 24, 130 and 260 cities made of 3 or 4 tours, up to 150 mandatory and as many forbidden roads, against these tours", outside="more than 12 cities; more constrained roads in nodes that the walks do not reach",
  jobs=[bmc("cbmc/branch/n4", "branch", 1, 4, 6, (100, 200)), bmc("cbmc/infer/n4of6", "infer", 0, 6, 8, (100, 200), ["NC=4"]), bmc("cbmc/infer/n5", "infer", 0, 5, 7, (105, 300)),
        bmc("cbmc/branch/n4/classic", "branch", 0, 4, 6, (100, 200), thorough_only=True), bmc("cbmc/branch/n5", "branch", 1, 5, 7, (100, 700), thorough_only=True),
        big("branching/n260/classic", 0, 260, {"n": 260, "mode": 9, "nb": 2, "k": 30}, (6, 30)), big("branching/n130of140/hybrid", 1, 140, {"n": 130, "mode": 9, "nb": 3, "k": 12, "tours": 3}, (4, 30)), big("branching/n24/hybrid", 1, 24, {"n": 24, "mode": 9, "nb": 6, "k": 3, "tours": 3}, (4, 20))] + nodes(4))

prop("C06", bounds="graphs of 24 and 130 cities, 1 or 2 weights symbolic, up to 30 mandatory and 120 forbidden roads (of 260 cities up to 257 mandatory ones, of 40 and 130 cities exactly 512 and 256 forbidden ones), against every exchange of one road; 4 and 5 cities (capacity up to 6), every special city, every set of up to 3 mandatory/forbidden roads, all weights symbolic in [0,1], complete and arbitrary sparse graphs, both algorithms, against all 1-trees; scenarios not marked complete are explored within the time budget", outside="more cities or constrained roads",
  jobs=[se("n4/k3/prim", "c06", 0, 4, {"n": 4, "k": 3, "alg": 0}, (8, 60), externals=REL), se("n4/k3/kruskal", "c06", 0, 4, {"n": 4, "k": 3, "alg": 1}, (8, 60), externals=REL),
        se("n5/k3/prim/hybrid", "c06", 1, 5, {"n": 5, "k": 3, "alg": 0}, (10, 150), externals=REL), se("n5/k3/kruskal", "c06", 0, 5, {"n": 5, "k": 3, "alg": 1}, (8, 150), externals=REL),
        se("n4of6/k2/sparse/prim", "c06", 0, 6, {"n": 4, "k": 2, "sparse": 1, "alg": 0}, (8, 60), externals=REL), se("n5of6/k2/sparse/prim", "c06", 0, 6, {"n": 5, "k": 2, "sparse": 1, "alg": 0}, (8, 150), externals=REL),
        se("n4/k2/sparse/kruskal", "c06", 1, 4, {"n": 4, "k": 2, "sparse": 1, "alg": 1}, (6, 60), externals=REL),
        big("n24/hybrid", 1, 24, {"n": 24, "mode": 3, "k": 6, "sym": 2, "nb": 3}, (8, 60)), big("n24/ties/classic", 0, 30, {"n": 24, "mode": 3, "kind": 1, "k": 10, "nb": 3, "miss": 60}, (6, 60)), big("n130/ties/classic", 0, 130, {"n": 130, "mode": 3, "kind": 1, "k": 30}, (8, 60)), big("n260/ties/classic", 0, 260, {"n": 260, "mode": 3, "kind": 1, "k": 220}, (8, 90)), big("n260/sparse/hybrid", 1, 260, {"n": 260, "mode": 3, "kind": 4, "deg": 20, "k": 40}, (6, 90)), big("n260/chain/hybrid", 1, 260, {"n": 260, "mode": 3, "kind": 1, "k": 0, "chain": 257}, (5, 60)), big("n130/forbidden256/classic", 0, 130, {"n": 130, "mode": 3, "kind": 1, "k": 0, "exact": 256}, (4, 40)), big("n40/forbidden512/hybrid", 1, 40, {"n": 40, "mode": 3, "kind": 1, "k": 0, "exact": 512}, (3, 30))])

prop("C08", bounds="up to 4 elements with 4 operations after 2 insertions, 5 elements with 3 operations after 4 insertions, and 3 symbolic operations on queues of 9, 17, 33 and 129 elements, 1 or 2 on queues of 300 and 513 (including queues thinned by cuts), every value symbolic; always drained at the end", outside="more symbolic operations",
  jobs=[se("n4/4ops", "c08", 0, 4, {"n": 4, "ops": 4}, (8, 60)), se("n5/first4/3ops", "c08", 0, 4, {"n": 5, "first": 4, "ops": 3}, (12, 60)),
        se("q9/3ops", "c08", 0, 4, {"n": 0, "base": 9, "ext": 1, "ops": 3}, (15, 60)), se("q17/desc/3ops", "c08", 0, 4, {"n": 1, "base": 17, "ext": 1, "ops": 3, "desc": 1}, (10, 200)),
        se("thinned33/2ops", "c08", 0, 4, {"n": 0, "base": 33, "thin": 1, "ops": 2}, (8, 60)), se("thinned129/2ops", "c08", 0, 4, {"n": 0, "base": 129, "thin": 1, "ops": 2}, (6, 60)),
        se("q300/desc/2ops", "c08", 0, 4, {"n": 1, "base": 300, "ext": 1, "ops": 2, "desc": 1}, (6, 60)), se("thinned513/1op", "c08", 0, 4, {"n": 0, "base": 513, "thin": 1, "ops": 1}, (6, 60)),
        se("n5/6ops", "c08", 0, 4, {"n": 5, "ops": 6}, (10, 250), thorough_only=True)])

prop("C15", bounds="4 and 5 cities with every weight symbolic (the minimum 1-tree of every weighting), every special city; every 1-tree of 5 and 6 cities, roads added in both orders and orientations; 1-trees of 40, 130 and 260 cities with a cycle of any of 8 lengths, 3 shapes and 4 orders of their roads", outside="other 1-trees of more cities",
  jobs=[se("n4/minimum", "c15", 0, 4, {"n": 4}, (8, 60)), se("n5/minimum", "c15", 0, 5, {"n": 5}, (10, 60)), se("n5/all/flipped", "c15", 0, 7, {"n": 5, "mode": 1, "flip": 1}, (15, 60)), se("n6/all", "c15", 0, 6, {"n": 6, "mode": 1}, (15, 60)),
        se("n6/minimum", "c15", 0, 6, {"n": 6, "cands": 1}, (8, 200), thorough_only=True), se("n7/all", "c15", 0, 7, {"n": 7, "mode": 1}, (8, 200), thorough_only=True),
        big("n40of44/classic", 0, 44, {"n": 40, "mode": 11, "sym": 0, "nb": 12}, (5, 30)), big("n130/hybrid", 1, 130, {"n": 130, "mode": 11, "sym": 0, "nb": 8}, (5, 30)), big("n260/classic", 0, 260, {"n": 260, "mode": 11, "sym": 0, "nb": 3}, (5, 30))])

prop("C20", bounds="reports of whole runs (as for C01) and of every tour of 3 to 5 cities with every first road, direction and orientation of its roads, every solution type, special city, interruption flag, counters at small and extreme values, cost and probability symbolic", outside="more than 5 cities in the synthetic reports, 260 in whole runs",
  jobs=[se("report/n3", "c20", 0, 3, {"n": 3}, (5, 20)), se("report/n4", "c20", 1, 6, {"n": 4}, (6, 20)), se("report/n5", "c20", 0, 5, {"n": 5, "full": 0}, (8, 30))] + searches(4) + programs(4))

prop("C10", bounds="graphs of 24, 130 and 260 cities with 1 or 2 symbolic weights (random, tied and sorted); 4 cities with every weight and probability symbolic (all 6 roads); 4 cities with every assignment of 2 symbolic weights and 2 symbolic probabilities to the roads (equal weights); 5 cities with 2 symbolic weights over all 10 roads; 4 cities with any 5 roads' weights among 3; sorted once and twice", outside="more cities; more than 3 distinct values when weights are equal",
  jobs=[se("n4/distinct", "c10", 0, 4, {"n": 4}, (6, 20)), se("n4/2-weights/hybrid", "c10", 1, 4, {"n": 4, "classes": 2}, (8, 90)), se("n4/2-weights/classic", "c10", 0, 4, {"n": 4, "classes": 2, "twice": 1}, (6, 30)),
        se("n4/2-weights/2-probs", "c10", 1, 4, {"n": 4, "classes": 2, "pclasses": 2}, (10, 60)), se("n5/2-weights/classic", "c10", 0, 5, {"n": 5, "m": 10, "classes": 2}, (8, 60)), se("n4of5/3-weights/hybrid", "c10", 1, 5, {"n": 4, "m": 5, "classes": 3}, (8, 120)),
        big("n24/hybrid", 1, 24, {"n": 24, "mode": 1, "sym": 2, "nb": 2}, (6, 60)), big("n130/classic", 0, 130, {"n": 130, "mode": 1, "miss": 300}, (8, 60)), big("n260/ties/hybrid", 1, 260, {"n": 260, "mode": 1, "kind": 1}, (8, 90)), big("n260of280/sorted/classic", 0, 280, {"n": 260, "mode": 1, "kind": 3}, (8, 90))])
prop("C11", bounds="Euclidean graphs of 130 and 260 cities with one symbolic coordinate; lists of 4 cities with every set of roads in both orientations and orders, weights and probabilities symbolic (capacity 4 and 6); Euclidean graphs of 2 to 4 cities with every coordinate symbolic and of 5 cities with two moving", outside="more cities",
  jobs=[se("lists/n4", "c11", 0, 4, {"n": 4}, (8, 30)), se("lists/n4of6", "c11", 1, 6, {"n": 4}, (8, 30)), se("euclidean/n2", "c11", 0, 4, {"n": 2, "mode": 1}, (4, 20)), se("euclidean/n3", "c11", 0, 4, {"n": 3, "mode": 1}, (6, 20)), se("euclidean/n4", "c11", 1, 4, {"n": 4, "mode": 1}, (8, 90)), se("euclidean/n5", "c11", 0, 5, {"n": 5, "mode": 1, "fixed": 3}, (6, 30)), big("euclidean/n130/hybrid", 1, 150, {"n": 130, "mode": 6}, (5, 30)), big("euclidean/n260/classic", 0, 260, {"n": 260, "mode": 6}, (6, 30))])
prop("C12", bounds="files of 24 and 260 cities with up to 6 symbolic distances and 2000 missing roads; files of 2 to 5 cities (capacity 4 to 6), every coordinate, distance (present or missing) and probability symbolic, the diagonal, trailing separators and final newline varied, both modes; every position of 7 kinds of malformed entry, superfluous rows, entries and cities", outside="more cities; other malformations",
  jobs=[se("n4/%s" % m, "c12", h, 4, {"n": 4}, (5, 20)) for h, m in MODES] + [se("n4of6/%s" % m, "c12", h, 6, {"n": 4}, (5, 20)) for h, m in MODES] +
       [se("n2of5/hybrid", "c12", 1, 5, {"n": 2}, (5, 20)), se("n3of5/classic", "c12", 0, 5, {"n": 3}, (5, 20)), se("n5/hybrid", "c12", 1, 5, {"n": 5, "neg": 0}, (5, 20)), se("n4/defective/classic", "c12", 0, 4, {"n": 4, "concrete": 1, "bad": 1}, (5, 20)), se("n4of5/defective/hybrid", "c12", 1, 5, {"n": 4, "concrete": 1, "bad": 1}, (5, 20)),
        big("n260/classic", 0, 260, {"n": 260, "mode": 4, "sym": 4, "miss": 2000}, (5, 20)), big("n260of270/hybrid", 1, 270, {"n": 260, "mode": 4, "sym": 3}, (5, 20)), big("n24/hybrid", 1, 26, {"n": 24, "mode": 4, "sym": 6, "miss": 60, "nb": 4}, (4, 20)),
        se("n6/hybrid", "c12", 1, 6, {"n": 6, "neg": 0}, (5, 60), thorough_only=True), se("n5/missing/classic", "c12", 0, 5, {"n": 5}, (5, 60), thorough_only=True)])
prop("C13", bounds="files of 24 and 260 cities with one symbolic coordinate; files of 2, 3 and 5 cities with 4 to 6 (5 cities: 2) symbolic coordinates in [-1,1] or [-1000,1000], both spacings, city numberings, header orders and endings; every position of 6 malformed lines, 7 other weight types, one city beyond the capacity", outside="more cities with symbolic coordinates",
  jobs=[se("n2of4", "c13", 0, 4, {"n": 2}, (4, 20)), se("n3of6", "c13", 0, 6, {"n": 3}, (6, 30)), se("n3/range1000", "c13", 0, 4, {"n": 3, "fixed": 1, "range": 1000}, (6, 30)), se("n5/range1000", "c13", 0, 5, {"n": 5, "fixed": 4, "range": 1000}, (6, 30)), se("n4of5/defective", "c13", 0, 5, {"n": 4, "bad": 1}, (6, 30)), big("n24", 0, 30, {"n": 24, "mode": 5}, (4, 20)), big("n260", 0, 260, {"n": 260, "mode": 5}, (6, 30))])
prop("C14", bounds="4 cities with every weight (and probability) symbolic; 5 cities with every weight symbolic, or 2 weights and 2 probabilities symbolic around 16 fixed instances with up to 2 missing roads; instances of 40, 130 and 260 cities with 2 or 3 symbolic weights and any of 6 starts", outside="other instances of more cities; scenarios not marked complete are explored within the time budget",
  jobs=[se("n4/classic", "c14", 0, 4, {"n": 4}, (6, 20)), se("n4/missing/classic", "c14", 0, 5, {"n": 4, "miss": 3}, (6, 20)), se("n4/hybrid", "c14", 1, 4, {"n": 4}, (10, 90)), se("n5/2-roads/hybrid", "c14", 1, 6, {"n": 5, "base": 1, "step": 1, "nb": 16, "sym": 2, "sp": 2, "miss": 2}, (10, 90)), se("n5/classic", "c14", 0, 5, {"n": 5}, (10, 200)),
        big("n40/ties/sparse/hybrid", 1, 40, {"n": 40, "mode": 12, "kind": 1, "sym": 2, "nb": 4, "deg": 12}, (5, 30)), big("n130of150/missing/hybrid", 1, 150, {"n": 130, "mode": 12, "kind": 7, "sym": 3, "nb": 3, "miss": 200}, (6, 30)), big("n260/classic", 0, 260, {"n": 260, "mode": 12, "kind": 7, "sym": 3, "nb": 2}, (6, 30))])
prop("C16", bounds="4 cities with every weight (and 2 probabilities) symbolic; 5 and 6 cities with 1 or 2 weights (and 1 or 2 probabilities) symbolic around families of instances; 40, 150 and 260 cities with 2 symbolic weights (and 1 probability), missing roads excepted", outside="other instances of more cities; incomplete ones",
  jobs=[se("n4/classic", "c16", 0, 4, {"n": 4}, (6, 20)), se("n4/hybrid", "c16", 1, 4, {"n": 4, "sp": 2}, (12, 60)), se("n5/hybrid", "c16", 1, 6, {"n": 5, "base": 4, "step": 4, "nb": 16, "sym": 1, "sp": 2}, (8, 60)), se("n5/classic", "c16", 0, 5, {"n": 5, "base": 1, "step": 2, "nb": 8, "sym": 2}, (8, 60)), se("n6of7/classic", "c16", 0, 7, {"n": 6, "sym": 1, "base": 3, "nb": 32}, (8, 60)), se("n6of7/hybrid", "c16", 1, 7, {"n": 6, "sym": 1, "base": 1, "step": 4, "nb": 16, "sp": 1}, (8, 60)),
        big("n40/euclidean/classic", 0, 40, {"n": 40, "mode": 10, "kind": 4, "out": 31, "sym": 2, "nb": 4}, (6, 60)), big("n150of160/hybrid", 1, 160, {"n": 150, "mode": 10, "kind": 7, "out": 140, "sym": 2, "nb": 3}, (6, 60)), big("n260/potentials/classic", 0, 260, {"n": 260, "mode": 10, "kind": 5, "out": 258, "sym": 2, "nb": 2}, (6, 60))])

prop("C17", bounds="preference: every pair of doubles with one bound and one probability 0 (bit-precise), and over the reals; the place of both children among 3 and 5 open nodes in any order, with every bound and probability symbolic, both modes; among 300 open nodes of fixed bounds and probabilities; whole searches of 5 to 7 cities with 1 symbolic road around families of instances, which must equal a search that always opens the front of the queue", outside="other longer queues; rounding of the difference of two non-zero bounds",
  jobs=[bmc("cbmc/prefer/classic", "prefer", 0, 4, 3, (60, 100)), bmc("cbmc/prefer/hybrid", "prefer", 1, 4, 3, (60, 100)),
        se("places/classic", "c17", 0, 4, {"n": 4}, (4, 10)), se("places/hybrid", "c17", 1, 4, {"n": 4, "at": 2}, (4, 10)), se("places300/classic", "c17", 0, 4, {"n": 4, "open": 300, "fixed": 1}, (5, 10)), se("places300/hybrid", "c17", 1, 4, {"n": 4, "open": 300, "fixed": 1, "at": 2}, (5, 10)), se("places5/hybrid", "c17", 1, 5, {"n": 4, "open": 5, "at": 5}, (5, 30)),
        se("front/n5/hybrid", "c17", 1, 5, {"mode": 1, "n": 5, "base": 3, "sym": 1, "sp": 1, "nb": 12, "step": 4}, (6, 60)), se("front/n6/classic", "c17", 0, 6, {"mode": 1, "n": 6, "base": 3, "nb": 20, "step": 4}, (6, 60)), se("front/n7of8/hybrid", "c17", 1, 8, {"mode": 1, "n": 7, "base": 1, "nb": 16, "step": 1}, (6, 60)), se("front/n7/classic", "c17", 0, 7, {"mode": 1, "n": 7, "base": 3, "nb": 16, "step": 4}, (6, 60))])
prop("C19", bounds="the limit test: every start and clock reading of up to 10000 s elapsed (bit-precise; the second between 600 and 601 is left open, the limit counts whole seconds); whole runs of 5 to 7 cities with 1 symbolic road around families of instances, the clock jumping past the limit (by 1 s, 1 h, 46 days) or to just below it at any of up to 200 readings, from two starting values", outside="more than one jump; larger instances",
  jobs=[bmc("cbmc/limit", "limit", 1, 4, 3, (60, 100)), se("n5/classic", "c19", 0, 5, {"n": 5, "readings": 40}, (5, 30)), se("n6of7/hybrid", "c19", 1, 7, {"n": 6, "readings": 100, "base": 3, "nb": 4, "step": 4}, (12, 90)), se("n7/classic", "c19", 0, 7, {"n": 7, "readings": 60, "base": 3, "nb": 6, "step": 4, "every": 3}, (12, 90)), se("n6/random/hybrid", "c19", 1, 6, {"n": 6, "readings": 30, "base": 1, "nb": 4, "step": 2, "every": 2, "sp": 1}, (8, 60))])
BND = dict(symsan=["-fsanitize=bounds", "-fsanitize-trap=bounds"], native="asan", mem=1)      # array bounds, heap blocks
UNI = dict(native="msan", ichk=True, extra=["--poison", "1"], mem=1)                          # use of unset values
def memory(name, harness, hybrid, mx, params, budget, kinds="bu", **kw):
    return ([se("bounds/" + name, harness, hybrid, mx, params, budget, **BND, **kw)] if "b" in kinds else []) + ([se("unset/" + name, harness, hybrid, mx, params, budget, **UNI, **kw)] if "u" in kinds else [])
C22 = (memory("search/n5/classic", "search", 0, 5, {"n": 5, "sym": 1, "base": 3, "check": 36, "nb": 10, "step": 4, "miss": 3}, (4, 60))
    + memory("search/n6of8/hybrid", "search", 1, 8, {"n": 6, "sym": 1, "sp": 1, "base": 3, "check": 36, "nb": 20, "step": 4}, (4, 60))
    + memory("search/n7/classic", "search", 0, 7, {"n": 7, "sym": 1, "base": 3, "check": 36, "nb": 10, "step": 4}, (3, 60))
    + memory("node/n5/k3/hybrid", "node", 1, 5, {"n": 5, "k": 3, "base": 1, "step": 2, "nb": 8, "sym": 1, "infer": 0, "check": 7}, (4, 60))
    + memory("node/n6/k4/classic", "node", 0, 6, {"n": 6, "k": 4, "base": 3, "step": 4, "nb": 4, "sym": 1, "check": 7}, (4, 60))
    + memory("program/n4/classic", "main", 0, 4, {"n": 4, "base": 3, "step": 4, "nb": 4, "sym": 2, "miss": 2, "check": 4}, (3, 30))
    + memory("program/n5of7/hybrid", "main", 1, 7, {"n": 5, "base": 3, "step": 4, "nb": 4, "sym": 1, "sp": 1, "miss": 2, "check": 4}, (3, 30))
    + memory("csv/n4/hybrid", "c12", 1, 4, {"n": 4}, (3, 20)) + memory("csv/n3of5/classic", "c12", 0, 5, {"n": 3}, (3, 20))
    + memory("csv/defective/hybrid", "c12", 1, 4, {"n": 4, "concrete": 1, "bad": 1}, (3, 20)) + memory("csv/defective/n4of5", "c12", 0, 5, {"n": 4, "concrete": 1, "bad": 1}, (3, 20))
    + memory("tsplib/n2of4", "c13", 0, 4, {"n": 2}, (3, 20)) + memory("tsplib/defective", "c13", 0, 5, {"n": 4, "bad": 1}, (3, 20))
    + memory("heap/n5", "c08", 0, 4, {"n": 5, "first": 4, "ops": 2}, (3, 30)) + memory("heap/thinned257", "c08", 0, 4, {"n": 0, "base": 257, "thin": 1, "ops": 1}, (3, 30))
    + memory("sort/n4", "c10", 1, 5, {"n": 4, "classes": 2, "pclasses": 2}, (3, 30)) + memory("euclidean/n3of4", "c11", 0, 4, {"n": 3, "mode": 1}, (3, 20)) + memory("lists/n4", "c11", 1, 4, {"n": 4}, (3, 20))
    + memory("trees/n4/sparse", "c07", 0, 4, {"n": 4, "sparse": 1}, (3, 30))
    + memory("big/search/n10/hybrid", "big", 1, 10, {"n": 10, "mode": 7, "kind": 1, "nb": 8, "check": 14}, (4, 60)) + memory("big/search/n40of44/classic", "big", 0, 44, {"n": 40, "mode": 7, "kind": 5, "nb": 4, "miss": 40, "check": 14}, (4, 60)) + memory("big/search/n130/hybrid", "big", 1, 130, {"n": 130, "mode": 7, "kind": 5, "check": 14}, (6, 90), "b")
    + memory("big/trees/n24", "big", 1, 24, {"n": 24, "mode": 3, "k": 6}, (3, 60), externals=REL[:2], defs=["RELAX"]) + memory("big/csv/n260", "big", 0, 260, {"n": 260, "mode": 4, "miss": 2000}, (4, 60)) + memory("big/tsplib/n260", "big", 0, 260, {"n": 260, "mode": 5}, (4, 60)) + memory("big/euclidean/n260", "big", 0, 260, {"n": 260, "mode": 6}, (4, 60), "b") + memory("big/sort/n260", "big", 1, 260, {"n": 260, "mode": 1, "kind": 1}, (5, 60)))
prop("C22", bounds="every scenario with array bounds and heap blocks checked, and again with the use of unset values tracked (numbers, and integers where they decide something or are printed): whole searches and programs of 4 to 7 cities (capacity up to 8, up to 3 missing roads), single nodes with up to 4 constrained roads, reading of well-formed and defective files, the queue up to 257 elements, sorting, graph building, spanning trees; searches of 10, 40 and 130 cities, 1-trees of 24, files and sorting of 260 cities", outside="array overruns inside one structure made through a pointer (only the array's own indexing is checked); the larger instances only around few concrete ones; integers that are only copied", budget={"quick": 260, "thorough": 820}, jobs=C22)

def py(name, harness, params=None, budget=(20, 120), **kw): return dict(kind="py", name=name, harness=harness, params=params or {}, budget=budget, **kw)
PYOUT = "effects of single precision inside torch; more cities, lines or instances than stated; the operating system, torch, the plotting and statistics libraries, CMake and the solver's process are stand-ins that record what they are given"
prop("C23", bounds="classic: instances of 2 to 5 cities, one line, every coordinate in [-1,1]; hybrid: instances of 2 to 4 cities for networks of the same size, every coordinate and every probability in [0,1]; the written text is read as the solver's reader does, sample runs by the natively built reader itself", outside=PYOUT,
  jobs=[py("classic/n4", "h_front", {"n": 4, "lines": 1, "matrix": 1}), py("classic/n5", "h_front", {"n": 5, "lines": 1, "matrix": 1}), py("classic/n2", "h_front", {"n": 2, "lines": 1, "matrix": 1}),
        py("hybrid/n3", "h_main", {"n": 3, "m": 3}), py("hybrid/n2", "h_main", {"n": 2, "m": 2}), py("hybrid/n3/any", "h_main", {"n": 3, "m": 3, "cities": "any"}), py("hybrid/n4", "h_main", {"n": 4, "m": 4}, (40, 200)), py("writer/n3of3", "h_main", {"mode": "direct", "n": 3, "m": 3})])
prop("C24", bounds="2 cities in a network of 4 and 5, 3 in 5, 4 in a network of 3 and 3 in 2; every coordinate in [0,1] (no two cities share an x coordinate), every probability, every random draw (up to 6), every choice of medoids", outside=PYOUT,
  jobs=[py("n2in4", "h_main", {"n": 2, "m": 4}), py("n2in5", "h_main", {"n": 2, "m": 5}, (40, 300)), py("n3in5", "h_main", {"n": 3, "m": 5}, (40, 300)), py("n2in6/fixed", "h_main", {"n": 2, "m": 6, "probs": "fixed"}, (25, 200)), py("n3in8/fixed", "h_main", {"n": 3, "m": 8, "probs": "fixed"}, (30, 200)), py("n5in20/fixed", "h_main", {"n": 5, "m": 20, "probs": "fixed", "draws": 20}, (30, 200)), py("n4in3", "h_main", {"n": 4, "m": 3}, (40, 200)), py("n3in2", "h_main", {"n": 3, "m": 2}),
        py("writer/n2in4", "h_main", {"mode": "direct", "n": 2, "m": 4}), py("writer/n2in5", "h_main", {"mode": "direct", "n": 2, "m": 5}), py("writer/n3in5", "h_main", {"mode": "direct", "n": 3, "m": 5}, (30, 200))])
prop("C25", bounds="files of 3 lines of 2 or 3 cities (and of 12 lines, the requests around the tenth), every coordinate in [-1,1], every request from instance 0..4 to 1..5 (with and without a first one), every number of cities from 2 to 200, four line endings, with and without a final newline, both modes, the build failing, the network failing on the second instance", outside=PYOUT,
  jobs=[py("classic", "h_front", {"n": 2}), py("hybrid", "h_front", {"n": 2, "hybrid": 1}, (40, 120)), py("hybrid/faults", "h_front", {"n": 2, "hybrid": 1, "faults": 1}, (60, 200)), py("classic/faults", "h_front", {"n": 3, "faults": 1}, (40, 120)), py("lines12", "h_front", {"n": 2, "lines": 12, "flo": 8, "fhi": 11, "llo": 9, "tails": 1}, (30, 120)), py("lines12/hybrid", "h_front", {"n": 2, "lines": 12, "flo": 9, "fhi": 10, "llo": 10, "tails": 1, "hybrid": 1}, (30, 120))])
prop("C26", bounds="files of 2 to 5 coordinate lines, every coordinate in [-1000,1000], three separators, four endings, indented or not; one file and all files of a folder; the weight matrix of a general TSPLIB problem of 3 cities", outside=PYOUT,
  jobs=[py("n%d" % n, "h_conv", {"n": n}) for n in (2, 3, 4, 5)] + [py("n3/indent", "h_conv", {"n": 3, "indent": 1}), py("n3/all", "h_conv", {"n": 3, "all": 1}), py("tsplib/n3", "h_conv", {"n": 3, "tsplib": 1}), py("tsplib/n4/diag", "h_conv", {"n": 4, "tsplib": 1, "diag": 1})])
prop("C27", bounds="every tour of 3 to 5 cities, every symmetric matrix with entries in [0,100] (with and without a diagonal); every list of up to 4 integers in [-1,n] for n up to 4; batches of 2 or 3 different tours of 3 to 5 cities, each with its own matrix; neighbour ranks on 3 and 4 cities with different distances", outside=PYOUT,
  jobs=[py("n%d" % n, "h_tour", {"n": n}) for n in (3, 4, 5)] + [py("n4/diag", "h_tour", {"n": 4, "diag": 1})] + [py("valid/n%d/%d" % (n, l), "h_tour", {"n": n, "valid": 1, "len": l}) for n, l in ((3, 3), (3, 2), (3, 4), (4, 4), (2, 2))]
   + [py("means/n3", "h_tour", {"n": 3, "mode": "batches"}), py("means/n4", "h_tour", {"n": 4, "mode": "batches"}), py("means/n5/3-tours", "h_tour", {"n": 5, "mode": "batches", "batch": 3}), py("rank/n3", "h_tour", {"n": 3, "mode": "neighbours"}), py("rank/n4", "h_tour", {"n": 4, "mode": "neighbours"}, (30, 300))])
prop("C28", bounds="lines of 3 and 4 cities, every tour, every coordinate in [0,1], three line endings, 1 to 3 lines in batches of 1 and 2, all neighbours or the 1 or 2 nearest (cities then differ in x by 0.01)", outside=PYOUT,
  jobs=[py("n3", "h_reader", {"n": 3}), py("n4", "h_reader", {"n": 4}), py("n3/3-lines", "h_reader", {"n": 3, "lines": 3}), py("n3/2-lines/batch2", "h_reader", {"n": 3, "lines": 2, "batch": 2}), py("n3/1-neighbour", "h_reader", {"n": 3, "neighbours": 1}, (40, 200)), py("n4/2-neighbours", "h_reader", {"n": 4, "neighbours": 2}, (40, 300))])
prop("C29", bounds="1 or 2 instances, of one of which the other solver may have no report (and 14, of which one or ten are not resolved and one is symbolic) in both modes, reports of every closing type, interrupted and without a tour, in the form the solver really prints them; every digit of every number is symbolic (1, 2 or 4 digits before and 6 or 7 after the point)", outside=PYOUT + "; times below 0.0001 s printed with an exponent; the tables pandas lays out, in which numbers are rounded",
  jobs=[py("one/hybrid", "h_analyzer", {"inst": 1, "free": ["h0"], "lengths": 3}, (30, 60)), py("one/classic", "h_analyzer", {"inst": 1, "free": ["c0"], "lengths": 3}, (30, 60)), py("two/hybrid", "h_analyzer", {"inst": 2, "free": ["h0"]}, (40, 100)), py("two/classic", "h_analyzer", {"inst": 2, "free": ["c1"]}, (40, 100)), py("three/hybrid-unsolved", "h_analyzer", {"inst": 3, "free": ["h2"], "kinds": ["interrupted"]}, (40, 100)), py("three/classic-unsolved", "h_analyzer", {"inst": 3, "free": ["c1"], "kinds": ["interrupted"]}, (40, 100)), py("fourteen/hybrid", "h_analyzer", {"inst": 14, "free": ["h5"], "plain": 1, "idle": "hybrid", "kinds": ["NN", "interrupted", "no tour"]}, (40, 100)), py("fourteen/classic", "h_analyzer", {"inst": 14, "free": ["c4"], "plain": 1, "idle": "classic", "kinds": ["1TREE", "interrupted"]}, (40, 100)), py("two/both", "h_analyzer", {"inst": 2, "free": ["h1", "c0"]}, (40, 300), thorough_only=True), py("two/no-classic", "h_analyzer", {"inst": 2, "free": ["h0"], "drop": ["c1"]}, (30, 60)), py("two/no-hybrid", "h_analyzer", {"inst": 2, "free": ["c1"], "drop": ["h0"]}, (30, 60))])
prop("C30", bounds="instances of 2 and 3 cities, alone or followed by 1 or 2 other lines, every reading order of the file, every coordinate, every answer of the network", outside=PYOUT + "; what the trained network computes (it is a stand-in that may answer anything)",
  jobs=[py("n3/alone", "h_main", {"n": 3, "m": 3}), py("n3/3-lines", "h_main", {"mode": "choice", "n": 3, "lines": 3}), py("n2/2-lines", "h_main", {"mode": "choice", "n": 2, "lines": 2}), py("n4/2-lines", "h_main", {"mode": "choice", "n": 4, "lines": 2})])
prop("C33", bounds="2 to 7 cities (8 in the thorough tier); the decision variables are unbounded reals/Booleans as declared, the costs are any numbers in 0..1000 when the objective is compared", outside="more cities; what CPLEX does with the model; the printing block; self loops x[i][i], which the model leaves free",
  jobs=[py("n%d" % n, "opl", {"n": n}, (60, 200), thorough_only=n > 7) for n in (2, 3, 4, 5, 6, 7, 8)])
prop("C34", bounds="1 or 2 instances in both modes (or one of the two in one mode only), up to 2 improvements each, every time and value symbolic (1 digit before, 1 or 2 after the point), every order of the times, resolved or interrupted; 20 cities", outside=PYOUT,
  jobs=[py("one", "h_analyzer", {"mode": "profile", "inst": 1}, (40, 60)), py("one/2-updates", "h_analyzer", {"mode": "profile", "inst": 1, "updates": 2, "free": ["h0"]}, (50, 200)), py("one/2-updates/classic", "h_analyzer", {"mode": "profile", "inst": 1, "updates": 2, "free": ["c0"]}, (50, 200)), py("two", "h_analyzer", {"mode": "profile", "inst": 2, "free": []}, (50, 400)), py("two/free", "h_analyzer", {"mode": "profile", "inst": 2, "free": ["h1"]}, (50, 600)),
  py("two/no-classic", "h_analyzer", {"mode": "profile", "inst": 2, "free": ["h0"], "drop": ["c1"]}, (40, 200)), py("two/no-hybrid", "h_analyzer", {"mode": "profile", "inst": 2, "free": ["c0"], "drop": ["h0"]}, (40, 200))])
prop("C35", bounds="results of all six sizes, one row of one size symbolic at a time (means and intervals in [0,1000], significance in [0,1])", outside=PYOUT + "; significances within 0.00001 of 0.05",
  jobs=[py("fixed", "h_analyzer", {"mode": "tables"})] + [py("%s/%d" % (k, s), "h_analyzer", {"mode": "tables", "key": k, "size": s, "file": f}) for k, s, f in (("total_time", 0, "exact_table.tex"), ("time_bb", 1, "exact_table.tex"), ("time_to_best", 2, "heur_table.tex"), ("total_tree_level", 0, "heur_table.tex"), ("best_level", 1, "heur_table.tex"), ("generate_bbnodes", 2, "exact_table.tex"), ("explored_bbnodes", 0, "exact_table.tex"), ("bbnodes_before_best", 1, "exact_table.tex"), ("prob_best", 2, "heur_table.tex"))])

TENS = "; tensors are a stand-in with the shapes, views and broadcasting of torch and exact real numbers (whole numbers divide as in the documented version 0.4.1)"
prop("C31", bounds="probabilities: 3 cities with 1 to 3 places in the beam, 4 cities with 1 and (within the time budget) 2 places, every matrix with entries in [0.001,0.999], or logarithms that are 0 or in [-100,-1e-7]; given probabilities with room for every tour and every distance matrix; random and fixed starts, batches of 1 and 2; ties broken any way among symbolic scores, first or last among equal constants", outside=PYOUT + TENS + "; underflow of products of probabilities in single precision", jobs=[
  py("n3/beam1", "h_beam", {"n": 3, "beam": 1}), py("n3/beam2", "h_beam", {"n": 3, "beam": 2}), py("n3/beam3", "h_beam", {"n": 3, "beam": 3}, (25, 60)), py("n4/beam1", "h_beam", {"n": 4, "beam": 1}), py("n5/beam1", "h_beam", {"n": 5, "beam": 1}, (40, 120)), py("n4/beam2", "h_beam", {"n": 4, "beam": 2}, (30, 600)),
  py("n3/beam2/logits", "h_beam", {"n": 3, "beam": 2, "type": "logits"}), py("n4/beam1/logits", "h_beam", {"n": 4, "beam": 1, "type": "logits"}), py("n4/beam2/logits", "h_beam", {"n": 4, "beam": 2, "type": "logits"}, (30, 600)),
  py("n3/beam2/random", "h_beam", {"n": 3, "beam": 2, "random": 1}, (40, 120)), py("n3/batch2", "h_beam", {"n": 3, "beam": 2, "batch": 2}, (30, 300)), py("n4/beam6/fixed", "h_beam", {"n": 4, "beam": 6, "probs": "fixed", "ties": 0}),
  py("shortest/n3/beam2", "h_beam", {"n": 3, "beam": 2, "mode": "shortest"}), py("shortest/n3/beam2/logits", "h_beam", {"n": 3, "beam": 2, "mode": "shortest", "type": "logits"}), py("shortest/n3/beam4/fixed", "h_beam", {"n": 3, "beam": 4, "mode": "shortest", "probs": "fixed"}, (30, 60)),
  py("shortest/n4/beam3/fixed", "h_beam", {"n": 4, "beam": 3, "mode": "shortest", "probs": "fixed"}, (30, 60)), py("shortest/n4/beam6/fixed", "h_beam", {"n": 4, "beam": 6, "mode": "shortest", "probs": "fixed", "ties": 0}), py("shortest/n4/batch2/fixed", "h_beam", {"n": 4, "beam": 4, "batch": 2, "mode": "shortest", "probs": "fixed", "ties": 0}, (30, 60)), py("shortest/n4/beam8/logits/fixed", "h_beam", {"n": 4, "beam": 8, "mode": "shortest", "probs": "fixed", "type": "logits", "ties": 0}, (30, 60)), py("shortest/n5/beam8/fixed", "h_beam", {"n": 5, "beam": 8, "mode": "shortest", "probs": "fixed", "ties": 0}, (40, 120))])
GCNB = "networks of 1 to 3 layers with 2 to 4 features, 3 to 5 cities, batches of 1 and 2; every weight in [-2,2], every coordinate, distance, neighbourhood mark and target; sigmoid, relu, exponential, logarithm, square root and reciprocal are arbitrary functions of their argument (equal arguments give equal values), linear layers give one value per argument"
prop("C32", bounds=GCNB + "; an exchange of two cities and a rotation of all, which generate every relabelling", outside=PYOUT + TENS + "; larger networks (the code does the same for every feature, layer and city)", jobs=[
  py("%s/n%d/h%d/l%d/%s" % (p, n, h, l, a), "h_gcn", {"perm": p, "n": n, "h": h, "layers": l, "agg": a, "mlp": m}, (40, 120)) for p in ("swap", "cycle") for n, h, l, a, m in ((3, 2, 2, "mean", 2), (4, 4, 3, "mean", 3), (3, 2, 2, "sum", 1))] + [
  py("batch2/all", "h_gcn", {"batch": 2, "perm": "cycle"}), py("batch2/second", "h_gcn", {"batch": 2, "only": 1}), py("n5", "h_gcn", {"n": 5, "h": 4, "layers": 3, "perm": "cycle"}, (60, 120)), py("directions/n3", "h_gcn", {"what": "directions"}), py("directions/n4", "h_gcn", {"what": "directions", "n": 4, "h": 4, "layers": 3, "agg": "sum"}, (40, 120)), py("directions/batch2", "h_gcn", {"what": "directions", "batch": 2})])
prop("C36", bounds=GCNB + " (one layer: linear layers exactly)", outside=PYOUT + TENS + "; training", jobs=[
  py("n3/h2/l2", "h_gcnref", {}), py("n3/h2/l1/exact", "h_gcnref", {"cut": 0, "layers": 1}), py("n3/h2/l1/exact/sum", "h_gcnref", {"cut": 0, "layers": 1, "agg": "sum"}), py("n3/h4/l2/batch2", "h_gcnref", {"h": 4, "mlp": 3, "batch": 2}, (40, 120)), py("n4/h4/l3", "h_gcnref", {"n": 4, "h": 4, "layers": 3, "agg": "sum"}, (40, 120)), py("n2/h2/mlp1", "h_gcnref", {"n": 2, "mlp": 1}), py("city-loss/n3", "h_gcnref", {"what": "nodes"})])
prop("C37", bounds="batches of 1 and 2 predictions over 3 and 4 cities, up to 9 roads with any probability (0.01 or more from a tie), any neighbourhood marks on up to 6 of them", outside=PYOUT + TENS, jobs=[
  py("n3", "h_error", {}), py("n3/batch2", "h_error", {"batch": 2, "free": 6, "sparse": 1}), py("n3/batch2/allroads", "h_error", {"batch": 2, "free": 7, "allroads": 1}), py("n4", "h_error", {"n": 4, "free": 8}, (30, 100)), py("n4/batch2", "h_error", {"n": 4, "free": 9, "batch": 2}, (30, 100))])
prop("C38", bounds="2 generated instances of 3 to 5 cities, every coordinate and every tour found for the first; files of up to 4 lines split at every place from 0 to beyond the end, with and without a final newline; 2 solved instances of 3 or 4 cities, every coordinate, tour, time and number of nodes", outside=PYOUT + "; the reference solver Concorde and the scale its distances are given in", jobs=[
  py("generate/n3", "h_data", {"mode": "generate", "n": 3}), py("generate/n4", "h_data", {"mode": "generate", "n": 4}), py("generate/n5", "h_data", {"mode": "generate", "n": 5, "samples": 1}), py("generate/named", "h_data", {"mode": "generate", "n": 3, "named": 1, "samples": 3}),
  py("split", "h_data", {"mode": "split"}), py("split/1-line", "h_data", {"mode": "split", "lines": 1, "n": 7}), py("solve/n3", "h_data", {"mode": "solve", "n": 3}), py("solve/n4", "h_data", {"mode": "solve", "n": 4, "freetours": 1}), py("solve/3-lines", "h_data", {"mode": "solve", "n": 3, "samples": 3, "freetours": 1})])
prop("C39", bounds="1 to 3 figures of 1 to 3 instances of 3 or 4 cities: every place and distance, every probability of up to 6 roads (0.001 or more from a quarter), every tour, up to 2 roads given to the network or not, the instances drawn in any choice", outside=PYOUT + "; colours other than red and sizes", jobs=[
  py("heat/n3", "h_plot", {"beam": 0, "batch": 1, "plots": 1, "free": 6, "sparse": 0, "tours": 0}, (30, 60)), py("tours/n3", "h_plot", {"free": 1, "sparse": 1}, (40, 120)), py("tours/n4", "h_plot", {"n": 4, "batch": 1, "plots": 1, "free": 0, "sparse": 0}, (40, 60)), py("n4/free", "h_plot", {"n": 4, "plots": 1, "tours": 0, "free": 5}, (40, 60)), py("n3/3-figures", "h_plot", {"batch": 3, "plots": 3, "free": 1, "sparse": 0}, (40, 60)), py("predictions/n3", "h_plot", {"beam": 0, "free": 1, "sparse": 1, "tours": 0}, (30, 60))])
prop("C40", bounds="three parameters with defaults and one without, each in the file or not, every number as value; any one of them set and deleted, as attribute or as item", outside=PYOUT + "; the JSON syntax (the standard library reads it)", jobs=[py("settings", "h_conf", {})])
