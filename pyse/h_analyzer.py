"""C29, C34, C35: the analyser of the result files, run as a program on reports in the form the solver really prints."""
import os, json, re
from common import *
REL = "src/HybridSolver/results/AdjacencyMatrix/analyzer.py"
MARK = {111.5: "elapsed", 222.5: "cost", 3310: "level", 0.5: "prob", 5510: "id", 666.5: "obtain", 7710: "generated", 8810: "explored", 9910: "depth"}
KEYS = {"total_time": "taken", "time_bb": "elapsed", "time_to_best": "obtain", "generate_bbnodes": "generated", "explored_bbnodes": "explored", "bbnodes_before_best": "id", "total_tree_level": "depth", "best_level": "level", "prob_best": "prob", "best_value": "cost"}

def reports():
    if not os.environ.get("VF_REPORTS"): raise G.Unsupported("the reports could not be made")
    return json.load(open(os.environ["VF_REPORTS"]))
def numeral(vf, name, dec, whole, zeros=0, plain=False):
    if plain:
        import hashlib
        h = "".join(str(int(c, 16) % 9 + 1) for c in hashlib.md5(name.encode()).hexdigest()); return h[:whole] + ("." + h[whole:whole + dec] if dec else "")
    t = "".join(vf.digit("%s_%d" % (name, k), 1 if k == 0 and whole > 1 else 0) for k in range(whole))
    return t + ("." + "".join(vf.digit("%s.%d" % (name, k)) for k in range(dec - zeros)) + "0" * zeros if dec else "")

def report(vf, w, tmpl, tag, whole=2, dec=6, names=(), plain=False):
    """a real report with its numerals replaced by numerals with unknown digits; returns text and numbers"""
    val = {}; seen = {}
    def sub(m):
        k = MARK.get(float(m.group(0)))
        if k is None: return m.group(0)
        d = len(m.group(0).partition(".")[2])
        if k not in seen: seen[k] = numeral(vf, tag + k, d, 1 if k == "prob" else whole, 0 if k in names or not names else max(0, d - 1), plain); val[k] = fl(w, seen[k]) if "." in seen[k] else w.builtins["int"](seen[k])
        return seen[k]
    text = re.sub(r"(?<![\w.])\d+(\.\d+)?", sub, tmpl)
    t = numeral(vf, tag + "taken", dec, whole, dec - 1 if names else 0, plain) if not plain else "95.%d" % int(numeral(vf, tag, 0, 6, 0, True)); val["taken"] = fl(w, t)
    return text, val, "\nNodes: \n\t1 : 0.25 0.5\n\t2 : 0.125 0.75\n\nTime taken: " + t + "s\n"

def table(w, text): return {k: l for l in text.split("\n") for k in [l.split("  ")[0].strip()]}

def harness(vf, w):
    mode = vf.p("mode", "table"); w.fs.cwd = "/work/results/AdjacencyMatrix"; w.fs.makedirs(w.fs.cwd)
    if mode == "tables": return tables(vf, w)
    T = reports(); ids = [2, 10, 1, 11, 3, 20, 4, 12, 100, 5, 13, 7, 6, 14][:vf.p("inst", 2)]; N = vf.p("nodes", 20)
    types = ["NN", "NN_HYBRID", "1TREE", "SUBGRADIENT"]
    R = {}; whole = [2, 1, 4][vf.choose(vf.p("lengths", 1))] if mode == "table" else 1
    for mode2 in ("hybrid", "classic"):
        for k, i in enumerate(ids):
            if "%s%d" % (mode2[0], k) in vf.p("drop", []): continue        # the other solver's report only
            free = "%s%d" % (mode2[0], k) in vf.p("free", ["h0", "c0"])
            if mode == "profile": kind = ["SUBGRADIENT", "interrupted"][vf.choose(2) if free else 0]
            else: ks = vf.p("kinds", types + ["interrupted", "no tour"]); kind = ks[vf.choose(len(ks))] if free else "interrupted" if mode2 == vf.p("idle") and k % 7 else [types, types[:1] + types[2:]][mode2 == "classic"][k % (4 - (mode2 == "classic"))]
            plain = bool(vf.p("plain")) and not free; tag = "%s%d" % (mode2[0], i); text, val, tail = report(vf, w, T[kind], tag, whole, vf.p("dec", 7), ("-",) if mode == "profile" else (), plain)
            vf.assume(val["taken"] >= val["elapsed"]); ups = []
            if T.get("update") and kind != "no tour":
                cnt = vf.p("updates", 0 if mode == "table" else 1) if free else vf.p("updates2", 1); cnt = vf.choose(cnt + 1) if free else cnt; head = ""
                for u in range(cnt):
                    a, b = numeral(vf, "%su%d" % (tag, u), 6, whole, 4, plain), numeral(vf, "%st%d" % (tag, u), 6, whole, 5 if mode == "profile" else 0, plain)
                    ups.append((fl(w, a), fl(w, b))); head += T["update"].replace("<VALUE>", a).replace("<TIME>", b) + "\n"
                    if u: vf.assume(ups[u - 1][1] <= ups[u][1])
                text = head + text
            if not ups: ups = [(val.get("cost", 1.7976931348623157e308), val["obtain"])]
            R[mode2, i] = (kind, val, [(v, val["taken"] - val["elapsed"] + t) for v, t in ups])
            w.fs.files[w.fs.norm("tsp_%d_nodes_%s/tsp_result_%d.txt" % (N, mode2, i))] = text + tail
    err = vf.fails(w.main, REL, ["--num_nodes", str(N)] + (["--perf_prof"] if mode == "profile" else []))
    vf.check(err is None, "the reports the solver writes can be analysed (%s)" % err)
    out = w.fs.norm("mean_results/%d_nodes" % N)
    if mode == "profile": return profile(vf, w, R, ids, N, out)
    text = w.fs.files.get(out + "/mean_results.txt"); vf.check(text is not None, "the table is written")
    rows = table(w, text); ids_ = lambda m: [i for i in ids if (m, i) in R]; solved = lambda m: [i for i in ids_(m) if R[m, i][0] in types]
    for label, ts in (("Resolved Instances", None), ("Closed NN", "NN"), ("Closed NN Hybrid", "NN_HYBRID"), ("Closed 1Tree", "1TREE"), ("Closed Subgradient", "SUBGRADIENT")):
        vf.check(label in rows, "the table has a row: " + label); c = rows[label].split("  ")[1:]
        for m, col in (("hybrid", 0), ("classic", 2)):
            s = solved(m); share = (len(s) / len(ids_(m))) if ts is None else (sum(R[m, i][0] == ts for i in s) / len(s)) if s else 0.0
            vf.check(c[col].endswith("%"), "a share is a percentage"); vf.check(-0.006 <= fl(w, c[col][:-1]) - share * 100 <= 0.006, "the shares are those of the reports: " + label)
    both = [i for i in ids if i in solved("hybrid") and i in solved("classic")]
    for key, q in KEYS.items():
        vf.check(key in rows, "the table has a row: " + key)
        if not both: continue
        c = [fl(w, t) for t in rows[key].split("  ")[1:]]; vf.check(len(c) == 5, "a row has five entries")
        for m, col in (("hybrid", 0), ("classic", 2)):
            v = [R[m, i][1][q] for i in both]; mean = sum(v) / len(v); var = sum((x - mean) * (x - mean) for x in v) / len(v)
            vf.eq(c[col], mean, "the mean is over the instances both solvers resolved: " + key)
            vf.eq(c[col + 1], G.sqrt(var) * 1.96 / len(v)**0.5, "the interval is the 95 %% half-width of those instances: " % () + key)
        hits = [p for n, a, b, p in w.pvalues if n == "wilcoxon" and len(a) == len(both) and pairs(vf, a, b, [(R["hybrid", i][1][q], R["classic", i][1][q]) for i in both])]
        vf.check(bool(hits), "the significance is computed on the pairs of the same instances: " + key)
        if vf.symbolic: vf.check(SNumOr([c[4] == p for p in hits]), "the significance shown is that of the row's pairs: " + key)
        else: vf.check(any(abs(c[4] - p) < 1e-9 for p in hits), "the significance shown is that of the row's pairs: " + key)
    for m in ("hybrid", "classic"):
        un = sorted(i for i in ids_(m) if i not in solved(m)); l = [l for l in text.split("\n") if l.startswith("Not resolved") and m in l]
        vf.check(len(l) == 1 and [int(x) for x in re.findall(r"\d+", l[0])] == [len(un)] + un, "the instances that were not resolved are listed")
    gen = {m: [R[m, i][1]["generated"] for i in solved(m)] for m in ("hybrid", "classic")}
    if gen["hybrid"] and gen["classic"]:
        pts = []
        for m in ("hybrid", "classic"):
            v = gen[m]; mean = sum(v) / len(v); sd = G.sqrt(sum((x - mean) * (x - mean) for x in v) / len(v)); pts += [mean, mean + sd, mean - sd]
        for label in ("Log values", "Original values"):
            vf.check(label in rows, "the curve has a row: " + label); c = [fl(w, t) for t in rows[label].split("  ")[1:]]; vf.check(len(c) == 6, "the curve has six values")
            for k, (g, x) in enumerate(zip(c, pts)):
                if label == "Log values":
                    if k % 3 == 2:
                        if -1e-6 < x < 1e-6: continue
                        if x < 0: x = 1
                    x = w.np.log10(x)
                vf.eq(g, x, "the curve shows the mean of the generated nodes and the standard deviation above and below it: " + label)
    vf.cover("table %s" % sorted(R[k][0] for k in R))

def SNumOr(l):
    import z3
    return G.SBool(z3.Or(*[G.be(x) for x in l]))
def pairs(vf, a, b, want):
    rest = list(want)
    for x, y in zip(a, b):
        k = [j for j, (p, q) in enumerate(rest) if same(vf, x, p) and same(vf, y, q)]
        if not k: return False
        rest.pop(k[0])
    return True

def profile(vf, w, R, ids, N, out):
    ub = N**0.5 * 0.00127; ids = [i for i in ids if ("hybrid", i) in R and ("classic", i) in R]; R = {k: v for k, v in R.items() if k[1] in ids}
    def read(name):
        t = w.fs.files.get(out + "/" + name); vf.check(t is not None, "the profile is written: " + name); l = [x.split(",") for x in t.strip("\n").split("\n")]
        vf.check(l[0] == ["Time", "Hybrid", "Classic"], "the profile has the columns Time, Hybrid and Classic"); return [[fl(w, x) for x in r] for r in l[1:]]
    def le(a, b): return a <= b
    import z3
    B = lambda x: G.be(x)
    imp = read("performance_profile.csv"); ev = [t for k in R for _, t in R[k][2]]
    def times(rows, ev, msg):
        for a, b in zip(rows, rows[1:]): vf.check(a[0] < b[0], msg + "the times are in order, each once")
        for t in ev: vf.check(anyof(vf, [eqn(vf, t, r[0]) for r in rows]), msg + "every time at which a solution was found has a point")
        for r in rows: vf.check(anyof(vf, [eqn(vf, t, r[0]) for t in ev]), msg + "a point is at a time at which a solution was found")
    times(imp, ev, "improvement: ")
    for t, h, c in imp:
        cnt = {"hybrid": 0.0, "classic": 0.0}; near = False      # a tie that the rounding of the floats decides is not judged
        if vf.symbolic:
            for i in ids:
                best = {}
                for m in ("hybrid", "classic"):
                    has, v = z3.BoolVal(False), z3.RealVal(0)
                    for val, tt in R[m, i][2]:
                        c1 = B(tt <= t); has = z3.Or(has, c1); v = z3.If(c1, G.rv(val), v)
                    best[m] = (has, v)
                (h1, v1), (h2, v2) = best["hybrid"], best["classic"]; far = z3.Or(v1 - v2 >= G.rv(ub), v2 - v1 >= G.rv(ub))
                better = {"hybrid": z3.Or(z3.And(h1, z3.Not(h2)), z3.And(h1, h2, far, v1 < v2)), "classic": z3.Or(z3.And(h2, z3.Not(h1)), z3.And(h1, h2, far, v2 < v1))}
                for m in cnt: cnt[m] = cnt[m] + SNum(z3.If(better[m], z3.RealVal(1), z3.RealVal(0)))
        else:
            for i in ids:
                best = {}
                for m in ("hybrid", "classic"):
                    best[m] = None
                    for val, tt in R[m, i][2]:
                        if tt <= t: best[m] = val
                        near |= tt != t and abs(tt - t) < 1e-9
                a, b = best["hybrid"], best["classic"]; near |= a is not None and b is not None and abs(abs(a - b) - ub) < 1e-9
                if a is not None and (b is None or abs(a - b) >= ub and a < b): cnt["hybrid"] += 1
                if b is not None and (a is None or abs(a - b) >= ub and b < a): cnt["classic"] += 1
        if near: continue
        vf.eq(h, cnt["hybrid"] / len(ids), "improvement: the hybrid share counts the instances on which it is ahead at that time"); vf.eq(c, cnt["classic"] / len(ids), "improvement: the classic share counts the instances on which it is ahead at that time")
    cum = read("cumulative_profile.csv"); done = {k: R[k][2][-1][1] for k in R if R[k][0] == "SUBGRADIENT"}
    times(cum, list(done.values()), "cumulative: ")
    for t, h, c in cum:
        for m, got in (("hybrid", h), ("classic", c)):
            if vf.symbolic:
                s = 0.0
                for i in ids:
                    if (m, i) in done: s = s + SNum(z3.If(B(done[m, i] <= t), z3.RealVal(1), z3.RealVal(0)))
            else:
                if any((m, i) in done and done[m, i] != t and abs(done[m, i] - t) < 1e-9 for i in ids): continue
                s = sum((m, i) in done and done[m, i] <= t for i in ids)
            vf.eq(got, s / len(ids), "cumulative: the share counts the instances solved by that time")
    vf.cover("profile %d %d" % (len(imp), len(cum)))
def eqn(vf, a, b): return (a == b) if vf.symbolic else abs(a - b) < 1e-6
def anyof(vf, l): return SNumOr(l) if vf.symbolic else any(l)

ROWS = {"Total time (s)": "total_time", "BB time (s)": "time_bb", "Time to Best (s)": "time_to_best", "BB tree depth": "total_tree_level", "Depth of the best": "best_level", "Generated BB nodes": "generate_bbnodes", "Explored BB nodes": "explored_bbnodes", "BB nodes before best": "bbnodes_before_best"}
def tables(vf, w):
    sizes = {"exact_table.tex": [20, 50, 100], "heur_table.tex": [35, 75, 150]}; V = {}; S = {}
    for f, ns in sizes.items():
        for k, n in enumerate(ns):
            free = f == vf.p("file", "exact_table.tex") and k == vf.p("size", 0); lines = ["Hybrid Mean  Hybrid Int  Classic Mean  Classic Int  P-val for Wilcoxon signed-rank test"]
            for r, label in enumerate(("Resolved Instances", "Closed NN", "Closed NN Hybrid", "Closed 1Tree", "Closed Subgradient")):
                S[n, label] = ("%d.%d%%" % (n % 90 + r, r), "%d.%d%%" % (n % 80 + 2 * r, 9 - r)); lines.append("%s  %s  0  %s  0  -" % (label, *S[n, label]))
            for q, key in enumerate(KEYS):
                if free and (vf.p("key") == key): v = [vf.real("%s%d_%d" % (key, n, t), 0, 1000 if t < 4 else 1) for t in range(5)]
                else: v = [q + n / 7 + t * (1 if (q + n) % 2 else -1) * 0.3 + 5 if t < 4 else 0.5 * (n % 2) for t in range(5)]
                V[n, key] = v; lines.append("  ".join([key] + [str(x) for x in v]))
            w.fs.files[w.fs.norm("mean_results/%d_nodes/mean_results.txt" % n)] = "\n".join(lines) + "\n\nNot resolved 0 instances for hybrid: []\n\nNot resolved 0 instances for classic: []\n\nH_mean_generated  x\nLog values  1.0  1.0\nOriginal values  1.0  1.0"
    vf.assume_ok = True
    err = vf.fails(w.main, REL, ["--num_nodes", "0", "--tab"]); vf.check(err is None, "the tables can be built from the written results (%s)" % err)
    for f, ns in sizes.items():
        t = w.fs.files.get(w.fs.norm("mean_results/" + f)); vf.check(t is not None, "the table is written"); R = {}
        for l in t.replace("\n", " ").split("\\\\"):
            c = [x.strip() for x in l.split("&")]; c[0] = c[0].split("midrule")[-1].strip(); R[c[0]] = c[1:]
        for n in ns: vf.check("$n=%d$" % n in t, "the table names its sizes")
        for label, key in ROWS.items():
            vf.check(label in R and len(R[label]) == 12, "the table has a row: " + label)
            for k, n in enumerate(ns):
                cell = R[label][4 * k:4 * k + 4]; v = V[n, key]; msg = "%s: " % label
                got = [mark(vf, w, x, msg) for x in cell]
                vf.check(got[1][0] == got[3][0] == "std", msg + "the interval stands in the second cell")
                for g, x in ((got[0], v[2]), (got[1], v[3]), (got[2], v[0]), (got[3], v[1])): vf.check(near(vf, g[1], x), msg + "the classic and the hybrid mean and interval stand in their columns, to two decimals")
                a, b = got[0], got[2]         # classic, hybrid
                for g, o in ((a, b), (b, a)):
                    if g[0] == "plain": vf.check(g[1] >= o[1], msg + "the smaller mean is bold")
                    else:
                        vf.check(g[1] < o[1], msg + "only the smaller mean is bold"); vf.check(v[4] < 0.05001 if g[0] == "under" else v[4] >= 0.04999, msg + "a mean is underlined when the difference is significant")
        for label, name, per in (("Instances solved", "Resolved Instances", 1), ("$\\qquad$ with NN", "Closed NN", 1), ("$\\qquad$ with PNN", "Closed NN Hybrid", 0)):
            vf.check(label in R, "the table has a row: " + label); c = [x for x in R[label] if x and x != "-"]
            want = [s.replace("%", "\\%") for n in ns for s in ([S[n, name][1], S[n, name][0]] if per else [S[n, name][0]])]
            vf.check(c == want, "the shares stand in their columns: " + label)
        prob = [r for l, r in R.items() if l.startswith("$\\frac")]; vf.check(len(prob) == 1, "the table has a row for the probability of the best tour")
        c = [x for x in prob[0] if x and x != "-"]; vf.check(len(c) == 6, "the probabilities stand in their columns")
        for k, n in enumerate(ns):
            v = V[n, "prob_best"]
            for g, x in ((mark(vf, w, c[2 * k], "probability: "), v[0]), (mark(vf, w, c[2 * k + 1], "probability: "), v[1])): vf.check(near(vf, g[1], x), "the hybrid mean probability and its interval stand in their columns, to two decimals")
    vf.cover("tables")
def near(vf, g, x):
    d = g - x; return (d <= 0.00501) & (d >= -0.00501) if isinstance(d, SNum) else abs(d) <= 0.00501
def mark(vf, w, cell, msg):
    for pre, post, kind in (("\\underline{\\textbf{", "}}", "under"), ("\\textbf{", "}", "bold"), ("\\stdf{", "}", "std"), ("", "", "plain")):
        if cell.startswith(pre) and cell.endswith(post):
            try: return kind, fl(w, cell[len(pre):len(cell) - len(post)])
            except ValueError: pass
    vf.check(False, msg + "a cell holds a number, plain, bold or underlined, or an interval"); return "plain", 0.0
