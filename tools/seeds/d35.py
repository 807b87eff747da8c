from pyd import *
import analyzer as A, random, re
os.chdir(T); r = random.Random(5)
KEYS = dict(total_time="Total time", time_bb="BB time", time_to_best="Time to Best", total_tree_level="BB tree depth", best_level="Depth of the best", generate_bbnodes="Generated", explored_bbnodes="Explored", bbnodes_before_best="BB nodes before best")
def run(seed, tie=False):
    r.seed(seed); V = {}
    for n in (20, 50, 100, 35, 75, 150):
        os.makedirs("mean_results/%d_nodes" % n, exist_ok=True); v = V[n] = {}
        txt = "    Hybrid Mean  Hybrid Int  Classic Mean  Classic Int P-val\n"
        for name, k in (("Resolved Instances", "res"), ("Closed NN", "nn"), ("Closed NN Hybrid", "pnn"), ("Closed 1Tree", "one"), ("Closed Subgradient", "sub")):
            v[k] = (round(r.uniform(0, 100), 2), round(r.uniform(0, 100), 2)); txt += "%s   %s%%  0  %s%%  0  -\n" % (name, *v[k])
        for k in list(KEYS)[:3] + ["generate_bbnodes", "explored_bbnodes", "bbnodes_before_best", "total_tree_level", "best_level", "prob_best", "best_value"]:
            m = round(r.uniform(1, 500), 3); v[k] = (m, round(r.uniform(0, 30), 3), m if tie and r.random() < 0.5 else round(r.uniform(1, 500), 3), round(r.uniform(0, 30), 3), r.choice([0.001, 0.04, 0.06, 0.8])); txt += "%s  %s  %s  %s  %s  %s\n" % (k, *v[k])
        txt += "\nNot resolved 0 instances for hybrid: []\n\nNot resolved 1 instances for classic: [3]\n\n      H_mean_generated\nLog values  1.5\nOriginal values 33\n"
        open("mean_results/%d_nodes/mean_results.txt" % n, "w").write(txt)
    A.create_tables(); num = lambda t: float(re.sub(r"[^0-9.]", "", re.sub(r"\\[a-z]+", "", t)) or "nan")
    for f, ns in (("exact_table.tex", (20, 50, 100)), ("heur_table.tex", (35, 75, 150))):
        rows = [l.replace("\\\\", "").split("&") for l in open("mean_results/" + f).read().splitlines() if "&" in l]; row = lambda s: [x.strip() for x in next(x for x in rows if s in x[0])[1:]]
        head = [num(x.split("=")[-1]) for x in rows[0][1:]]; ok(head == list(ns), "sizes of %s: %s" % (f, head))
        for i, n in enumerate(ns):
            v = V[n]
            for s, k in (("Instances solved", "res"), ("with NN", "nn")): x = row(s); ok(num(x[4 * i]) == v[k][1] and num(x[4 * i + 2]) == v[k][0], "%s of %d: %s, not %s" % (s, n, x[4 * i:4 * i + 4], v[k]))
            ok(num(row("with PNN")[4 * i + 2]) == v["pnn"][0], "PNN of %d" % n)
            for k, s in KEYS.items():
                x = row(s)[4 * i:4 * i + 4]; h, hs, c, cs, p = [round(z, 2) for z in v[k]]
                ok([num(z) for z in x] == [c, cs, h, hs], "%s of %d in %s: %s, not %s" % (s, n, f, x, v[k]))
                ok(("textbf" in x[0]) == (c < h) and ("textbf" in x[2]) == (h < c), "%s of %d: the better mean is bold: %s" % (s, n, x))
                ok(("underline" in x[0]) == (c < h and p < 0.05) and ("underline" in x[2]) == (h < c and p < 0.05), "%s of %d: significant means are underlined" % (s, n))
            x = row("frac")[4 * i:4 * i + 4]; ok([num(x[2]), num(x[3])] == [round(v["prob_best"][0], 2), round(v["prob_best"][1], 2)], "probability of the best in %d: %s" % (n, x))
for s in range(6): run(s, s % 2)
