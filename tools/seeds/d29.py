from pyd import *
import analyzer as A
def rep(ty, cost, prob, level, no, tto, el, gen, exp, maxl, intr, total, ups=(), pre=""):
    return pre + "".join("Updated best value: %f, at time: %f\n" % u for u in ups) + ("\nBest solution found: \n\nSUBPROBLEM with cost = %f, type = %s, level of the BB tree = %d, prob_tour = %f, BBNode number = %d and time to obtain = %fs\n" % (cost, ty, level, prob, no, tto)
        + "\nBranch-and-Bound1Tree elapsed time = %fs, max tree level = %d, generated BBNodes = %d, explored BBNodes = %d, interrupted = %s\n" % (el, maxl, gen, exp, "TRUE" if intr else "FALSE")
        + "\nCycle with 3 edges of %f cost\n\nNodes: \n\t0 : 0.1 0.2\n\nTime taken: %ss\n" % (cost, total))
T4 = ["CLOSED_1TREE", "CLOSED_NEAREST_NEIGHBOR", "CLOSED_NEAREST_NEIGHBOR_HYBRID", "CLOSED_SUBGRADIENT"]
def run(rs):
    d = tempfile.mkdtemp(dir=T)
    for i, r in rs.items(): open(d + "/tsp_result_%d.txt" % i, "w").write(rep(**r))
    open(d + "/mean_results.txt", "w").write("x"); s = A.read_values(d); done = {i: r for i, r in rs.items() if not r["intr"]}
    ok(s["not_resolved"] == sorted(set(rs) - set(done)), "unresolved instances")
    for k, f in dict(time_bb="el", total_time="total", time_to_best="tto", generate_bbnodes="gen", explored_bbnodes="exp", total_tree_level="maxl", best_level="level", prob_best="prob", bbnodes_before_best="no", best_value="cost").items():
        ok(set(s[k]) == set(done) and all(near(s[k][i], float(done[i][f]), 1e-5) for i in done), "%s: %s" % (k, s[k]))
    ok(near(float(s["resolved"][:-1]), round(100 * len(done) / len(rs), 2), 1e-3), "resolved " + s["resolved"])
    for k, t in dict(num_closed_nn=1, num_closed_nnHybrid=2, num_closed_1Tree=0, num_closed_subgradient=3).items():
        if done: ok(near(float(s[k][:-1]), round(100 * sum(r["ty"] == T4[t] for r in done.values()) / len(done), 2), 1e-3), k + " " + s[k])
    for i, r in rs.items():
        o = float(r["total"]) - r["el"]; w = [(a, o + b) for a, b in r.get("ups", ())] or [(r["cost"], o + r["tto"])]; g = s["partial_solutions"][i]
        ok(bool(g[0]) != bool(r["intr"]) and len(g[1]) == len(w) and all(near(a[0], b[0], 1e-5) and near(a[1], b[1], 1e-5) for a, b in zip(g[1], w)), "solutions of %d: %s" % (i, g))
R = lambda **k: dict(dict(ty=T4[0], cost=3.25, prob=0.75, level=4, no=17, tto=0.5, el=1.25, gen=40, exp=22, maxl=9, intr=0, total="2.5"), **k)
run({1: R()}); run({3: R(ty=T4[1], ups=[(4.5, 0.1), (3.25, 0.5)]), 12: R(ty=T4[2], prob=-1.0, level=0, no=0), 2: R(ty=T4[3], total="1234.0625")})
run({1: R(cost=5.0), 2: R(intr=1, ups=[(9.125, 0.0)]), 7: R(cost=12345.5, gen=1000000, exp=1), 100: R(intr=1)})
run({5: R(ty=t, total="3.0", cost=0.5, prob=0.0, el=0.0, tto=0.0, gen=1, exp=0, maxl=0, level=0, no=0) for t in T4[:1]}); run({i: R(ty=T4[i % 4], total="%d.5" % (i + 2), tto=i / 8, prob=-0.5 if i % 2 else 0.25) for i in range(1, 9)})
import random
d = {i: 1.0 + i for i in range(1, 9)}; e = {i: 2.0 + i * i / 2 for i in range(2, 11)}; s = A.significance_test(d, e); both = sorted(set(d) & set(e)); h = np.array([d[i] for i in both]); c = np.array([e[i] for i in both])
ok(near(s["hyb_mean"], h.mean()) and near(s["cla_mean"], c.mean()) and near(s["hyb_conf_int"], 1.96 * h.std() / len(both) ** .5) and near(s["cla_conf_int"], 1.96 * c.std() / len(both) ** .5), "means and intervals")
