from pyd import *
import analyzer as A
def run(H, C, n):
    A.pd.DataFrame.reset_mock(); A.performance_profiles(H, C, n, T); imp, cum = [c[0][0] for c in A.pd.DataFrame.call_args_list][:2]; tol = 0.00127 * n ** .5
    best = lambda s, t: min([v for v, z in s[1] if z <= t], default=math.inf)
    ts = sorted({z for D in (H, C) for s in D.values() for _, z in s[1]}); ok(list(imp["Time"]) == ts, "times of the improvements")
    for k, t in enumerate(ts):
        h = sum(best(H[i], t) < best(C[i], t) and not best(C[i], t) - best(H[i], t) < tol for i in H); c = sum(best(C[i], t) < best(H[i], t) and not best(H[i], t) - best(C[i], t) < tol for i in H)
        ok(near(imp["Hybrid"][k], h / len(H)) and near(imp["Classic"][k], c / len(H)), "shares with a better solution at %s: %s %s, not %s %s" % (t, imp["Hybrid"][k], imp["Classic"][k], h / len(H), c / len(H)))
    both = set(H) & set(C); ends = lambda D: [D[i][1][-1][1] for i in both if D[i][0]]; ts = sorted(set(ends(H) + ends(C))); ok(list(cum["Time"]) == ts, "times of the last solutions: %s" % (cum["Time"],))
    for k, t in enumerate(ts): ok(near(cum["Hybrid"][k], sum(z <= t for z in ends(H)) / len(both)) and near(cum["Classic"][k], sum(z <= t for z in ends(C)) / len(both)), "solved shares at %s" % t)
H = {1: (1, [(5.0, 0.5), (4.0, 1.5)]), 2: (1, [(7.0, 0.25)]), 3: (0, [(9.0, 0.75), (8.5, 3.0)])}
C = {1: (1, [(4.5, 0.5), (4.0, 2.5)]), 2: (0, [(7.003, 0.5), (6.0, 3.5)]), 3: (1, [(8.5, 1.0)])}
run(H, C, 20); run(C, H, 20); run(H, H, 50); run({1: H[1]}, {1: C[1]}, 100); run({1: H[1], 2: H[3]}, {1: C[2], 2: C[3]}, 20)
run({1: (1, [(4.0, 1.0)]), 2: (1, [(3.0, 2.0)])}, {1: (1, [(4.0, 1.0)]), 2: (0, [(2.5, 1.0)])}, 20); run({1: (0, [(4.0, 1.0)])}, {1: (0, [(4.006, 2.0)])}, 20)
import d29
