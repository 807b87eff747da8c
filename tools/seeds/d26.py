from pyd import *
import converter_tsp_to_dat as C
def run(c, head="NODE_COORD_SECTION\n", end="EOF\n"):
    open(T + "/a.tsp", "w").write("NAME: a\nTYPE: TSP\nDIMENSION: %d\nEDGE_WEIGHT_TYPE: EUC_2D\n" % len(c) + head + "".join("%d %s %s\n" % (i + 1, x, y) for i, (x, y) in enumerate(c)) + end)
    C.convert_custom_euclidean(T + "/a.tsp", T + "/a.dat"); t = open(T + "/a.dat").read(); n, m = t.split("Cost=")
    ok(int(n.split("=")[1].strip().rstrip(";")) == len(c), "number of cities")
    rows = [[float(x) for x in r.split(",")] for r in m.strip().rstrip(";").strip()[1:-1].replace("[", "").split("]") if r.strip()]
    ok(len(rows) == len(c) and all(len(r) == len(c) for r in rows), "shape")
    for i in range(len(c)):
        for j in range(len(c)): ok(near(rows[i][j], dist(c[i], c[j])), "distance %d %d" % (i, j))
run([(0.1, 0.2), (0.5, 0.7), (3, 4)]); run([(0, 0), (1, 1), (0, 0), (-2, 5.5)]); run([(1, 1)] * 3); run([(-1.5, 2), (1.5, -2)]); run([(5, 3), (5, 9), (2, 3), (2, 9)])
