"""C25 and the classic half of C23: the front end HybridSolver.py, run as a program; the sub-programs are recorded, not started."""
import numpy as np
from common import *
REL = "src/HybridSolver/main/HybridSolver.py"

def harness(vf, w):
    K, L = vf.p("n", 2), vf.p("lines", 3); hybrid = bool(vf.p("hybrid", 0))
    C = [[[vf.real("x%d_%d" % (l, i), -1, 1), vf.real("y%d_%d" % (l, i), -1, 1)] for i in range(K)] for l in range(L)]
    if vf.p("matrix"):       # C23: the number of cities is the instance's, one instance
        form, num = (1, 1), K
    else:
        a, b = vf.int("first", vf.p("flo", 0), vf.p("fhi", L + 1)), vf.int("last", vf.p("llo", 1), L + 2); vf.assume(a <= b)
        form = (a, b) if vf.choose(2) else (None, b)
        if form[0] is None: vf.assume(a == vf.p("flo", 0))
        num = vf.int("num_nodes", 2, 200)
    tail = [output(K), output(K).replace(" 1\n", " 1 \n"), "\n", " \n"][vf.choose(vf.p("tails", 4))]; last = vf.choose(2)
    text = "".join(line(c, tail) for c in C)
    if last: text = text[:-1]
    stop = vf.choose(4) if vf.p("faults") else 0      # 1: the build fails, 2: the network program fails on the second instance, 3: the result folders are made by another process meanwhile
    cwd = "/work/main"; w.fs.cwd = cwd; w.fs.makedirs(cwd + "/graph-convnet-tsp/data/hyb_tsp")
    src = cwd + "/graph-convnet-tsp/data/hyb_tsp/test_%s_nodes.txt" % num
    w.fs.files[src] = text
    other = cwd + "/graph-convnet-tsp/data/hyb_tsp/test_%s_nodes.txt" % 999
    w.fs.files[other] = "9 9 9 9 output 1 2 1\n"
    solved, nets, built = [], [], []
    def call(cmd, at):
        if cmd[0] in ("cmake", "make"):
            if stop == 1: return 2
            if cmd[0] == "cmake" and any(str(c).startswith("-D") for c in cmd): built.append([str(c) for c in cmd])
            elif cmd[0] == "make" or "--build" in cmd: built.append([str(c) for c in cmd])
            return 0
        if "python" in str(cmd[0]):
            tmp = w.fs.norm(at + "/data/hyb_tsp/test_%s_nodes_temp.txt" % num)
            nets.append((cmd, at, w.fs.files.get(tmp)))
            if stop == 2 and len(nets) == 2: return 1
            w.fs.files[w.fs.norm(cmd[2])] = "written by the network for run %d" % len(nets); return 0
        solved.append((cmd, w.fs.files.get(w.fs.norm(cmd[1])), len(nets), len(built)))
        w.fs.files[w.fs.norm(cmd[2])] = "REPORT\n"; return 0
    w.on_call = call; w.fs.race = stop == 3
    err = vf.fails(w.main, REL, ["--range_instances", str(form[1]) if form[0] is None else "%s-%s" % form, "--num_nodes", str(num)] + (["--hybrid"] if hybrid else []))
    import operator; lo, hi = 1 if form[0] is None else max(1, operator.index(form[0])), operator.index(form[1]); want = list(range(lo, min(hi, L) + 1))
    if stop == 1:
        vf.check(err is not None, "a build that fails is reported as an error"); vf.check(not solved, "nothing is solved when the build fails"); vf.cover("build fails"); return
    if stop == 2 and hybrid and len(want) > 1:
        want = want[:1]; vf.check(err is not None, "a network run that fails is reported as an error")
    elif hi > L: vf.check(err is not None, "a request beyond the end of the file is refused with an error")
    else: vf.check(err is None, "the requested instances are solved without an error (%s)" % err)
    vf.check(len(solved) == len(want), "exactly the requested instances are solved")
    if not want: vf.cover("refused"); return
    # the build
    opts = {}
    for b in built:
        for o in b:
            if o.startswith("-D") and "=" in o: opts[o[2:].split("=")[0].split(":")[0]] = o.split("=", 1)[1]
            elif o.startswith("-B") and len(o) > 2: opts["-B"] = o[2:]
    vf.check("MAX_VERTEX_NUM" in opts and "HYBRID" in opts, "the solver is built with a capacity and a mode")
    cap = w.builtins["int"](opts["MAX_VERTEX_NUM"]); vf.eq(cap, num, "the solver is built with the capacity of the instances")
    vf.check(opts["HYBRID"] == ("1" if hybrid else "0"), "the solver is built in the mode asked for")
    vf.check(all(s[3] > 0 for s in solved), "the solver is built before it is run")
    mode = "hybrid" if hybrid else "classic"
    for k, i in enumerate(want):
        cmd, matrix, runs, _ = solved[k]; c = C[i - 1]
        vf.check(len(cmd) == 3, "the solver is given an input and an output file")
        if "-B" in opts: vf.check(w.fs.norm(cmd[0]).startswith(w.fs.norm(opts["-B"]) + "/"), "the program that is run is the one that was built")
        out = w.fs.norm(cmd[2])
        vf.check(out == "/work/results/AdjacencyMatrix/tsp_%s_nodes_%s/tsp_result_%d.txt" % (num, mode, i), "the result goes to the result file of the instance and mode")
        vf.check(matrix is not None, "the solver is given a matrix file that exists")
        if hybrid:
            ncmd, at, tmp = nets[k]
            vf.check(runs == k + 1, "the network is run before the solver, once for each instance")
            vf.check(matrix == "written by the network for run %d" % (k + 1), "the solver reads the matrix the network wrote for this instance")
            vf.check(at == cwd + "/graph-convnet-tsp" and w.fs.norm(ncmd[1]) == at + "/main.py", "the network program is run in its folder")
            n2, size = w.builtins["int"](ncmd[3]), w.builtins["int"](ncmd[4])
            vf.eq(n2, num, "the network program is told the number of cities")
            if vf.symbolic:
                e = num.e; ref = SNum(z3.If(e <= 20, 20, z3.If(e <= 50, 50, 100))); vf.eq(size, ref, "the smallest network that has room is used, or the largest one")
            else: vf.check(size == (20 if num <= 20 else 50 if num <= 50 else 100), "the smallest network that has room is used, or the largest one")
            vf.check(tmp is not None, "the network program finds the instance")
            got = coords(w, tmp)
        else:
            vf.check(not nets, "the network is not run in classic mode")
            got, rows = parse_csv(w, matrix)
            if rows is None: vf.check(False, "the solver's reader refuses the file: " + got); return
            if vf.p("matrix"): check_matrix(vf, w, matrix, c, lambda a, b: 0.0, tol=1e-9)
        vf.check(len(got) == K, "the instance has all its cities")
        for a in range(K):
            for t in (0, 1): vf.eq(got[a][t], c[a][t], "each instance is solved on the coordinates of its own line")
        rep = w.fs.files[out]
        vf.check(rep.startswith("REPORT\n"), "the solver's report is kept")
        listed = [l.split(":")[1].split() for l in rep[7:].split("\n") if l.startswith("\t") and ":" in l]
        vf.check(len(listed) == K, "the report lists the cities of the instance")
        for a in range(K):
            for t in (0, 1): vf.eq(fl(w, listed[a][t]), c[a][t], "the report lists the cities of the instance")
        vf.check("Time taken: " in rep, "the report ends with the time taken")
    vf.check(w.fs.files[src] == text, "the instance file is left as it was")
    if stop != 2 and hi <= L: vf.check(not [f for f in w.fs.files if f.endswith("_temp.txt")], "no temporary instance is left behind")
    vf.cover("%s %d-%d" % (mode, lo, hi))

def coords(w, text):
    t = text.split("\n")[0].split(" output")[0].strip().split(" ")
    return [(fl(w, t[i]), fl(w, t[i + 1])) for i in range(0, len(t) - 1, 2)]
