import sys, os, itertools
sys.dont_write_bytecode = True; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import opl, z3
m = opl.load(os.getcwd())
for n in (3, 4, 5):
    V = {}
    def look(nm, ix, d): return V.setdefault("%s%s" % (nm, list(ix)), z3.Real("%s%s" % (nm, list(ix))))
    e = opl.Eval(m, n, look); f = opl.conj(e.constraints())
    for p in itertools.permutations(range(1, n + 1)):        # every way to leave and enter each city once
        if any(p[i] == i + 1 for i in range(n)): continue
        s = z3.Solver(); s.add(f); [s.add(look(e.x, (i, j), None) == (1 if p[i - 1] == j else 0)) for i in range(1, n + 1) for j in range(1, n + 1)]
        k, at = 1, p[0]
        while at != 1: at = p[at - 1]; k += 1
        if (s.check() == z3.sat) != (k == n): print("FAIL: %s is %s a solution" % (p, "not" if k == n else "wrongly")); sys.exit(1)
