# a small torch for the demonstrations (tens.py and engine.py, on plain numbers)
import sys, os, random; sys.dont_write_bytecode = True; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np, tens, engine
ROOT = os.getcwd(); NN = ROOT + "/src/HybridSolver/main/graph-convnet-tsp"; R = random.Random(5)
class VF:
    symbolic = False
    def real(s, name, lo, hi): return R.uniform(float(lo), float(hi))
    def choose(s, n): return R.randrange(n)
    def assume(s, *a): pass
lib = tens.Lib(VF()); TT = tens.TT; sys.modules.update(lib.modules()); T = lib.torch; sys.path.insert(0, NN)
from types import ModuleType
for m in ("matplotlib", "matplotlib.pyplot", "networkx"): sys.modules.setdefault(m, ModuleType(m))
def ok(c, msg):
    if not c: print("FAIL:", msg); sys.exit(1)
def arr(f, *sh):
    a = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh): a[i] = f(i)
    return a
