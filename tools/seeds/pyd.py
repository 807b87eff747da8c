# helper of the Python demonstrations: loads the programs of the current directory (a checkout); libraries that are not installed are mocks
import sys, os, tempfile, math
from unittest.mock import MagicMock
sys.dont_write_bytecode = True; import numpy as np, scipy.stats, scipy.spatial.distance
ROOT = os.getcwd(); MAIN = ROOT + "/src/HybridSolver/main"; NN = MAIN + "/graph-convnet-tsp"; RES = ROOT + "/src/HybridSolver/results/AdjacencyMatrix"
for m in ("torch torch.nn torch.nn.functional torch.autograd sklearn sklearn.utils sklearn.utils.class_weight sklearn_extra sklearn_extra.cluster matplotlib matplotlib.pyplot "
          "matplotlib.cm matplotlib.colors seaborn pandas tsplib95 models models.gcn_model utils.plot_utils").split(): sys.modules[m] = MagicMock()
sys.modules["sklearn.utils"].shuffle = lambda x: list(x)
sys.path[:0] = [NN, MAIN, RES, ROOT + "/src/CplexSolver/Data/TSPLIB"]

T = tempfile.mkdtemp()
sys.modules["torch"].Tensor = type("Tensor", (), {})
import atexit, shutil; atexit.register(shutil.rmtree, T, True)
class Tensor:
    def __init__(s, a): s.a = np.asarray(a); s.shape = s.a.shape
    def flatten(s): return Tensor(s.a.flatten())
    def numpy(s): return s.a
    def tolist(s): return s.a.tolist()
    def cpu(s): return s
def dist(p, q): return math.hypot(p[0] - q[0], p[1] - q[1])
def matrix(path):
    l = open(path).read().splitlines(); f = lambda t: [tuple(map(float, x.strip()[1:-1].split(","))) for x in t.split(";") if x.strip()]
    return f(l[0]), [f(x) for x in l[1:] if x.strip()]
def near(a, b, e=1e-6): return abs(a - b) <= e * max(1, abs(b))
def ok(c, msg):
    if not c: print("FAIL:", msg); sys.exit(1)
