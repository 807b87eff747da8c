"""The surroundings of the Python code while a harness runs it: an in-memory file system, recorded sub-processes, numpy, scipy, torch and
plotting stand-ins, and builtins that understand symbolic numbers. No effect leaves the process."""
import builtins, types, sys, os, posixpath, json, io, math, errno
import numpy as np
import engine as G
from engine import SNum, SBool, Unsupported, isnum
from base import Stub, NoGrad
import tens
from tens import TT as Tensor

class FileSystem:
    race = 0
    def __init__(s, repo): s.files, s.dirs, s.cwd, s.repo, s.log = {}, set(), "/work", repo, []
    def norm(s, p): return posixpath.normpath(posixpath.join(s.cwd, str(p)))
    def exists(s, p): p = s.norm(p); return p in s.files or p in s.dirs or any(f.startswith(p + "/") for f in s.files)
    def isdir(s, p): p = s.norm(p); return p in s.dirs or any(f.startswith(p + "/") for f in s.files)
    def isfile(s, p): return s.norm(p) in s.files
    def listdir(s, p="."):
        p = s.norm(p)
        if not s.isdir(p): raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        return sorted({f[len(p):].lstrip("/").split("/")[0] for f in list(s.files) + list(s.dirs) if f.startswith(p.rstrip("/") + "/")})
    def makedirs(s, p, mode=0o777, exist_ok=False):
        if s.race and not s.exists(p): s.race = 0; s.makedirs(p); s.race = 1       # another process makes the folder first
        if s.exists(p) and not exist_ok: raise FileExistsError(errno.EEXIST, "File exists", p)
        s.dirs.add(s.norm(p))
        q = posixpath.dirname(s.norm(p))
        while q != "/": s.dirs.add(q); q = posixpath.dirname(q)
    def remove(s, p):
        if s.norm(p) not in s.files: raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        del s.files[s.norm(p)]
    def open(s, p, mode="r", *a, **k):
        q = s.norm(p)
        if "b" in mode: raise Unsupported("binary file")
        if mode[0] == "r":
            if q not in s.files: raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        else:
            d = posixpath.dirname(q)
            if not s.isdir(d) and d != s.cwd: raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
            if mode[0] == "x" and q in s.files: raise FileExistsError(errno.EEXIST, "File exists", p)
            if mode[0] in "wx" or q not in s.files: s.files[q] = ""
        return File(s, q, mode)

class File:
    def __init__(s, fs, q, mode):
        s.fs, s.q, s.mode, s.closed, s.name = fs, q, mode, False, q; s.pos = len(fs.files[q]) if mode[0] == "a" else 0
    def _r(s):
        if s.closed: raise ValueError("I/O operation on closed file.")
        if s.mode[0] != "r" and "+" not in s.mode: raise io.UnsupportedOperation("not readable")
    def read(s, n=-1):
        s._r(); t = s.fs.files[s.q][s.pos:] if n is None or n < 0 else s.fs.files[s.q][s.pos:s.pos + n]; s.pos += len(t); return t
    def readline(s):
        s._r(); t = s.fs.files[s.q]; e = t.find("\n", s.pos); e = len(t) if e < 0 else e + 1; r = t[s.pos:e]; s.pos = e; return r
    def readlines(s):
        r = []
        while True:
            l = s.readline()
            if not l: return r
            r.append(l)
    def __iter__(s): return iter(s.readlines())
    def write(s, t):
        if s.closed: raise ValueError("I/O operation on closed file.")
        if s.mode == "r": raise io.UnsupportedOperation("not writable")
        if not isinstance(t, str): raise TypeError("write() argument must be str, not " + type(t).__name__)
        d = s.fs.files[s.q]
        if s.mode[0] == "a": s.pos = len(d)
        s.fs.files[s.q] = d[:s.pos] + str(t) + d[s.pos + len(t):]; s.pos += len(t); return len(t)
    def writelines(s, ls):
        for l in ls: s.write(l)
    def seek(s, p, w=0): s.pos = p if w == 0 else len(s.fs.files[s.q]) + p
    def tell(s): return s.pos
    def truncate(s, n=None): s.fs.files[s.q] = s.fs.files[s.q][:s.pos if n is None else n]
    def flush(s): pass
    def fileno(s): return 99
    def close(s): s.closed = True
    def __enter__(s): return s
    def __exit__(s, *a): s.closed = True

# --- builtins
class _M(type):
    def __instancecheck__(c, o): return isinstance(o, c.base) or isinstance(o, SNum) and o.e.is_int() == (c.base is int)
    def __subclasscheck__(c, o): return issubclass(o, c.base)
    def __eq__(c, o): return o is c.base or type.__eq__(c, o)
    def __hash__(c): return hash(c.base)
def _tok(x): return isinstance(x, str) and G.has_tokens(x)
class XFloat(float, metaclass=_M):
    base = float
    def __new__(c, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1: x = x.reshape(-1)[0]
        if isinstance(x, SBool): x = int(x)
        if isinstance(x, SNum): return G.num(G.rv(x))
        return G.E.parse(x) if _tok(x) else float(x)
class XInt(int, metaclass=_M):
    base = int
    def __new__(c, x=0, *b):
        if isinstance(x, SNum): return x if x.e.is_int() else int(x)
        return G.E.parse(x, True) if _tok(x) else int(x, *b)
def xround(x, nd=None):
    if isinstance(x, SNum): return x.__round__(nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)

# --- numpy
def has_sym(x):
    if isinstance(x, (SNum, SBool)): return True
    if isinstance(x, np.ndarray): return x.dtype == object and any(isinstance(v, (SNum, SBool)) for v in x.flat)
    if isinstance(x, (list, tuple)): return any(has_sym(v) for v in x)
    return False
def has_str(x):
    if isinstance(x, str): return True
    if isinstance(x, np.ndarray): return x.dtype.kind == "U"
    return isinstance(x, (list, tuple)) and any(has_str(v) for v in x)
def deep(x, f):
    if isinstance(x, np.ndarray): x = x.tolist()
    return [deep(v, f) for v in x] if isinstance(x, (list, tuple)) else f(x)
def dt(d): return None if d is None else int if d is XInt else float if d is XFloat else d
def isfl(d): d = dt(d); return d is None or np.dtype(d).kind == "f"
def obj(a): return np.asarray(a).astype(object)

class Linalg(types.ModuleType):
    def norm(s, x, ord=None, axis=None, keepdims=False):
        x = np.asarray(x, dtype=object)
        if keepdims or ord not in (None, 2, 1, np.inf): raise Unsupported("norm")
        def n1(v):
            v = list(v)
            if ord == 1: return sum((abs(a) for a in v), 0.0)
            if ord == np.inf: return max(abs(a) for a in v)
            return G.sqrt(sum((a * a for a in v), 0.0))
        if axis is None: return n1(x.reshape(-1))
        return np.apply_along_axis(lambda v: np.array(n1(v), dtype=object), axis, x)
class NP(types.ModuleType):
    """numpy over object arrays; what is not listed is numpy's own"""
    def __init__(s, vf): super().__init__("numpy"); s.vf = vf; s.linalg = Linalg("numpy.linalg"); s.random = NPRandom(vf)
    def __getattr__(s, n): return getattr(np, n)
    def _fill(s, shape, v, dtype): a = np.empty(shape, dtype=object if isfl(dtype) else dt(dtype)); a.fill(v); return a
    def zeros(s, shape, dtype=None): return s._fill(shape, 0.0 if isfl(dtype) else 0, dtype)
    def ones(s, shape, dtype=None): return s._fill(shape, 1.0 if isfl(dtype) else 1, dtype)
    def empty(s, shape, dtype=None): return s.zeros(shape, dtype)
    def full(s, shape, v, dtype=None): return s._fill(shape, v, dtype if dtype is not None else None if isinstance(v, (float, SNum)) else type(v))
    def zeros_like(s, a, dtype=None): return s.zeros(np.shape(a), dtype)
    def ones_like(s, a, dtype=None): return s.ones(np.shape(a), dtype)
    def eye(s, n, m=None, dtype=None): return obj(np.eye(n, m))
    identity = eye
    def array(s, x, dtype=None, copy=True, ndmin=0):
        if dtype is not None and dt(dtype) is not None and dt(dtype) is not object and np.dtype(dt(dtype)).kind == "U": return np.array(deep(x, str), dtype=dt(dtype))
        if has_sym(x):
            if has_str(x): return np.array(deep(x, str))
            if isinstance(x, np.ndarray): return x.copy()
            return np.array(deep(x, lambda v: v), dtype=object) if isinstance(x, (list, tuple)) else np.array(x, dtype=object)
        a = np.array(x, dtype=dt(dtype))
        return a.astype(object) if a.dtype.kind == "f" else a
    def asarray(s, x, dtype=None): return x if isinstance(x, np.ndarray) and (dtype is None or isfl(dtype) and x.dtype == object) else s.array(x, dtype)
    asanyarray = asarray
    def matrix(s, x): return s.array(x)
    def _el(s, f, x):
        if isinstance(x, np.ndarray):
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape): r[i] = f(x[i])
            return r
        return s._el(f, s.array(x)) if isinstance(x, (list, tuple)) else f(x)
    def sqrt(s, x): return s._el(lambda v: G.sqrt(v) if isinstance(v, SNum) else np.float64(math.sqrt(v)), x)
    def square(s, x): return s._el(lambda v: v * v, x)
    def abs(s, x): return s._el(abs, x)
    absolute = fabs = abs
    def hypot(s, a, b): return s.sqrt(s.asarray(a) * a + s.asarray(b) * b) if isinstance(a, np.ndarray) else G.sqrt(a * a + b * b)
    def power(s, a, b): return a ** b
    def _red(s, f, x, axis=None, keepdims=False, **k):
        x = s.asarray(x)
        if axis is None: return f(list(x.reshape(-1)))
        return np.apply_along_axis(lambda v: np.array(f(list(v)), dtype=object), axis, x)
    def sum(s, x, axis=None, **k): return s._red(lambda v: builtins.sum(v), x, axis)
    def mean(s, x, axis=None, **k): return s._red(lambda v: mean(v), x, axis)
    def max(s, x, axis=None, **k): return s._red(builtins.max, x, axis)
    def min(s, x, axis=None, **k): return s._red(builtins.min, x, axis)
    amax, amin = max, min
    def maximum(s, a, b): return a if a >= b else b
    def minimum(s, a, b): return a if a <= b else b
    def std(s, x, axis=None, **k):
        def f(v):
            if not v: return float("nan")
            m = mean(v); return G.sqrt(builtins.sum((a - m) * (a - m) for a in v) / len(v))
        return s._red(f, x, axis)
    def argsort(s, a, axis=-1, kind=None):
        a = s.asarray(a)
        def f(v): return np.array(sorted(range(len(v)), key=lambda i: Key(v[i])))
        return np.apply_along_axis(f, axis, a)
    def argpartition(s, a, kth, axis=-1): return s.argsort(a, axis)
    def sort(s, a, axis=-1): a = s.asarray(a); return np.apply_along_axis(lambda v: np.array(sorted(v), dtype=object), axis, a)
    def partition(s, a, kth, axis=-1): return s.sort(a, axis)
    def argmin(s, a, axis=None): return s._red(lambda v: builtins.min(range(len(v)), key=lambda i: Key(v[i])), a, axis)
    def argmax(s, a, axis=None): return s._red(lambda v: builtins.max(range(len(v)), key=lambda i: Key(v[i])), a, axis)
    def isclose(s, a, b, rtol=1e-5, atol=1e-8): return abs(a - b) <= atol + rtol * abs(b)
    def array_equal(s, a, b): a, b = s.asarray(a), s.asarray(b); return a.shape == b.shape and all(x == y for x, y in zip(a.flat, b.flat))
    def log10(s, x): return x if isinstance(x, SNum) else np.log10(x)
    def linspace(s, a, b, n=50, dtype=None, **k): r = np.linspace(a, b, n, dtype=dt(dtype), **k); return obj(r) if r.dtype.kind == "f" else r
def mean(v): return builtins.sum(v) / len(v) if len(v) else float("nan")
def _methods():
    """the methods mean, std and var of arrays of symbolic numbers"""
    import numpy._core._methods as M
    def mk(name, f):
        old = getattr(M, name)
        def g(a, axis=None, dtype=None, out=None, *r, **k):
            if getattr(a, "dtype", None) != object: return old(a, axis, dtype, out, *r, **k)
            if axis is None: return f(list(a.reshape(-1)))
            return np.apply_along_axis(lambda v: np.array(f(list(v)), dtype=object), axis, a)
        setattr(M, name, g)
    def var(v):
        m = mean(v); return mean([(a - m) * (a - m) for a in v])
    mk("_mean", mean); mk("_var", var); mk("_std", lambda v: G.sqrt(var(v)))
_methods()
class Key:
    def __init__(s, v): s.v = v
    def __lt__(s, o): return bool(s.v < o.v)
class NPRandom(types.ModuleType):
    """every value the generator could give"""
    def __init__(s, vf): super().__init__("numpy.random"); s.vf = vf; s.n = 0
    def _arr(s, size, f):
        if size is None: return f()
        a = np.empty(size, dtype=object)
        for i in np.ndindex(*np.shape(a)): a[i] = f()
        return a
    def randint(s, lo, hi=None, size=None, dtype=int):
        if hi is None: lo, hi = 0, lo
        def f(): s.n += 1; return s.vf.int("rnd%d" % s.n, lo, hi - 1)
        return s._arr(size, f)
    def choice(s, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, int) else list(a)
        if not replace:
            n = 1 if size is None else int(np.prod(size))
            if n > len(a): raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            r = [a.pop(s.vf.choose(len(a))) for _ in range(n)]; return r[0] if size is None else np.array(r).reshape(size)
        def f(): return a[s.vf.choose(len(a))]
        return s._arr(size, f)
    def uniform(s, lo=0.0, hi=1.0, size=None):
        def f(): s.n += 1; return s.vf.real("rnd%d" % s.n, lo, hi)
        return s._arr(size, f)
    def random(s, size=None): return s.uniform(0.0, 1.0, size)
    def seed(s, *a): pass

# --- torch (the tensors are those of tens.py); the network is whatever the harness supplies
def torch_modules(vf, env):
    """env.network(coords, edges_values) -> probabilities [n][n] is the network"""
    lib = tens.Lib(vf); T, F, nn = lib.torch, lib.F, lib.nn; env.torchlib = lib
    if not vf.symbolic:
        def tens32(kind, dt):
            class K(tens.Kind):
                def __call__(s, a, *r): t = tens.Kind.__call__(s, a, *r); t.a = t.a.astype(dt); return t
            return K(kind)
        T.FloatTensor, T.LongTensor = tens32("f", np.float32), tens32("l", np.int64)
    T.load = lambda *a, **k: env.loaded.append(a[0]) or {"model_state_dict": {}}
    def softmax_of(y, dim, log):
        if y is env.logits and dim in (3, -1) and not log: return env.softmax
        if y is env.logits:     # of something else than the scores of a road: numbers that have nothing to do with them
            env.fresh += 1; r = np.empty(y.a.shape, dtype=object)
            for i in np.ndindex(*r.shape): r[i] = vf.real("soft%d_%s" % (env.fresh, "_".join(map(str, i))), -99 if log else 0, 0 if log else 1)
            return Tensor(r)
        raise Unsupported("softmax of something that is not the network's output")
    if vf.symbolic: lib.softmax_of = softmax_of
    ag = Stub("torch.autograd"); ag.Variable = lambda t, **k: t; T.autograd = ag
    class Net:
        def __init__(s, config, *a): env.built.append(config)
        def eval(s): return s
        def cuda(s): return s
        def to(s, *a): return s
        def load_state_dict(s, d): pass
        def forward(s, x_edges, x_edges_values, x_nodes, x_nodes_coord, y_edges, edge_cw):
            p = env.network(x_nodes_coord.a, x_edges_values.a, x_edges.a)
            q = np.empty(p.shape + (2,), dtype=object)
            q[..., 1] = p; q[..., 0] = 1 - p
            if not vf.symbolic: q = q.astype(np.float32)
            return scores(env, q), None
        __call__ = forward
    gm = Stub("models.gcn_model"); gm.ResidualGatedGCNModel = Net
    return {**lib.modules(), "torch.autograd": ag, "models.gcn_model": gm, "models": Stub("models")}

def scores(env, q):
    """the network's output whose softmax the probabilities are"""
    l = q.copy()
    if not env.vf.symbolic:
        for i in np.ndindex(*l.shape): l[i] = math.log(l[i]) if l[i] > 0 else -1e4
    env.logits, env.softmax = Tensor(l), Tensor(q); return env.logits

class World:
    """Runs files of the repository in these surroundings."""
    def __init__(s, vf, repo):
        s.vf, s.repo = vf, repo; s.fs = FileSystem(repo); s.calls = []; s.on_call = lambda *a: 0; s.loaded = []; s.built = []; s.fresh = 0; s.network = None; s.logits = None
        s.mods = {}; s.search = []; s.time = 0; s.clock = None; s.printed = []; s.funcs = set()
        s.os = Stub("os"); s.path = Stub("os.path")
        for n in ("join", "dirname", "basename", "split", "splitext", "normpath", "isabs", "sep"): setattr(s.path, n, getattr(posixpath, n))
        fs = s.fs
        s.path.exists, s.path.isdir, s.path.isfile, s.path.abspath, s.path.realpath = fs.exists, fs.isdir, fs.isfile, fs.norm, fs.norm
        s.os.path = s.path; s.os.environ = {}; s.os.sep = "/"; s.os.fsync = lambda fd: None
        s.os.makedirs, s.os.remove, s.os.unlink, s.os.listdir, s.os.getcwd = fs.makedirs, fs.remove, fs.remove, fs.listdir, lambda: fs.cwd
        s.os.mkdir = lambda p, mode=0o777: fs.makedirs(p)
        def chdir(p): fs.cwd = fs.norm(p)
        s.os.chdir = chdir
        sp = s.subprocess = Stub("subprocess")
        class CalledProcessError(Exception):
            def __init__(e, rc, cmd, output=None): e.returncode, e.cmd, e.output = rc, cmd, output
        class Done:
            def __init__(e, cmd, rc): e.args, e.returncode, e.stdout, e.stderr = cmd, rc, "", ""
            def check_returncode(e):
                if e.returncode: raise CalledProcessError(e.returncode, e.args)
        def run(cmd, cwd=None, check=False, **k):
            rc = s.on_call(list(cmd), fs.norm(cwd) if cwd else fs.cwd); rc = 0 if rc is None else rc
            if check and rc: raise CalledProcessError(rc, cmd)
            return Done(cmd, rc)
        sp.run = run; sp.CalledProcessError = CalledProcessError; sp.PIPE = -1; sp.DEVNULL = -3; sp.STDOUT = -2
        sp.check_call = lambda cmd, **k: run(cmd, check=True, **k).returncode; sp.call = lambda cmd, **k: run(cmd, **k).returncode
        tm = Stub("time")
        def now(): s.time += 1; return s.clock(s.time) if s.clock else float(s.time)
        tm.time = tm.perf_counter = tm.process_time = tm.monotonic = now; tm.sleep = lambda *a: None
        s.np = NP(vf) if vf.symbolic else np_concrete(vf)
        s.mods.update({"os": s.os, "os.path": s.path, "subprocess": sp, "time": tm, "numpy": s.np})
        s.mods.update(torch_modules(vf, s))
        plt = s.plt = Recorder("matplotlib.pyplot"); mpl = Stub("matplotlib"); mpl.pyplot = plt; mpl.use = lambda *a: None
        s.mods.update({"matplotlib": mpl, "matplotlib.pyplot": plt})
        dist = Stub("scipy.spatial.distance"); dist.pdist, dist.squareform, dist.cdist = s.pdist, s.squareform, s.cdist
        if not vf.symbolic: import scipy.spatial.distance as real; dist.pdist, dist.squareform, dist.cdist = real.pdist, real.squareform, real.cdist
        spm = Stub("scipy"); spa = Stub("scipy.spatial"); spm.spatial = spa; spa.distance = dist
        sparse = Stub("scipy.sparse"); sparse.SparseEfficiencyWarning = Warning
        stats = Recorder("scipy.stats"); spm.stats = stats; spm.sparse = sparse
        s.mods.update({"scipy": spm, "scipy.spatial": spa, "scipy.spatial.distance": dist, "scipy.sparse": sparse, "scipy.stats": stats})
        sku = Stub("sklearn.utils"); sku.shuffle = lambda x, **k: s.shuffle(x)
        cw = Stub("sklearn.utils.class_weight"); cw.compute_class_weight = lambda *a, **k: np.ones(2)
        skl = Stub("sklearn"); skl.utils = sku; sku.class_weight = cw
        s.mods.update({"sklearn": skl, "sklearn.utils": sku, "sklearn.utils.class_weight": cw})
        pd = s.mods["pandas"] = Stub("pandas"); pd.DataFrame = type("DataFrame", (Frame,), {"world": s})
        stats.__dict__["ttest_rel"] = lambda a, b, **k: (0.0, s.pvalue("ttest_rel", a, b)); stats.__dict__["wilcoxon"] = lambda a, b, **k: (0.0, s.pvalue("wilcoxon", a, b)); s.pvalues = []
        s.mods["networkx"] = Recorder("networkx"); s.mods["tsplib95"] = Recorder("tsplib95")
        ske = Stub("sklearn_extra"); skc = Stub("sklearn_extra.cluster"); ske.cluster = skc
        skc.KMedoids = lambda **k: KMedoids(s, **k)
        s.mods.update({"sklearn_extra": ske, "sklearn_extra.cluster": skc})
        s.mods["utils.plot_utils"] = Stub("utils.plot_utils"); s.medoids = None
        if vf.symbolic: import resym; s.mods["re"] = resym.module()
        s.builtins = dict(vars(builtins), __import__=s.imp, open=fs.open, print=lambda *a, **k: s.printed.append(a))
        if vf.symbolic: s.builtins.update(float=XFloat, int=XInt, round=xround)
    def pvalue(s, name, a, b):
        """any significance, remembered with the pairs it is about"""
        a, b = list(a), list(b)
        if len(a) != len(b): raise ValueError("unequal length arrays")
        v = s.vf.real("sig%d" % len(s.pvalues), 0, 1); s.pvalues.append((name, a, b, v)); return v
    def shuffle(s, x):
        x = list(x); r = []
        while x: r.append(x.pop(s.vf.choose(len(x))))
        return r
    def metric(s, name):
        d = {"euclidean": lambda a, b: s.np.linalg.norm(a - b), "sqeuclidean": lambda a, b: builtins.sum((x - y) * (x - y) for x, y in zip(a, b)),
             "cityblock": lambda a, b: builtins.sum(abs(x - y) for x, y in zip(a, b)), "chebyshev": lambda a, b: builtins.max(abs(x - y) for x, y in zip(a, b))}
        if callable(name): return name
        if str(name) not in d: raise Unsupported("metric " + str(name))
        return d[name]
    def pdist(s, x, metric="euclidean"):
        x = s.np.asarray(x); f = s.metric(metric)
        return np.array([f(x[i], x[j]) for i in range(len(x)) for j in range(i + 1, len(x))], dtype=object)
    def cdist(s, x, y, metric="euclidean"):
        x, y = s.np.asarray(x), s.np.asarray(y); f = s.metric(metric)
        return np.array([[f(a, b) for b in y] for a in x], dtype=object)
    def squareform(s, v):
        n = int(round((1 + math.sqrt(1 + 8 * len(v))) / 2)); m = s.np.zeros((n, n)); k = 0
        for i in range(n):
            for j in range(i + 1, n): m[i][j] = m[j][i] = v[k]; k += 1
        return m
    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if name not in s.mods:
            for d in s.search:
                f = os.path.join(d, name.replace(".", "/") + ".py")
                if os.path.exists(os.path.join(s.repo, f)): s.load(f, name); break
        if name in s.mods:
            if fromlist or "." not in name: return s.mods[name]
            return s.mods.get(name.split(".")[0]) or s.mods[name]
        if name in ("sys", "re", "argparse", "pprint", "json", "math", "warnings", "errno", "itertools", "functools", "collections", "copy", "random", "typing", "__future__", "operator", "bisect", "heapq", "string", "shlex", "datetime", "decimal", "statistics", "pathlib", "contextlib"):
            if name in ("pathlib", "random"): raise Unsupported("import of " + name)
            return builtins.__import__(name, globals, locals, fromlist, level)
        if name.startswith(("numpy._core", "numpy.lib", "numpy.linalg")): return builtins.__import__(name, globals, locals, fromlist, level)
        raise Unsupported("import of " + name)
    def load(s, rel, name="module"):
        """executes a file of the repository as a module"""
        path = os.path.join(s.repo, rel)
        with builtins.open(path) as f: src = f.read()
        m = types.ModuleType(name); m.__dict__["__builtins__"] = s.builtins; m.__file__ = path
        if name != "__main__": s.mods[name] = m
        exec(compile_cached(src, path), m.__dict__)
        return m
    def get(s, m, name):
        if not hasattr(m, name): raise Unsupported("the module no longer defines " + name)
        return getattr(m, name)
    def main(s, rel, argv):
        old = sys.argv; sys.argv = [rel] + list(argv)
        try: return s.load(rel, "__main__")
        finally: sys.argv = old

class Recorder(types.ModuleType):
    """accepts every call and remembers it"""
    def __init__(s, n): super().__init__(n); s.__dict__["calls"] = []
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        def f(*a, **k): s.calls.append((n, a, k))
        return f
class Frame:
    """the part of a pandas table the repository uses; numbers are written in full"""
    fs = None
    def __init__(s, data=None, columns=None, index=None):
        if isinstance(data, dict):
            s.columns = list(columns or data); cols = [list(data[c]) for c in s.columns]
            if len({len(c) for c in cols}) > 1: raise ValueError("All arrays must be of the same length")
            s.rows = [[i, [c[i] for c in cols]] for i in range(len(cols[0]) if cols else 0)]
        elif data is None: s.columns, s.rows = list(columns or []), []
        else: s.columns, s.rows = list(columns or range(len(data[0]))), [[i, list(r)] for i, r in enumerate(data)]
        if index is not None:
            for r, l in zip(s.rows, index): r[0] = l
    index = property(lambda s: [r[0] for r in s.rows])
    def __len__(s): return len(s.rows)
    class Loc:
        def __init__(s, f): s.f = f
        def __setitem__(s, k, v):
            v = list(v)
            if len(v) != len(s.f.columns): raise ValueError("cannot set a row with mismatched columns")
            for r in s.f.rows:
                if r[0] == k: r[1] = v; return
            s.f.rows.append([k, v])
        def __getitem__(s, k):
            for r in s.f.rows:
                if r[0] == k: return r[1]
            raise KeyError(k)
    loc = property(lambda s: Frame.Loc(s))
    def __getitem__(s, c): return [r[1][s.columns.index(c)] for r in s.rows]
    def rename(s, index=None, columns=None):
        f = Frame(columns=[(columns or {}).get(c, c) for c in s.columns]); f.rows = [[(index or {}).get(r[0], r[0]) if isinstance(r[0], (str, int)) else r[0], list(r[1])] for r in s.rows]; return f
    def _t(s, v): return "NaN" if isinstance(v, float) and v != v else str(v)
    def to_string(s, *a, **k):
        if a or k: raise Unsupported("to_string with options")
        return "\n".join(["  ".join(map(str, s.columns))] + ["  ".join([str(r[0])] + [s._t(v) for v in r[1]]) for r in s.rows])
    def to_csv(s, path, index=True, **k):
        if k: raise Unsupported("to_csv with options")
        with s.world.fs.open(path, "w") as f:
            f.write(",".join(([""] if index else []) + list(map(str, s.columns))) + "\n")
            for r in s.rows: f.write(",".join(([str(r[0])] if index else []) + [s._t(v) for v in r[1]]) + "\n")
class KMedoids:
    def __init__(s, world, n_clusters=8, **k): s.w, s.k = world, n_clusters
    def fit(s, g):
        """any k of the points, in any order, as centres; any labels"""
        n = len(g); idx = s.w.medoids(n, s.k)
        s.cluster_centers_ = g[idx]; s.labels_ = np.array([s.w.vf.choose(1) for _ in range(n)]); s.medoid_indices_ = idx
        return s
    def fit_predict(s, g): return s.fit(g).labels_

class np_concrete(types.ModuleType):
    """the real numpy, with the random generator answering what the solver chose"""
    def __init__(s, vf): super().__init__("numpy"); s.random = NPRandom(vf)
    def __getattr__(s, n): return getattr(np, n)

_cache = {}
def compile_cached(src, path):
    import warnings
    if (path, src) not in _cache:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); _cache[path, src] = compile(src, path, "exec")
    return _cache[path, src]
