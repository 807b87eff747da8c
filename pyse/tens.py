"""torch over numpy object arrays: real tensor semantics (shapes, broadcasting, views) with exact numbers. Functions the solver does not
know (sigmoid, exp, log, square roots, reciprocals, relu) give one unknown value per argument: equal arguments give equal values, and
arguments are compared in a normal form, so everything shown holds for any such function. Integers divide the way of the documented
version (0.4.1): a quotient of whole numbers is a whole number."""
import math, builtins, numpy as np, z3
import engine as G
from engine import SNum, SBool, Unsupported, isnum, rv
from base import Stub, NoGrad

def canon(e): return z3.simplify(e, som=True, sort_sums=True)

class Names:
    """one constant per function and argument"""
    def __init__(s): s.d = {}; s.keep = []
    def get(s, f, x, *facts):
        e = canon(rv(x)); k = (f, e.get_id())
        if k not in s.d:
            s.keep.append(e); v = G.E.fresh(tag=f); s.d[k] = SNum(v)
            for g in facts: G.E.add(g(v, e))
        return s.d[k]

class Lib:
    """the modules torch, torch.nn, torch.nn.functional for one run"""
    def __init__(s, vf, lo=-2, hi=2, cut=True):
        s.vf, s.names, s.nw, s.lo, s.hi, s.cut_linear = vf, Names(), 0, lo, hi, cut; lib = s
        s.softmax_of = None; s.ties = 0
        class M(Module): pass
        T = s.torch = Stub("torch"); F = s.F = Stub("torch.nn.functional"); nn = s.nn = Stub("torch.nn"); nn.functional = F; T.nn = nn
        T.Tensor = TT; T.no_grad = NoGrad; T.manual_seed = lambda *a: None; T.long, T.float, T.int64, T.float32 = "l", "f", "l", "f"; T.double = T.float64 = "f"
        T.FloatTensor = Kind("f"); T.LongTensor = Kind("l"); T.ByteTensor = Kind("l"); T.DoubleTensor = T.FloatTensor
        cuda = s.cuda = Stub("torch.cuda"); cuda.is_available = lambda: False; T.cuda = cuda
        F.sigmoid = T.sigmoid = lambda x: x.map(s.sigmoid); F.relu = T.relu = lambda x, inplace=False: x.map(s.relu); F.tanh = T.tanh = lambda x: x.map(s.tanh)
        T.exp = lambda x: x.map(s.exp); T.log = lambda x: x.map(s.log); T.sqrt = lambda x: x.map(s.sqrt); T.abs = lambda x: x.map(abs)
        def softmax(x, dim=None):
            if s.softmax_of is not None: return s.softmax_of(x, dim, False)
            e = x.map(s.exp); return e / e.sum(dim, keepdim=True)
        def log_softmax(x, dim=None):
            if s.softmax_of is not None: return s.softmax_of(x, dim, True)
            return x - x.map(s.exp).sum(dim, keepdim=True).map(s.log)
        s.log_softmax_of = lambda a: log_softmax(TT(a), a.ndim - 1).a
        F.softmax, F.log_softmax = softmax, log_softmax; T.softmax, T.log_softmax = softmax, log_softmax
        F.linear = lambda x, w, b=None: s.linear(x, w.a, None if b is None else b.a); F.dropout = lambda x, *a, **k: x
        def full(v):
            def f(*sh, **k): sh = sh[0] if len(sh) == 1 and not isinstance(sh[0], int) else sh; a = np.empty(tuple(sh), dtype=object); a.fill(v); return TT(a, k.get("dtype") or "f")
            return f
        T.zeros, T.ones = full(0.0), full(1.0); T.empty = T.zeros
        T.zeros_like = lambda x, **k: full(0.0)(*x.a.shape); T.ones_like = lambda x, **k: full(1.0)(*x.a.shape)
        T.full = lambda sh, v, **k: full(v)(*sh)
        def arange(*a, **k): return TT(np.array(list(range(*map(int, a))), dtype=object), "l")
        T.arange = arange
        def randint(lo, hi, sh, **k):
            a = np.empty(tuple(sh), dtype=object)
            for i in np.ndindex(*a.shape): a[i] = lo + vf.choose(hi - lo)
            return TT(a, "l")
        T.randint = randint
        T.sum = lambda x, dim=None, keepdim=False: x.sum(dim, keepdim=keepdim); T.mean = lambda x, dim=None, keepdim=False: x.mean(dim, keepdim=keepdim)
        T.cat = lambda xs, dim=0: TT(np.concatenate([x.a for x in xs], axis=dim), xs[0].k); T.stack = lambda xs, dim=0: TT(np.stack([x.a for x in xs], axis=dim), xs[0].k)
        T.eq = lambda a, b: a == b; T.mul = lambda a, b: a * b; T.add = lambda a, b: a + b; T.sub = lambda a, b: a - b; T.transpose = lambda x, a, b: x.transpose(a, b)
        T.matmul = lambda a, b: a.matmul(b); T.bmm = T.matmul; T.squeeze = lambda x, *d: x.squeeze(*d); T.unsqueeze = lambda x, d: x.unsqueeze(d)
        T.gather = lambda x, d, i: x.gather(d, i); T.topk = lambda x, k, *a, **kw: x.topk(k, *a, **kw); T.sort = lambda x, d=-1, descending=False: x.sort(d, descending)
        T.div = lambda a, b, rounding_mode=None: a // b if rounding_mode else a / b; T.floor_divide = lambda a, b: a // b
        def einsum(spec, *xs):
            r = np.einsum(spec, *[x.a for x in xs], optimize=False); return TT(r if isinstance(r, np.ndarray) else np.array(r, dtype=object))
        T.einsum = einsum
        T.tensor = T.as_tensor = T.from_numpy = lambda a, dtype=None, **k: TT(np.array(a, dtype=object), dtype or kind(np.array(a, dtype=object)))
        TT.lib = s
        T.where = lambda c, a, b: (a if isinstance(a, TT) else full(a)(1)).where(c, b)
        for n in dir(TT):       # the functions that are methods of their first argument
            if not n.startswith("_") and not n.endswith("_") and n not in vars(T) and callable(getattr(TT, n)): setattr(T, n, lambda x, *a, _n=n, **k: getattr(x, _n)(*a, **k))
        nn.Module, nn.ModuleList, nn.Sequential = Module, ModuleList, Sequential
        nn.Linear = lambda i, o, bias=True: Linear(s, i, o, bias); nn.Embedding = lambda n, d, **k: Embedding(s, n, d)
        nn.BatchNorm1d = nn.BatchNorm2d = lambda d, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True: BatchNorm(s, d, eps, affine, track_running_stats)
        nn.LayerNorm = lambda d, eps=1e-5: LayerNorm(s, d, eps)
        nn.ReLU = lambda *a, **k: Fn(F.relu); nn.Sigmoid = lambda: Fn(F.sigmoid); nn.Dropout = lambda *a, **k: Fn(lambda x: x); nn.Softmax = lambda dim=None: Fn(lambda x: softmax(x, dim)); nn.LogSoftmax = lambda dim=None: Fn(lambda x: log_softmax(x, dim)); nn.Identity = lambda *a: Fn(lambda x: x)
        nn.NLLLoss = lambda weight=None, **k: Fn(lambda y, t: s.nll(y, t, weight)); F.nll_loss = lambda y, t, weight=None, **k: s.nll(y, t, weight)
        nn.CrossEntropyLoss = lambda weight=None, **k: Fn(lambda y, t: s.nll(log_softmax(y, 1), t, weight)); F.cross_entropy = lambda y, t, weight=None, **k: s.nll(log_softmax(y, 1), t, weight)
        nn.Parameter = lambda t, **k: t; nn.DataParallel = lambda m: m
    def modules(s): return {"torch": s.torch, "torch.nn": s.nn, "torch.nn.functional": s.F, "torch.cuda": s.cuda}
    # --- scalar functions
    def sigmoid(s, x): return s.names.get("sigmoid", x, lambda v, e: v > 0, lambda v, e: v < 1) if isinstance(x, SNum) else 1 / (1 + math.exp(-x))
    def relu(s, x): return s.names.get("relu", x, lambda v, e: v >= 0) if isinstance(x, SNum) else max(0.0, float(x))
    def tanh(s, x): return s.names.get("tanh", x) if isinstance(x, SNum) else math.tanh(x)
    def exp(s, x): return s.names.get("exp", x, lambda v, e: v > 0) if isinstance(x, SNum) else math.exp(x)
    def log(s, x): return s.names.get("log", x) if isinstance(x, SNum) else math.log(x)
    def sqrt(s, x): return s.names.get("sqrt", x, lambda v, e: v >= 0) if isinstance(x, SNum) else math.sqrt(x)
    def inv(s, x): return s.names.get("inv", x) if isinstance(x, SNum) else 1.0 / x
    def cut(s, x): return s.names.get("v", x) if isinstance(x, SNum) else x
    def weight(s, *shape):
        """any weights, a new block of them for every layer that is made"""
        s.nw += 1; a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape): a[i] = s.vf.real("w%d_%s" % (s.nw, "_".join(map(str, i))), s.lo, s.hi)
        return a
    def linear(s, x, w, b):
        sh = x.a.shape
        if sh[-1] != w.shape[1]: raise RuntimeError("size mismatch")
        r = np.empty(sh[:-1] + (w.shape[0],), dtype=object)
        for i in np.ndindex(*sh[:-1]):
            for o in range(w.shape[0]):
                t = sum((x.a[i + (k,)] * w[o, k] for k in range(sh[-1])), 0.0 if b is None else b[o])
                r[i + (o,)] = s.cut(t) if s.cut_linear else t
        return TT(r)
    def nll(s, y, t, weight):
        if weight is not None and not isinstance(weight, TT): raise TypeError("weight")
        c = y.a.shape[1]; wt = [1.0] * c if weight is None else list(weight.a); num, den = 0.0, 0.0
        if t.a.shape != y.a.shape[:1] + y.a.shape[2:]: raise ValueError("target size")
        for i in np.ndindex(*t.a.shape):
            tv = t.a[i]
            for k in range(c):
                on = SNum(z3.If(tv.e == k, z3.RealVal(1), z3.RealVal(0))) if isinstance(tv, SNum) else 1.0 if tv == k else 0.0
                num = num - on * wt[k] * y.a[(i[0], k) + i[1:]]; den = den + on * wt[k]
        return TT(np.array(num * s.inv(den), dtype=object))

def kind(a):
    for v in a.flat: return "l" if isinstance(v, (int, np.integer)) or isinstance(v, SNum) and v.e.is_int() else "f"
    return "f"
class Kind:
    def __init__(s, k): s.k = k
    def __call__(s, a, *r):
        if isinstance(a, int): a = np.zeros((a,) + r)
        a = a.a if isinstance(a, TT) else np.array(a, dtype=object)
        return TT(a, s.k).type(s)

def ints(a):
    f = lambda v: int(v)
    r = np.empty(a.shape, dtype=np.int64)
    for i in np.ndindex(*a.shape): r[i] = f(a[i])
    return r

def _big(a, b): return SNum(z3.If(rv(a) >= rv(b), rv(a), rv(b))) if isinstance(a, SNum) or isinstance(b, SNum) else a if a >= b else b
class TT:
    """a tensor; k is 'f' for real and 'l' for whole numbers"""
    lib = None
    def __init__(s, a, k="f"): s.a, s.k = (a if isinstance(a, np.ndarray) else np.array(a, dtype=object)), k
    shape = property(lambda s: s.a.shape); dtype = property(lambda s: s.k); T = property(lambda s: s.new(s.a.T)); is_cuda = False; device = "cpu"
    data = property(lambda s: s)
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("tensor." + n)
    def new(s, a, k=None): return TT(a if isinstance(a, np.ndarray) else np.array(a, dtype=object), k or s.k)
    def map(s, f, k=None):
        r = np.empty(s.a.shape, dtype=object)
        for i in np.ndindex(*s.a.shape): r[i] = f(s.a[i])
        return s.new(r, k)
    def type(s, t=None, *a):
        if t is None: return "torch.FloatTensor" if s.k == "f" else "torch.LongTensor"
        k = t.k if isinstance(t, Kind) else t
        if k == s.k: return s.new(s.a.copy())
        return s.map(float if k == "f" else int, k) if not any(isinstance(v, SNum) for v in s.a.flat) else s.map(lambda v: G.num(rv(v)) if k == "f" and isinstance(v, SNum) else int(v) if k == "l" else float(v), k)
    def to(s, *a, **k):
        d = k.get("dtype") or next((x for x in a if x in ("f", "l")), None); return s if d is None else s.type(d)
    def float(s): return s.type("f")
    def long(s): return s.type("l")
    int = long
    def cpu(s): return s
    def cuda(s): return s
    def detach(s): return s
    def contiguous(s): return s
    def clone(s): return s.new(s.a.copy())
    def numpy(s): return s.a
    def tolist(s): return s.a.tolist()
    def item(s): return s.a.reshape(-1)[0]
    def dim(s): return s.a.ndim
    def numel(s): return s.a.size
    def size(s, d=None): return s.a.shape if d is None else s.a.shape[d]
    def __len__(s): return len(s.a)
    def __iter__(s): return iter(s.new(s.a[i]) for i in range(len(s.a)))
    def _i(s, i):
        def one(x):
            if not isinstance(x, TT): return x
            if x.a.dtype == bool or x.k == "b": return np.vectorize(bool, otypes=[bool])(x.a)
            return ints(x.a)
        return tuple(map(one, i)) if isinstance(i, tuple) else one(i)
    def __getitem__(s, i): return s.new(s.a[s._i(i)])
    def __setitem__(s, i, v):
        v = v.a if isinstance(v, TT) else v
        if isinstance(i, TT) and i.k == "b":
            for j in np.ndindex(*s.a.shape):
                c = i.a[j]
                if isinstance(c, SBool): s.a[j] = SNum(z3.If(c.e, rv(v), rv(s.a[j])))
                elif c: s.a[j] = v
            return
        s.a[s._i(i)] = v
    def view(s, *sh): return s.new(s.a.reshape(*sh))
    reshape = view
    def view_as(s, o): return s.view(o.a.shape)
    def flatten(s, st=0, en=-1): en = en % s.a.ndim; return s.new(s.a.reshape(s.a.shape[:st] + (-1,) + s.a.shape[en + 1:]))
    def unsqueeze(s, d): return s.new(np.expand_dims(s.a, d))
    def squeeze(s, d=None): return s.new(np.squeeze(s.a, d) if d is None or s.a.shape[d] == 1 else s.a)
    def expand(s, *sh):
        sh = sh[0] if len(sh) == 1 and not isinstance(sh[0], builtins.int) else sh; o = s.a.shape; o = (1,) * (len(sh) - len(o)) + o
        return s.new(np.broadcast_to(s.a, tuple(y if x == -1 else x for x, y in zip(sh, o))))
    def expand_as(s, o): return s.expand(*o.a.shape)
    def repeat(s, *n): return s.new(np.tile(s.a, n))
    def transpose(s, a, b): return s.new(np.swapaxes(s.a, a, b))
    def t(s): return s.new(s.a.T)
    def permute(s, *d): return s.new(np.transpose(s.a, d[0] if len(d) == 1 and not isinstance(d[0], builtins.int) else d))
    # arithmetic
    def _o(s, o): return o.a if isinstance(o, TT) else o
    def _k(s, o): return "f" if s.k == "f" or (o.k == "f" if isinstance(o, TT) else not isinstance(o, builtins.int)) else "l"
    def _b(s, o, f):
        if not isinstance(o, TT) and not isnum(o): return NotImplemented
        return s.new(f(s.a, s._o(o)), s._k(o))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    __radd__, __rmul__ = __add__, __mul__
    def __neg__(s): return s.new(-s.a)
    def __pow__(s, n): return s.map(lambda v: v ** n)
    def pow(s, n): return s ** n
    def __truediv__(s, o):
        if s._k(o) == "l": return s // o
        if isinstance(o, TT): return s * o.map(s.lib.inv)
        return s.map(lambda v: v * s.lib.inv(o) if isinstance(o, SNum) else v / o, "f")
    def __rtruediv__(s, o): return s.map(s.lib.inv, "f") * o
    def __floordiv__(s, o):
        return s._b(o, lambda a, b: a // b)
    def div(s, o, rounding_mode=None): return s // o if rounding_mode else s / o
    def floor_divide(s, o): return s // o
    def __mod__(s, o): return s._b(o, lambda a, b: a % b)
    def remainder(s, o): return s % o
    def add(s, o): return s + o
    def sub(s, o): return s - o
    def mul(s, o): return s * o
    def add_(s, o): s.a[...] = (s + o).a; return s
    def mul_(s, o): s.a[...] = (s * o).a; return s
    def __iadd__(s, o): return s.add_(o)
    def __imul__(s, o): return s.mul_(o)
    def __isub__(s, o): s.a[...] = (s - o).a; return s
    def _c(s, o, f):
        b = np.broadcast_to(s._o(o), np.broadcast(s.a, s._o(o)).shape); a = np.broadcast_to(s.a, b.shape); r = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape): r[i] = f(a[i], b[i])
        return TT(r, "b")
    def __eq__(s, o): return s._c(o, lambda a, b: a == b)
    def __ne__(s, o): return s._c(o, lambda a, b: a != b)
    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    __hash__ = None
    def eq(s, o): return s == o
    def ne(s, o): return s != o
    def lt(s, o): return s < o
    def le(s, o): return s <= o
    def gt(s, o): return s > o
    def ge(s, o): return s >= o
    def _l(s, o, f): return TT(s._c(o, f).a, "b" if s.k == "b" else "l")
    def __and__(s, o): return s._l(o, lambda a, b: a & b)
    def __or__(s, o): return s._l(o, lambda a, b: a | b)
    def __xor__(s, o): return s != o
    def __invert__(s): return s.map(lambda v: ~v if isinstance(v, SBool) else not v, "b")
    logical_and, logical_or, logical_not = __and__, __or__, __invert__
    def any(s, dim=None):
        if dim is not None: return TT(np.apply_along_axis(lambda v: np.array(builtins.any(bool(x) for x in v), dtype=object), dim, s.a), "b")
        return TT(np.array(builtins.any(bool(v) for v in s.a.flat), dtype=object), "b")
    def all(s, dim=None): return ~((~s).any(dim)) if s.k == "b" else (s != 0).all(dim)
    def __bool__(s): return bool(s.item())
    def __float__(s): return builtins.float(s.item())
    def __int__(s): return builtins.int(s.item())
    def __index__(s): return builtins.int(s.item())
    def _w(s, r): s.a[...] = np.broadcast_to(r.a if isinstance(r, TT) else r, s.a.shape); return s
    def sub_(s, o): return s._w(s - o)
    def div_(s, o): return s._w(s / o)
    def fill_(s, v): return s._w(np.array(v.item() if isinstance(v, TT) else v, dtype=object))
    def zero_(s): return s.fill_(0 if s.k == "l" else 0.0)
    def copy_(s, o): return s._w(o)
    def neg_(s): return s._w(-s)
    def clamp_(s, *a, **k): return s._w(s.clamp(*a, **k))
    def masked_fill_(s, m, v): return s._w(s.masked_fill(m, v))
    def scatter_(s, dim, idx, src):
        i = ints(idx.a)
        if (i < 0).any() or (i >= s.a.shape[dim]).any(): raise RuntimeError("index out of range")
        for j in np.ndindex(*i.shape): q = list(j); q[dim] = i[j]; s.a[tuple(q)] = src.a[j] if isinstance(src, TT) else src
        return s
    def scatter(s, dim, idx, src): return s.clone().scatter_(dim, idx, src)
    def index_fill_(s, dim, idx, v):
        q = [slice(None)] * s.a.ndim; q[dim] = ints(idx.a); s.a[tuple(q)] = v; return s
    def neg(s): return -s
    def clamp(s, min=None, max=None):
        def f(v):
            v = v if min is None else _big(v, min); return v if max is None else -_big(-v, -max)
        return s.map(f)
    clip = clamp
    def where(s, c, o):
        """this where c, o elsewhere"""
        b = np.broadcast(s.a, c.a, s._o(o)).shape; x, y, m = (np.broadcast_to(t, b) for t in (s.a, s._o(o), c.a)); r = np.empty(b, dtype=object)
        for i in np.ndindex(*b): r[i] = SNum(z3.If(m[i].e, rv(x[i]), rv(y[i]))) if isinstance(m[i], SBool) else x[i] if m[i] else y[i]
        return s.new(r)
    def flip(s, *d): return s.new(np.flip(s.a, d[0] if len(d) == 1 and not isinstance(d[0], builtins.int) else d))
    def roll(s, n, d=None): return s.new(np.roll(s.a, n, d))
    def select(s, dim, i): return s.new(np.take(s.a, i, axis=dim))
    def narrow(s, dim, st, n): q = [slice(None)] * s.a.ndim; q[dim] = slice(st, st + n); return s.new(s.a[tuple(q)])
    def chunk(s, n, dim=0): return tuple(s.new(x) for x in np.array_split(s.a, n, axis=dim))
    def unbind(s, dim=0): return tuple(s.new(np.take(s.a, i, axis=dim)) for i in range(s.a.shape[dim]))
    def prod(s, dim=None, keepdim=False): return s.new(np.prod(s.a, axis=dim, keepdims=keepdim))
    def diagonal(s, offset=0, dim1=0, dim2=1): return s.new(np.diagonal(s.a, offset, dim1, dim2).copy())
    def min(s, dim=None, keepdim=False):
        r = (-s).max(dim, keepdim); return -r if dim is None else (-r[0], r[1])
    def argmin(s, dim=None, keepdim=False): return (-s).argmax(dim, keepdim)
    def new_zeros(s, *sh, **k): return s.lib.torch.zeros(*sh).type(s.k)
    def new_ones(s, *sh, **k): return s.lib.torch.ones(*sh).type(s.k)
    def new_full(s, sh, v, **k): return s.lib.torch.full(sh, v).type(s.k)
    def double(s): return s.type("f")
    def ndimension(s): return s.a.ndim
    ndim = property(lambda s: s.a.ndim); requires_grad = False
    def requires_grad_(s, *a): return s
    def log2(s): raise Unsupported("log2")
    def square(s): return s * s
    def reciprocal(s): return s.map(s.lib.inv)
    def matmul(s, o):
        if s.a.ndim == 2 and o.a.ndim == 2: return s.new(np.dot(s.a, o.a))
        if s.a.ndim == 3 and o.a.ndim == 3: return s.new(np.stack([np.dot(x, y) for x, y in zip(s.a, o.a)]))
        if o.a.ndim == 2: return s.new(np.dot(s.a, o.a))
        raise Unsupported("matmul")
    __matmul__ = matmul
    def bmm(s, o): return s.matmul(o)
    def sum(s, dim=None, keepdim=False, **k):
        if "dtype" in k: raise Unsupported("sum to a type")
        d = tuple(dim) if isinstance(dim, (list, tuple)) else dim
        return s.new(np.sum(s.a, axis=d, keepdims=keepdim) if s.a.size else np.zeros(()))
    def mean(s, dim=None, keepdim=False):
        r = s.sum(dim, keepdim); return r / (s.a.size // max(1, r.a.size))
    def var(s, dim=None, unbiased=True, keepdim=False):
        m = s.mean(dim, True); r = ((s - m) ** 2).sum(dim, keepdim); return r / (s.a.size // max(1, r.a.size) - builtins.int(unbiased))
    def sigmoid(s): return s.map(s.lib.sigmoid)
    def relu(s): return s.map(s.lib.relu)
    def tanh(s): return s.map(s.lib.tanh)
    def exp(s): return s.map(s.lib.exp)
    def log(s): return s.map(s.lib.log)
    def sqrt(s): return s.map(s.lib.sqrt)
    def abs(s): return s.map(builtins.abs)
    def softmax(s, dim): return s.lib.F.softmax(s, dim)
    def log_softmax(s, dim): return s.lib.F.log_softmax(s, dim)
    def max(s, dim=None, keepdim=False):
        if isinstance(dim, TT): return s.where(s >= dim, dim)
        if dim is None: return s.new(np.array(builtins.max(s.a.reshape(-1)), dtype=object))
        i = s.argmax(dim); v = np.take_along_axis(s.a, np.expand_dims(ints(i.a), dim), dim)
        return (s.new(v if keepdim else np.squeeze(v, dim)), i)
    def argmax(s, dim=None, keepdim=False):
        x = s.a.reshape(-1) if dim is None else s.a; d = 0 if dim is None else dim
        def f(v):
            b = 0
            for j in range(1, len(v)):
                if v[j] > v[b]: b = j
            return np.array(b, dtype=object)
        return TT(np.apply_along_axis(f, d, x), "l")
    def gather(s, dim, idx):
        if idx.k != "l": raise RuntimeError("gather(): Expected dtype int64 for index")
        i = ints(idx.a)
        if (i < 0).any() or (i >= s.a.shape[dim]).any(): raise RuntimeError("index out of range")
        r = np.empty(i.shape, dtype=object)
        for j in np.ndindex(*i.shape): q = list(j); q[dim] = i[j]; r[j] = s.a[tuple(q)]
        return s.new(r)
    def index_select(s, dim, idx): return s.new(np.take(s.a, ints(idx.a), axis=dim))
    def masked_fill(s, m, v): r = s.clone(); r[TT(np.broadcast_to(m.a, s.a.shape), "b")] = v; return r
    def order(s, v, k):
        """the k largest of v, in order; among equal ones any may come first"""
        rest = list(range(len(v))); r = []; vf = s.lib.vf
        while len(r) < k:
            num = [i for i in rest if not isinstance(v[i], SNum)]; sym = [i for i in rest if isinstance(v[i], SNum)]
            if num:
                m = builtins.max(v[i] for i in num); t = [i for i in num if v[i] == m]; num = [t[-1] if s.lib.ties and vf.choose(2) else t[0]]     # equal constants: the first or the last
            cand = sym + num
            if len(cand) == 1: b = cand[0]
            else:
                b = cand[vf.choose(len(cand))]
                for j in cand:
                    if j != b: vf.assume(v[b] >= v[j])
            r.append(b); rest.remove(b)
        return r
    def topk(s, k, dim=-1, largest=True, sorted=True):
        if not largest: raise Unsupported("smallest")
        x = np.moveaxis(s.a, dim, -1); vals = np.empty(x.shape[:-1] + (k,), dtype=object); idx = np.empty_like(vals)
        for j in np.ndindex(*x.shape[:-1]):
            o = s.order(x[j], k)
            for q in range(k): vals[j + (q,)] = x[j][o[q]]; idx[j + (q,)] = o[q]
        return s.new(np.moveaxis(vals, -1, dim)), TT(np.moveaxis(idx, -1, dim), "l")
    def sort(s, dim=-1, descending=False):
        if not descending: raise Unsupported("ascending sort")
        return s.topk(s.a.shape[dim], dim)

class Module:
    training = False
    def __init__(s, *a, **k): pass
    def __call__(s, *a, **k): return s.forward(*a, **k)
    def eval(s): return s
    def train(s, *a): return s
    def cuda(s): return s
    def to(s, *a): return s
    def register_buffer(s, n, t): setattr(s, n, t)
class ModuleList(list, Module):
    def __init__(s, x=()): list.__init__(s, x)
    def __call__(s, *a): raise NotImplementedError()
class Sequential(Module):
    def __init__(s, *f): s.f = list(f)
    def __getitem__(s, i): return s.f[i]
    def forward(s, x):
        for f in s.f: x = f(x)
        return x
class Fn(Module):
    def __init__(s, f): s.forward = f
class Linear(Module):
    def __init__(s, lib, i, o, bias=True):
        s.lib = lib; s.weight = TT(lib.weight(o, i)); s.bias = TT(lib.weight(o)) if bias else None; s.in_features, s.out_features = i, o
    def forward(s, x): return s.lib.linear(x, s.weight.a, None if s.bias is None else s.bias.a)
class Embedding(Module):
    def __init__(s, lib, n, d): s.lib, s.weight = lib, TT(lib.weight(n, d))
    def forward(s, x):
        w = s.weight.a; r = np.empty(x.a.shape + (w.shape[1],), dtype=object)
        if x.k != "l": raise RuntimeError("Expected tensor for argument #1 'indices' to have scalar type Long")
        for i in np.ndindex(*x.a.shape):
            v = x.a[i]
            for k in range(w.shape[1]):
                if isinstance(v, SNum):
                    e = rv(w[-1, k])
                    for c in range(w.shape[0] - 2, -1, -1): e = z3.If(v.e == c, rv(w[c, k]), e)
                    r[i + (k,)] = s.lib.cut(SNum(e))
                else: r[i + (k,)] = w[v, k]
        return TT(r)
class BatchNorm(Module):
    """over the batch and all positions, per channel (dimension 1)"""
    def __init__(s, lib, d, eps, affine, track):
        s.lib, s.d, s.eps = lib, d, eps; s.weight = TT(lib.weight(d)) if affine else None; s.bias = TT(lib.weight(d)) if affine else None
        s.running = (lib.weight(d), lib.weight(d)) if track else None
    def forward(s, x):
        if x.a.shape[1] != s.d: raise ValueError("expected %d channels" % s.d)
        r = np.empty(x.a.shape, dtype=object); L = s.lib
        for c in range(s.d):
            v = np.array([L.cut(t) for t in x.a[:, c].reshape(-1)] + [None], dtype=object)[:-1]; n = len(v)
            if s.running: m, q = s.running[0][c], L.inv(L.sqrt(s.running[1][c] * s.running[1][c] + s.eps))
            else:
                m = sum(v[1:], v[0]) / n
                q = L.inv(L.sqrt(sum(((t - m) * (t - m) for t in v), 0.0) / n + s.eps))
            g, b = (1.0, 0.0) if s.weight is None else (s.weight.a[c], s.bias.a[c])
            z = np.empty(n, dtype=object)
            for i in range(n): z[i] = (v[i] - m) * q * g + b
            r[:, c] = z.reshape(x.a[:, c].shape)
        return TT(r)
class LayerNorm(Module):
    def __init__(s, lib, d, eps): s.lib, s.d, s.eps, s.weight, s.bias = lib, d, eps, lib.weight(d), lib.weight(d)
    def forward(s, x):
        r = np.empty(x.a.shape, dtype=object); L = s.lib
        for i in np.ndindex(*x.a.shape[:-1]):
            v = [L.cut(t) for t in x.a[i]]; m = sum(v[1:], v[0]) / len(v); q = L.inv(L.sqrt(sum(((t - m) * (t - m) for t in v), 0.0) / len(v) + s.eps))
            for k in range(len(v)): r[i + (k,)] = (v[k] - m) * q * s.weight[k] + s.bias[k]
        return TT(r)
