"""Symbolic execution of Python code: the real functions are run on numbers that are Z3 terms. Every decision on a symbolic
condition asks Z3 which outcomes are possible; the run is repeated until every combination of outcomes has been followed.
Assertions are decided by Z3 over all values of a path. A counterexample is run again on plain numbers before it is reported."""
import z3, time, random, sys
from fractions import Fraction

TOL = Fraction(1, 10**6)
class Infeasible(BaseException): pass
class OutOfTime(BaseException): pass
class Failed(BaseException):
    """an assertion failed on this path (symbolic: with a model; concrete: definitely)"""
    def __init__(s, msg): s.msg = msg
class Unsupported(BaseException): pass

E = None      # the engine of the current run

def frac(x):
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, (int, Fraction)): return Fraction(x)
    return Fraction(float(x))

def rv(x):
    if isinstance(x, SNum): return x.e if x.e.is_real() else z3.ToReal(x.e)
    x = float(x) if not isinstance(x, (int, Fraction)) else x
    if isinstance(x, float) and (x != x or x in (float("inf"), -float("inf"))): raise Unsupported("infinite operand")
    f = frac(x); return z3.RealVal("%d/%d" % (f.numerator, f.denominator))

def isnum(x):
    import numbers, numpy
    return isinstance(x, (SNum, numbers.Real, numpy.number))

class SBool:
    __slots__ = ("e",)
    def __init__(s, e): s.e = e
    def __bool__(s): return E.branch(s.e)
    def __and__(s, o): return SBool(z3.And(s.e, be(o)))
    __rand__ = __and__
    def __or__(s, o): return SBool(z3.Or(s.e, be(o)))
    __ror__ = __or__
    def __invert__(s): return SBool(z3.Not(s.e))
    def __eq__(s, o): return SBool(s.e == be(o))
    def __ne__(s, o): return SBool(s.e != be(o))
    def __hash__(s): return 0
    def __int__(s): return int(bool(s))
    __index__ = __int__
    def __add__(s, o): return int(s) + o
    __radd__ = __add__
    def any(s): return s
    def all(s): return s

def be(x): return x.e if isinstance(x, SBool) else z3.BoolVal(bool(x))

INF = float("inf")
def isinf(o): return isinstance(o, float) and o in (INF, -INF)

class SNum:
    """A number given by a Z3 term; e is of sort Real or Int."""
    __slots__ = ("e",)
    __array_priority__ = 1000
    def __init__(s, e): s.e = e
    def _bin(s, o, f, intok=True):
        if not isnum(o): return NotImplemented
        if isinstance(o, float) and o != o: return o
        if s.e.is_int() and intok and (isinstance(o, int) or isinstance(o, SNum) and o.e.is_int() or type(o).__module__ == "numpy" and float(o).is_integer() and "int" in type(o).__name__):
            return num(f(s.e, o.e if isinstance(o, SNum) else z3.IntVal(int(o))))
        return num(f(rv(s), rv(o)))
    def __add__(s, o):
        if isinf(o): return o
        return s._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o):
        if isinf(o): return -o
        return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o):
        if isinf(o): return o
        return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(s, o):
        if not isnum(o): return NotImplemented
        if isinf(o): return 0.0
        if cmp(o, 0, "=="): raise ZeroDivisionError("division by zero")
        return s._bin(o, lambda a, b: a / b, False)
    def __rtruediv__(s, o):
        if not isnum(o): return NotImplemented
        if cmp(s, 0, "=="): raise ZeroDivisionError("division by zero")
        return s._bin(o, lambda a, b: b / a, False)
    def _floor(s, a, b):
        """floor(a / b) of two numbers one of which is symbolic"""
        if not isnum(a) or not isnum(b): return NotImplemented
        if isinf(a) or isinf(b): raise Unsupported("floor division by infinity")
        if cmp(b, 0, "=="): raise ZeroDivisionError("division by zero")
        ints = all(isinstance(x, SNum) and x.e.is_int() or not isinstance(x, SNum) and isinstance(x, int) for x in (a, b))
        if ints and not isinstance(b, SNum) and b > 0: return num(a.e / b)
        if ints: a, b = (int(x) for x in (a, b)); return a // b
        q = z3.ToInt(rv(a) / rv(b)); return num(q if ints else z3.ToReal(q))
    def __floordiv__(s, o): return s._floor(s, o)
    def __rfloordiv__(s, o): return s._floor(o, s)
    def __mod__(s, o):
        if s.e.is_int() and isinstance(o, int) and o > 0: return num(s.e % o)
        q = s._floor(s, o); return q if q is NotImplemented else s - q * o
    def __rmod__(s, o):
        q = s._floor(o, s); return q if q is NotImplemented else o - q * s
    def __floor__(s): return s if s.e.is_int() else num(z3.ToInt(s.e))
    def __ceil__(s): return s if s.e.is_int() else num(-z3.ToInt(-s.e))
    def __trunc__(s): return s.__int__()
    def __divmod__(s, o): return s // o, s % o
    def __neg__(s): return num(-s.e)
    def __pos__(s): return s
    def __abs__(s): return num(z3.If(s.e >= 0, s.e, -s.e))
    def __pow__(s, o):
        if isinstance(o, SNum): o = int(o)
        if float(o) == 0.5: return sqrt(s)
        if float(o).is_integer() and 0 <= o <= 4:
            r = num(z3.RealVal(1) if s.e.is_real() else z3.IntVal(1))
            for _ in range(int(o)): r = r * s
            return r
        raise Unsupported("power")
    def sqrt(s): return sqrt(s)
    def conjugate(s): return s
    def __eq__(s, o): return cmp(s, o, "==")
    def __ne__(s, o): return cmp(s, o, "!=")
    def __lt__(s, o): return cmp(s, o, "<")
    def __le__(s, o): return cmp(s, o, "<=")
    def __gt__(s, o): return cmp(s, o, ">")
    def __ge__(s, o): return cmp(s, o, ">=")
    def __hash__(s): return 0
    def __bool__(s): return E.branch(s.e != 0)
    def __index__(s):
        if s.e.is_int(): return E.concretise(s.e)
        raise TypeError("a float cannot be interpreted as an integer")
    def __int__(s):
        if s.e.is_int(): return E.concretise(s.e)
        return E.concretise(z3.If(s.e >= 0, z3.ToInt(s.e), -z3.ToInt(-s.e)))
    def __float__(s): raise Unsupported("symbolic number converted to a native float")
    def __round__(s, nd=None):
        if s.e.is_int(): return s
        return E.rounded(s, nd or 0)
    def is_integer(s): return SBool(z3.IsInt(rv(s)))
    def item(s): return s
    def tolist(s): return s
    def copy(s): return s
    def __copy__(s): return s
    def __deepcopy__(s, m): return s
    def __str__(s): return E.token(s)
    def __repr__(s): return E.token(s)
    def __format__(s, spec):
        if spec in ("", "g" if s.e.is_int() else ""): return E.token(s)
        sp = spec[:-1] if spec[-1] in "fF" else None
        if spec == "d" and s.e.is_int(): return E.token(s)
        if sp is not None and sp.startswith(".") and sp[1:].isdigit(): return E.token(E.rounded(s, int(sp[1:])))
        if spec[-1] in "eg" and spec.startswith(".") and spec[1:-1].isdigit() and int(spec[1:-1]) >= 15: return E.token(s)
        if spec.startswith(".") and spec[1:-1].isdigit() and spec[-1] in "eg": return E.token(E.rounded(s, int(spec[1:-1]) - (spec[-1] == "g")))
        raise Unsupported("format " + spec)

def num(e):
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fl(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return SNum(e)

def Fl(f):
    x = float(f)
    return x if Fraction(x) == f else SNum(z3.RealVal("%d/%d" % (f.numerator, f.denominator)))

def cmp(a, b, op):
    import operator as o
    f = {"==": o.eq, "!=": o.ne, "<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge}[op]
    if isinstance(a, SBool): a = int(a)
    if isinstance(b, SBool): b = int(b)
    if not isnum(a) or not isnum(b):
        if op in ("==", "!="): return op == "!="
        raise TypeError("'%s' not supported" % op)
    if not isinstance(a, SNum) and not isinstance(b, SNum): return f(a, b)
    for x, y, g in ((a, b, f), (b, a, lambda p, q: f(q, p))):
        if not isinstance(y, SNum) and (isinf(float(y)) or float(y) != float(y)): return g(0.0, float(y))
    if isinstance(a, SNum) and a.e.is_int() and (isinstance(b, int) or isinstance(b, SNum) and b.e.is_int()): e = f(a.e, b.e if isinstance(b, SNum) else z3.IntVal(int(b)))
    else: e = f(rv(a), rv(b))
    e = z3.simplify(e)
    return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)

def sqrt(x):
    import math
    if not isinstance(x, SNum): return math.sqrt(x)
    return E.root(x)

PUA, DIG = 0xE000, 0xF0000
def has_tokens(s): return any(0xE000 <= ord(c) <= 0xF8FF or ord(c) >= 0xF0000 for c in s)

class Engine:
    symbolic = True
    def __init__(s, budget, seed=1, qtime=3000):
        s.t0 = time.time(); s.budget = budget; s.rng = random.Random(seed); s.qtime = qtime
        s.stats = dict(paths=0, dropped=0, forks=0, implied=0, queries=0, sat=0, unsat=0, unknown=0, checks=0, check_queries=0, unconfirmed=0, undecided=0, unsupported=0, concretised=0)
        s.solver_s = 0.0; s.cover = {}; s.notes = []; s.undecided_msgs = {}
    # --- one run
    def start(s, prefix):
        s.prefix, s.taken, s.pending = list(prefix), [], []
        s.solver = z3.Solver(); s.solver.set("timeout", s.qtime); s.solver.set("random_seed", 1)
        s.inputs = {}; s.choices = []; s.tokens = {}; s.tokid = {}; s.digits = {}; s.defs = []; s.roots = {}; s.naux = 0; s.aux = {}; s.hist = []
    def ask(s, *extra):
        if time.time() - s.t0 > s.budget: raise OutOfTime()
        t = time.time(); s.stats["queries"] += 1
        r = s.solver.check(*extra)
        s.solver_s += time.time() - t
        k = str(r); s.stats[k] += 1
        return k
    def add(s, e): s.solver.add(e); s.hist.append(e)
    def branch(s, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        k = len(s.taken)
        if k < len(s.prefix): v = s.prefix[k]
        else:
            a = s.ask(e)
            b = s.ask(z3.Not(e)) if a != "unsat" else "sat"
            if a == "unsat" and k == 0 and s.ask() == "unsat": raise Infeasible()
            if a != "unsat" and b != "unsat":
                v = s.rng.random() < 0.5; s.stats["forks"] += 1
                s.pending.append(s.taken + [not v])
            else: v = a != "unsat"; s.stats["implied"] += 1
        s.taken.append(v); s.add(e if v else z3.Not(e))
        return v
    def concretise(s, e):
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        k = len(s.taken)
        if k < len(s.prefix): v = s.prefix[k]
        else:
            vals = []; s.stats["concretised"] += 1
            while len(vals) < 64:
                r = s.ask(*[e != v for v in vals])
                if r != "sat": break
                vals.append(s.solver.model().eval(e, model_completion=True).as_long())
            else: raise Unsupported("too many values for an index")
            if not vals: raise Infeasible()
            v = vals[0]; s.stats["forks" if len(vals) > 1 else "implied"] += 1
            for w in vals[1:]: s.pending.append(s.taken + [w])
        s.taken.append(v); s.add(e == v)
        return v
    def pick(s, n):
        k = len(s.taken)
        if k < len(s.prefix): v = s.prefix[k]
        else:
            v = 0
            for w in range(n - 1, 0, -1): s.pending.append(s.taken + [w])
            if n > 1: s.stats["forks"] += 1
        s.taken.append(v); return v
    # --- values
    def fresh(s, sort="real", tag="aux"):
        s.naux += 1; return (z3.Real if sort == "real" else z3.Int)("%s!%d" % (tag, s.naux))
    def root(s, x):
        key = z3.simplify(rv(x), som=True); k = key.sexpr()
        if k not in s.roots:
            v = s.fresh(tag="root"); s.add(v >= 0); s.defs.append(v * v == key); s.aux[v.decl().name()] = ("root", key); s.roots[k] = SNum(v)
            if s.ask(rv(x) < 0) == "sat": s.notes.append("root of a possibly negative number")
        return s.roots[k]
    def rounded(s, x, nd):
        v = s.fresh(tag="rounded"); h = z3.RealVal(1) / (2 * 10**nd)
        s.add(v - rv(x) <= h); s.add(rv(x) - v <= h); s.aux[v.decl().name()] = ("round", rv(x), nd); return SNum(v)
    def token(s, x):
        k = x.e.get_id()
        if k not in s.tokid:
            c = chr(PUA + len(s.tokens)); s.tokid[k] = c; s.tokens[c] = x
            if len(s.tokens) > 6000: raise Unsupported("too many numerals in text")
        return s.tokid[k]
    def parse(s, text, integer=False):
        """the number a text stands for"""
        t = str(text).strip(); err = ValueError("could not convert string to %s: %r" % ("int" if integer else "float", text))
        neg = t[:1] == "-"; u = t[1:] if t[:1] in "+-" else t
        if len(u) == 1 and u in s.tokens:
            v = s.tokens[u]
            if integer and not (isinstance(v, SNum) and v.e.is_int()): raise err
            v = v if integer or v.e.is_real() else num(z3.ToReal(v.e))
            return -v if neg else v
        ip, dot, fp = u.partition(".")
        if (integer and dot) or not all(c in s.digits or c.isdigit() and ord(c) < 128 for c in ip + fp) or not ip + fp: raise err
        e = z3.Sum([(z3.IntVal(int(c)) if c not in s.digits else s.digits[c]) * 10**(len(ip + fp) - 1 - k) for k, c in enumerate(ip + fp)])
        if not integer: e = z3.ToReal(e) / 10**len(fp)
        return num(-e if neg else e)
    # --- decisions on the property
    def decide(s, cond, msg):
        s.stats["checks"] += 1
        c = z3.simplify(cond)
        if z3.is_true(c): return
        s.stats["check_queries"] += 1
        r = s.ask(z3.Not(c))
        if r == "unsat": return
        if s.defs:
            s.solver.push(); s.solver.add(*s.defs); r = s.ask(z3.Not(c)); m = s.solver.model() if r == "sat" else None; s.solver.pop()
            if r == "unsat": return
        else: m = s.solver.model() if r == "sat" else None
        vals = s.values(m) if m is not None else None
        if vals and s.confirm(vals, msg): raise Failed(msg)
        for k in range(24):                   # other points of the same path: inputs fixed at random, auxiliary values computed forward
            vals = s.guess(c, k)
            if vals and s.confirm(vals, msg): raise Failed(msg)
        s.stats["unconfirmed" if r == "sat" else "undecided"] += 1; s.undecided_msgs[msg] = s.undecided_msgs.get(msg, 0) + 1
    def guess(s, c, k):
        s.solver.push()
        try:
            s.solver.set("timeout", 500)
            if k % 3 != 2: s.solver.add(z3.Not(c))
            for n, (kind, v) in s.inputs.items():
                if kind != "real" or s.rng.random() < 0.2: continue
                lo, hi = s.ranges[n]
                w = Fraction(s.rng.choice(NUMERALS)) if k < 0 else Fraction(s.rng.randrange(1, 10**6), 10**6) * (hi - lo) + lo if k % 2 else Fraction(s.rng.choice((lo, hi, Fraction(1, 20000), Fraction(1, 3), Fraction(6, 7), Fraction(3, 10))))
                if not lo <= w <= hi: continue
                s.solver.push(); s.solver.add(v == z3.RealVal("%d/%d" % (w.numerator, w.denominator)))
                if s.ask() != "sat": s.solver.pop()
            if s.ask() != "sat": return None
            return s.values(s.solver.model())
        finally:
            while s.solver.num_scopes(): s.solver.pop()
            s.solver.set("timeout", s.qtime)
    def values(s, m):
        d = {}
        for n, (kind, v) in s.inputs.items():
            x = m.eval(v, model_completion=True)
            if kind == "int": d[n] = x.as_long()
            else:
                if z3.is_algebraic_value(x): x = x.approx(20)
                d[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        return {"values": d, "choices": list(s.choices), "digits": {n: None for n in ()}}
    def confirm(s, vals, msg): raise NotImplementedError
    ranges = {}

NUMERALS = (1.2345678901234567e-05, 9.87654321e-07, 0.1, 0.30000000000000004, 1.0, 0.0, 1 / 3, 0.5, 2.5, 7.000000000000001e-05, 0.0001, 123.0, 1.7976931348623157)      # written in different ways: exponents, many digits, none

class VF:
    """What a harness sees; the same harness runs on symbolic and on plain numbers."""
    def __init__(s, eng, params, replay=None):
        s.eng, s.params, s.replay = eng, params, replay; s.symbolic = replay is None; s.k = 0
    def p(s, name, d=0): return s.params.get(name, d)
    def real(s, name, lo, hi):
        lo, hi = Fraction(lo), Fraction(hi)
        if not s.symbolic: return s.replay["values"].get(name, float(lo))
        v = z3.Real(name); s.eng.add(v >= rv(lo)); s.eng.add(v <= rv(hi)); s.eng.inputs[name] = ("real", v); s.eng.ranges[name] = (lo, hi); return SNum(v)
    def int(s, name, lo, hi):
        if not s.symbolic: return s.replay["values"].get(name, lo)
        v = z3.Int(name); s.eng.add(v >= lo); s.eng.add(v <= hi); s.eng.inputs[name] = ("int", v); return SNum(v)
    def choose(s, n):
        if not s.symbolic:
            v = s.replay["choices"][s.k] if s.k < len(s.replay["choices"]) else 0; s.k += 1; return v
        v = s.eng.pick(n); s.eng.choices.append(v); return v
    def digit(s, name, lo=0):
        """one decimal digit as a character of a text"""
        if not s.symbolic: return str(s.replay["values"].get(name, lo))
        v = z3.Int(name); s.eng.add(v >= lo); s.eng.add(v <= 9); s.eng.inputs[name] = ("int", v)
        c = chr(DIG + len(s.eng.digits)); s.eng.digits[c] = v; return c
    def text(s, x): return str(x)
    def assume(s, c):
        if not s.symbolic:
            if not c: raise Infeasible()
            return
        c = be(c)
        s.eng.add(c)
        if len(s.eng.taken) >= len(s.eng.prefix) and s.eng.ask() == "unsat": raise Infeasible()
    def check(s, c, msg):
        if s.symbolic: s.eng.decide(be(c), msg)
        elif not c: raise Failed(msg)
    def eq(s, a, b, msg, tol=None):
        """equal up to 1e-6"""
        if not isnum(a) or not isnum(b): return s.check(False, msg)
        if not s.symbolic or not (isinstance(a, SNum) or isinstance(b, SNum)):
            if s.symbolic and (isinf(float(a)) or isinf(float(b))): return s.check(float(a) == float(b), msg)
            if float(a) == float(b): return s.check(True, msg)
            return s.check(abs(float(a) - float(b)) <= float(tol or TOL) * (1 + 1e-3) * max(1.0, abs(float(b))), msg)
        if isinf(a) or isinf(b): return s.check(False, msg)
        d = z3.simplify(rv(a) - rv(b), som=True); t = rv(tol or TOL)
        s.eng.decide(z3.And(d <= t, -d <= t), msg)
    def dist(s, d, p, q, msg, tol=None):
        """d is the Euclidean distance of p and q"""
        if not isnum(d): return s.check(False, msg)
        if not s.symbolic: return s.eq(d, ((p[0] - q[0])**2 + (p[1] - q[1])**2)**0.5, msg, tol)
        e = z3.simplify((rv(p[0]) - rv(q[0]))**2 + (rv(p[1]) - rv(q[1]))**2, som=True)
        if isinstance(d, SNum):
            name = d.e.decl().name() if z3.is_const(d.e) else None
            if s.eng.aux.get(name, ("",))[0] == "root":
                k = z3.simplify(s.eng.aux[name][1] - e, som=True)
                if z3.is_true(z3.simplify(k == 0)) or s.eng.ask(k != 0) == "unsat": s.eng.stats["checks"] += 1; return
        ref = s.eng.root(SNum(e)) if not z3.is_rational_value(e) else Fl(Fraction(e.numerator_as_long(), e.denominator_as_long()))**0.5
        s.eq(d, ref, msg, tol)
    def cover(s, k):
        if s.symbolic: s.eng.path_cover.add(k)
    def fails(s, f, *a):
        """does the call raise an ordinary exception?"""
        try: f(*a)
        except Unsupported: raise
        except Exception as e: return e
        return None
