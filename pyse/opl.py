#!/usr/bin/env python3
"""opl.py --params JSON --budget S --repo DIR --out FILE | --replay FILE
Reads the integer programming model (OPL) of the reference solver and lets Z3 decide whether its solutions are the tours."""
import sys, os, re, json, time, itertools, z3
from fractions import Fraction
sys.dont_write_bytecode = True
REL = "src/CplexSolver/TSPmtz.mod"
class Unsupported(Exception): pass

def tokens(t):
    t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S); r = []; i = 0
    rx = re.compile(r"\s+|(\d+\.\d+|\d+|[A-Za-z_]\w*|\.\.\.|\.\.|&&|\|\||<=|>=|==|!=|=>|[-+*/%!<>=(){}\[\];:,.\"'?])")
    while i < len(t):
        m = rx.match(t, i)
        if not m: raise Unsupported("character " + t[i])
        if m.group(1): r.append(m.group(1))
        i = m.end()
    return r

class Parser:
    def __init__(s, t): s.t, s.i = tokens(t), 0; s.decl = []; s.obj = None; s.cons = []
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else ""
    def next(s): s.i += 1; return s.t[s.i - 1]
    def eat(s, x):
        if s.peek() != x: raise Unsupported("expected %s, found %s" % (x, s.peek()))
        s.i += 1
    def skip_block(s):
        while s.peek() != "{": s.next()
        d = 0
        while True:
            c = s.next(); d += c == "{"; d -= c == "}"
            if d == 0: return
    def model(s):
        while s.peek():
            k = s.peek()
            if k == "execute" or k == "main": s.next(); s.skip_block()
            elif k in ("minimize", "maximize"): s.next(); s.obj = (k, s.expr()); s.eat(";")
            elif k == "subject": s.next(); s.eat("to"); s.block(s.cons)
            elif k == "range":
                s.next(); n = s.next(); s.eat("="); a = s.expr(); s.eat(".."); b = s.expr(); s.eat(";"); s.decl.append(("range", n, a, b))
            elif k == "dvar":
                s.next(); ty = s.next(); plus = s.peek() == "+"
                if plus: s.next()
                n = s.next(); dims, dom = s.dims(), None
                if s.peek() == "in": s.next(); dom = s.rng()
                s.eat(";"); s.decl.append(("dvar", n, ty, plus, dims, dom))
            elif k in ("int", "float"):
                s.next(); n = s.next(); dims = s.dims(); v = None
                if s.peek() == "=":
                    s.next(); v = "data" if s.peek() == "..." else s.expr()
                    if v == "data": s.next()
                s.eat(";"); s.decl.append(("data", n, k, dims, v))
            elif k == "constraint": 
                while s.next() != ";": pass
            elif k == ";": s.next()
            else: raise Unsupported("declaration " + k)
        return s
    def dims(s):
        d = []
        while s.peek() == "[":
            s.next()
            while True:
                d.append(s.rng())
                if s.peek() != ",": break
                s.next()
            s.eat("]")
        return d
    def rng(s):
        a = s.expr()
        if s.peek() == "..": s.next(); return ("range", a, s.expr())
        return a
    def block(s, out):
        s.eat("{")
        while s.peek() != "}": s.constraint(out)
        s.eat("}")
    def constraint(s, out):
        if re.match(r"[A-Za-z_]\w*$", s.peek()) and s.peek(1) == ":": s.next(); s.next()
        k = s.peek()
        if k == "forall":
            s.next(); q = s.quals(); body = []
            if re.match(r"[A-Za-z_]\w*$", s.peek()) and s.peek(1) == ":": s.next(); s.next()
            s.block(body) if s.peek() == "{" else s.constraint(body)
            out.append(("forall", q, body))
        elif k == "if":
            s.next(); s.eat("("); c = s.expr(); s.eat(")"); a, b = [], []
            s.block(a) if s.peek() == "{" else s.constraint(a)
            if s.peek() == "else": s.next(); s.block(b) if s.peek() == "{" else s.constraint(b)
            out.append(("if", c, a, b))
        elif k == "{": s.block(out)
        elif k == ";": s.next()
        else: e = s.expr(); s.eat(";"); out.append(("c", e))
    def quals(s):
        s.eat("("); q, cond = [], None
        while True:
            names = [s.next()]
            while s.peek() == ",": s.next(); names.append(s.next())
            s.eat("in"); r = s.rng(); q += [(n, r) for n in names]
            if s.peek() != ",": break
            s.next()
        if s.peek() == ":": s.next(); cond = s.expr()
        s.eat(")"); return q, cond
    def expr(s, lvl=0):
        L = [("||", "or"), ("&&", "&&"), ("=>",), ("==", "!=", "<=", ">=", "<", ">"), ("+", "-"), ("*", "/", "%")]
        if lvl == len(L): return s.unary()
        a = s.expr(lvl + 1)
        while s.peek() in L[lvl]:
            o = s.next(); b = s.expr(lvl + 1)
            if lvl == 3 and isinstance(a, tuple) and a[0] == "cmpchain": a = ("cmpchain", a[1] + [(o, b)])
            elif lvl == 3: a = ("cmpchain", [(None, a), (o, b)])
            else: a = (o, a, b)
        return a
    def unary(s):
        k = s.peek()
        if k == "-": s.next(); return ("neg", s.unary())
        if k == "+": s.next(); return s.unary()
        if k == "!": s.next(); return ("!", s.unary())
        if k in ("sum", "prod", "max", "min") and s.peek(1) == "(" and s.peek(3) in ("in", ","):
            s.next(); q = s.quals()
            if k != "sum": raise Unsupported(k)
            return ("sum", q, s.expr(5))
        if k == "(": s.next(); e = s.expr(); s.eat(")"); return e
        if re.match(r"\d", k): s.next(); return ("num", Fraction(k))
        if re.match(r"[A-Za-z_]", k):
            n = s.next(); idx = []
            if s.peek() == "(": raise Unsupported("call of " + n)
            while s.peek() == "[":
                s.next()
                while True:
                    idx.append(s.expr())
                    if s.peek() != ",": break
                    s.next()
                s.eat("]")
            return ("var", n, idx)
        raise Unsupported("expression " + k)

class Sym:
    """builds Z3 terms"""
    AND = staticmethod(lambda l: z3.And(*l)); OR = staticmethod(lambda a, b: z3.Or(a, b)); NOT = staticmethod(z3.Not)
    @staticmethod
    def val(f): return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
class Con:
    AND = staticmethod(all); OR = staticmethod(lambda a, b: a or b); NOT = staticmethod(lambda a: not a)
    @staticmethod
    def val(f): return f
def isz(x): return isinstance(x, z3.ExprRef)

class Eval:
    """meaning of a model for one number of cities: data and decision variables are Z3 terms or numbers"""
    def __init__(s, m, n, lookup):
        s.m, s.env, s.scalars, s.ranges, s.dv, s.data, s.A = m, {}, {}, {}, {}, {}, None; s.n = n; s.lookup = lookup; s.bounds = []
        ints = [d[1] for d in m.decl if d[0] == "data" and not d[3] and d[4] == "data"]
        if len(ints) != 1: raise Unsupported("the model has not exactly one number as input")
        for d in m.decl:
            if d[0] == "data" and not d[3]: s.scalars[d[1]] = Fraction(n) if d[4] == "data" else s.e(d[4])
            elif d[0] == "range": s.ranges[d[1]] = s.span(d[2], d[3])
            elif d[0] == "data":
                if d[4] != "data" or len(d[3]) != 2: raise Unsupported("data " + d[1])
                s.data[d[1]] = d
            elif d[0] == "dvar":
                s.dv[d[1]] = d
        two = [d for d in s.dv.values() if d[2] == "boolean" and len(d[4]) == 2]
        if len(two) != 1 or len(s.data) != 1: raise Unsupported("the model has not one matrix of boolean variables and one of costs")
        s.x = two[0][1]; s.c = list(s.data)[0]
        for nm, d in s.dv.items():
            for ix in itertools.product(*[s.rng(r) for r in d[4]]):
                v = lookup(nm, ix, d)
                if d[2] == "boolean": s.bounds.append(z3.Or(v == 0, v == 1) if isz(v) else v in (0, 1))
                else:
                    if d[3]: s.bounds.append(v >= 0)
                    if d[2] == "int": s.bounds.append(z3.IsInt(v) if isz(v) else v.denominator == 1)
                    if d[5] is not None: lo, hi = s.lohi(d[5]); s.bounds += [v >= lo, v <= hi]
    def span(s, a, b): return range(int(s.e(a)), int(s.e(b)) + 1)
    def lohi(s, r): return (s.e(r[1]), s.e(r[2])) if r[0] == "range" else (Fraction(s.rng(r)[0]), Fraction(s.rng(r)[-1]))
    def rng(s, r):
        if r[0] == "range": return s.span(r[1], r[2])
        if r[0] == "var" and r[1] in s.ranges: return s.ranges[r[1]]
        raise Unsupported("range")
    def each(s, q):
        qs, cond = q
        def go(k):
            if k == len(qs):
                if cond is None or s.concrete(cond): yield
                return
            n, r = qs[k]; old = s.env.get(n)
            for v in s.rng(r):
                s.env[n] = Fraction(v); yield from go(k + 1)
            if old is None: s.env.pop(n, None)
            else: s.env[n] = old
        yield from go(0)
    def concrete(s, c):
        v = s.e(c)
        if isz(v): raise Unsupported("a condition on a decision variable")
        return bool(v)
    def e(s, t):
        k = t[0]
        if k == "num": return t[1]
        if k == "var":
            n, idx = t[1], [s.e(i) for i in t[2]]
            if not idx and n in s.env: return s.env[n]
            if not idx and n in s.scalars: return s.scalars[n]
            if n in s.data or n in s.dv:
                d = (s.data[n][3] if n in s.data else s.dv[n][4]); ix = tuple(int(i) for i in idx)
                if len(ix) != len(d) or any(i not in s.rng(r) for i, r in zip(ix, d)): raise IndexError("index of %s out of range" % n)
                return s.lookup(n, ix, s.dv.get(n))
            raise Unsupported("name " + n)
        if k == "neg": return -s.e(t[1])
        if k == "!": v = s.e(t[1]); return z3.Not(v) if isz(v) else not v
        if k == "sum":
            r = Fraction(0)
            for _ in s.each(t[1]):
                v = s.e(t[2])
                if isz(v) and z3.is_bool(v): v = z3.If(v, z3.RealVal(1), z3.RealVal(0))
                r = v if isinstance(r, Fraction) and r == 0 else r + v
            return r
        if k == "cmpchain":
            vs = [s.e(x) for _, x in t[1]]; parts = []
            for i in range(1, len(vs)):
                a, b, o = vs[i - 1], vs[i], t[1][i][0]
                parts.append({"==": lambda: a == b, "!=": lambda: a != b, "<=": lambda: a <= b, ">=": lambda: a >= b, "<": lambda: a < b, ">": lambda: a > b}[o]())
            return parts[0] if len(parts) == 1 else (z3.And(*parts) if any(map(isz, parts)) else all(parts))
        a = s.e(t[1])
        if k in ("&&", "||"):
            if not isz(a): return (a and s.e(t[2])) if k == "&&" else (a or s.e(t[2]))
            b = s.e(t[2]); return (z3.And if k == "&&" else z3.Or)(a, b)
        b = s.e(t[2])
        if k == "=>": return z3.Implies(a, b) if isz(a) or isz(b) else (not a or b)
        if k == "+": return a + b
        if k == "-": return a - b
        if k == "*": return a * b
        if k == "/": return a / b
        if k == "%": return Fraction(int(a) % int(b))
        raise Unsupported(k)
    def constraints(s):
        out = list(s.bounds)
        def walk(l):
            for c in l:
                if c[0] == "c": out.append(s.e(c[1]))
                elif c[0] == "if": walk(c[2] if s.concrete(c[1]) else c[3])
                else:
                    for _ in s.each(c[1]): walk(c[2])
        walk(s.m.cons); return out

def conj(l): 
    z = [x for x in l if isz(x)]
    return z3.BoolVal(False) if any(not isz(x) and not x for x in l) else z3.And(*z) if z else z3.BoolVal(True)

def load(repo): return Parser(open(os.path.join(repo, REL)).read()).model()

def concrete(m, n, vals):
    """the model's constraints and objective at given numbers"""
    f = lambda nm, ix, d: Fraction(vals.get("%s%s" % (nm, list(ix)), 0)); e = Eval(m, n, f)
    return all(bool(c) for c in e.constraints()), e.e(m.obj[1]), {(i, j): f(e.x, (i, j), None) for i in range(1, n + 1) for j in range(1, n + 1)}, {(i, j): f(e.c, (i, j), None) for i in range(1, n + 1) for j in range(1, n + 1)}

def is_tour(n, x):
    at, seen = 1, []
    for _ in range(n):
        nx = [j for j in range(1, n + 1) if j != at and x[at, j] == 1]
        if len(nx) != 1 or sum(x[i, nx[0]] for i in range(1, n + 1) if i != nx[0]) != 1: return False
        seen.append(at); at = nx[0]
    return at == 1 and len(set(seen)) == n
LIMIT = 1000

class Run:
    def __init__(s, budget): s.t0 = time.time(); s.budget = budget; s.q = dict(queries=0, sat=0, unsat=0, unknown=0); s.solver_s = 0.0
    def ask(s, *c):
        v = z3.Solver(); v.set("timeout", max(1000, int((s.budget - (time.time() - s.t0)) * 1000))); v.add(*c); t = time.time(); r = str(v.check()); s.solver_s += time.time() - t; s.q["queries"] += 1; s.q[r] += 1
        return r, (v.model() if r == "sat" else None)

def decide(repo, n, run):
    """returns (message, values) or None; raises Unsupported"""
    m = load(repo); V = {}
    def lookup(nm, ix, d):
        k = "%s%s" % (nm, list(ix))
        if k not in V: V[k] = z3.Real(k)
        return V[k]
    e = Eval(m, n, lookup); feas = conj(e.constraints()); R = range(1, n + 1); X = {(i, j): lookup(e.x, (i, j), None) for i in R for j in R}
    if m.obj is None or m.obj[0] != "minimize": return ("the model minimises the length", {})
    vals = lambda mo: {k: str(mo.eval(v, model_completion=True).as_fraction()) for k, v in V.items()}
    und = []
    # every feasible assignment is a tour
    deg = [z3.Sum([X[i, j] for j in R if j != i]) == 1 for i in R] + [z3.Sum([X[i, j] for i in R if i != j]) == 1 for j in R]
    reach = {j: z3.BoolVal(j == 1) for j in R}; alls = dict(reach)
    for _ in range(n - 1):
        reach = {j: z3.Or(*[z3.And(reach[i], X[i, j] == 1) for i in R if i != j]) for j in R}; alls = {j: z3.Or(alls[j], reach[j]) for j in R}
    tour = z3.And(*(deg + [alls[j] for j in R]))
    r, mo = run.ask(feas, z3.Not(tour))
    if r == "sat":
        v = vals(mo); f, _, x, _ = concrete(m, n, v)
        if f and not is_tour(n, x): return ("every feasible assignment is a tour through all cities", v)
        und.append("feasible assignments")
    elif r != "unsat": und.append("feasible assignments")
    # every tour is feasible: position of each city is symbolic; the auxiliary variables are tried at the usual values first
    P = {i: z3.Int("pos%d" % i) for i in R}; base = [P[1] == 0] + [z3.And(P[i] >= 1, P[i] <= n - 1) for i in R if i > 1] + [z3.Distinct(*[P[i] for i in R])]
    def xval(i, j): return z3.RealVal(0) if i == j else z3.If(z3.Or(P[j] == P[i] + 1, z3.And(P[i] == n - 1, P[j] == 0)), z3.RealVal(1), z3.RealVal(0))
    aux = [(nm, d) for nm, d in e.dv.items() if nm != e.x]; ok = False
    sub0 = [(X[i, j], xval(i, j)) for i in R for j in R]
    for w in (lambda i: P[i], lambda i: P[i] + 1, lambda i: z3.If(P[i] == 0, n, P[i])):
        if not aux or any(len(d[4]) != 1 for _, d in aux): break
        sub = sub0 + [(lookup(nm, (i,), d), z3.ToReal(w(i))) for nm, d in aux for i in R]
        r, mo = run.ask(*base, z3.Not(z3.substitute(feas, *sub)))
        if r == "unsat": ok = True; break
    if not ok:          # tour by tour: is there any value of the auxiliary variables?
        for t in itertools.permutations(range(2, n + 1)):
            o = (1,) + t; x = {(o[k], o[(k + 1) % n]) for k in range(n)}
            r, mo = run.ask(feas, *[X[i, j] == (1 if (i, j) in x else 0) for i in R for j in R])
            if r == "unsat": return ("every tour is feasible", {"%s%s" % (e.x, [i, j]): str(int((i, j) in x)) for i in R for j in R})
            if r == "unknown": und.append("feasible tours"); break
    # the objective is the length
    obj = e.e(m.obj[1]); C = {(i, j): lookup(e.c, (i, j), None) for i in R for j in R}; zero = [(X[i, i], z3.RealVal(0)) for i in R]
    diff = z3.simplify(z3.substitute(obj, *zero) - z3.Sum([X[k] * C[k] for k in X if k[0] != k[1]]), som=True)
    r, mo = run.ask(diff != 0)      # as polynomials first; only if they differ, on the tours
    if r != "unsat": r, mo = run.ask(*[z3.And(C[k] >= 0, C[k] <= LIMIT) for k in C], *[z3.Or(X[k] == 0, X[k] == 1) for k in X], *[X[i, i] == 0 for i in R], tour, obj != z3.Sum([z3.If(X[k] == 1, C[k], z3.RealVal(0)) for k in X]))
    if r == "sat":
        v = vals(mo); _, ov, x, c = concrete(m, n, v)
        if is_tour(n, x) and ov != sum(x[k] * c[k] for k in x): return ("the objective is the length of the tour", v)
        und.append("objective")
    elif r != "unsat": und.append("objective")
    run.und = und
    return None

def arg(n, d=None): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
def main():
    repo = os.path.abspath(arg("--repo", "/repo"))
    if "--replay" in sys.argv:
        d = json.load(open(arg("--replay"))); n = d["params"]["n"]; r = decide(repo, n, Run(100)); print("REPRODUCED: " + r[0] if r else "not reproduced"); sys.exit(1 if r else 0)
    p = json.loads(arg("--params", "{}")); run = Run(float(arg("--budget", "30"))); run.und = []; r = None; why = {}
    try: r = decide(repo, p["n"], run)
    except Unsupported as u: why = {str(u): 1}
    except IndexError as u: r = ("the model can be instantiated: " + str(u), {})
    s = dict(run.q, status="violation" if r else "incomplete" if run.und or why else "complete", paths=0 if why else 1, dropped=0, forks=0, implied=run.q["queries"], checks=0 if why else 3, check_queries=run.q["queries"], unconfirmed=0, undecided=len(run.und), unsupported=len(why), concretised=0, solver_s=round(run.solver_s, 2), wall_s=round(time.time() - run.t0, 2),
             cover={"model n%d" % p["n"]: 1}, functions=[REL.split("/")[-1]], samples=[{"cities": p["n"]}], validated=0, unsupported_reasons=why, undecided_messages={u: 1 for u in run.und})
    if r: s["violation"] = {"msg": r[0], "values": r[1], "choices": []}
    json.dump(s, open(arg("--out", "/dev/stdout"), "w"), indent=1)
if __name__ == "__main__": main()
