"""Regular expressions over texts with symbolic digits: the pattern is parsed by Python's own parser and matched by backtracking (the
order of alternatives is Python's); a test on a symbolic digit that both outcomes satisfy is a decision for the solver."""
import re, types
import engine as G
import z3
try: from re import _parser as sp, _constants as sc
except ImportError: import sre_parse as sp, sre_constants as sc

CLS = {sc.CATEGORY_DIGIT: lambda c: c.isdigit(), sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(), sc.CATEGORY_SPACE: lambda c: c.isspace(), sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
       sc.CATEGORY_WORD: lambda c: c.isalnum() or c == "_", sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_")}

def in_set(items, c):
    neg = False; r = False
    for op, a in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: r = r or ord(c) == a
        elif op is sc.RANGE: r = r or a[0] <= ord(c) <= a[1]
        elif op is sc.CATEGORY: r = r or CLS[a](c)
        else: raise G.Unsupported("regular expression set " + str(op))
    return r != neg

def test(f, c):
    """does the character satisfy the predicate?"""
    if ord(c) < 0xE000: return f(c)
    if c in G.E.tokens:                     # a whole numeral: decided when all characters it could have agree
        r = {f(x) for x in "0123456789.-e"}
        if len(r) == 1: return r.pop()
        raise G.Unsupported("regular expression over an opaque numeral")
    d = G.E.digits[c]; ok = [k for k in range(10) if f(str(k))]
    if len(ok) == 10: return True
    if not ok: return False
    return G.E.branch(z3.Or(*[d == k for k in ok]))

def m(items, k, t, i, g, fl, cont):
    """matches items[k:] at t[i:]; calls cont with the end; returns what it returns"""
    if k == len(items): return cont(i, g)
    op, a = items[k]; nxt = lambda j, g: m(items, k + 1, t, j, g, fl, cont)
    if op is sc.LITERAL:
        ci = fl & re.I
        f = (lambda c: c.lower() == chr(a).lower()) if ci else (lambda c: ord(c) == a)
        return nxt(i + 1, g) if i < len(t) and test(f, t[i]) else None
    if op is sc.NOT_LITERAL: return nxt(i + 1, g) if i < len(t) and test(lambda c: ord(c) != a, t[i]) else None
    if op is sc.ANY: return nxt(i + 1, g) if i < len(t) and (fl & re.S or t[i] != "\n") else None
    if op is sc.IN: return nxt(i + 1, g) if i < len(t) and test(lambda c: in_set(a, c), t[i]) else None
    if op is sc.AT:
        if a in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING): ok = i == 0 or a is sc.AT_BEGINNING and fl & re.M and t[i - 1] == "\n"
        elif a in (sc.AT_END, sc.AT_END_STRING): ok = i == len(t) or a is sc.AT_END and (i == len(t) - 1 and t[i] == "\n" or fl & re.M and t[i] == "\n")
        elif a in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            w = lambda j: 0 <= j < len(t) and (ord(t[j]) >= 0xE000 or CLS[sc.CATEGORY_WORD](t[j]))
            ok = (w(i - 1) != w(i)) == (a is sc.AT_BOUNDARY)
        else: raise G.Unsupported("regular expression position")
        return nxt(i, g) if ok else None
    if op is sc.SUBPATTERN:
        n, add, dele, p = a
        def done(j, g2): return nxt(j, dict(g2, **{}) if n is None else {**g2, n: (i, j)})
        return m(list(p), 0, t, i, g, (fl | add) & ~dele, done)
    if op is sc.BRANCH:
        for alt in a[1]:
            r = m(list(alt), 0, t, i, g, fl, nxt)
            if r is not None: return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, p = a; p = list(p)
        if len(p) == 1 and p[0][0] in (sc.LITERAL, sc.IN, sc.ANY, sc.NOT_LITERAL):       # one character at a time
            one = lambda j: m(p, 0, t, j, g, fl, lambda e, g2: e)
            if op is sc.MAX_REPEAT:
                ends = [i]
                while len(ends) - 1 < hi:
                    e = one(ends[-1])
                    if e is None: break
                    ends.append(e)
                for c in range(len(ends) - 1, lo - 1, -1):
                    r = nxt(ends[c], g)
                    if r is not None: return r
                return None
            j, c = i, 0
            while True:
                if c >= lo:
                    r = nxt(j, g)
                    if r is not None: return r
                if c == hi: return None
                j = one(j); c += 1
                if j is None: return None
        def rep(j, c, g):
            more = lambda: m(p, 0, t, j, g, fl, lambda e, g2: rep(e, c + 1, g2) if e > j or c < lo else None) if c < hi else None
            if op is sc.MAX_REPEAT:
                r = more()
                return r if r is not None else (nxt(j, g) if c >= lo else None)
            r = nxt(j, g) if c >= lo else None
            return r if r is not None else more()
        return rep(i, 0, g)
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        d, p = a
        if d < 0:
            w = sp.SubPattern(sp.State()) if False else None
            lo, hi = p.getwidth(); hit = any(i - k >= 0 and m(list(p), 0, t, i - k, g, fl, lambda e, g2: e if e == i else None) is not None for k in range(lo, hi + 1))
        else: hit = m(list(p), 0, t, i, g, fl, lambda e, g2: e) is not None
        return nxt(i, g) if hit == (op is sc.ASSERT) else None
    raise G.Unsupported("regular expression " + str(op))

class Match:
    def __init__(s, t, i, j, g, names): s.string, s._s, s.g, s.names = t, (i, j), g, names
    def span(s, n=0): return s._s if n == 0 else s.g.get(s.names.get(n, n), (-1, -1))
    def start(s, n=0): return s.span(n)[0]
    def end(s, n=0): return s.span(n)[1]
    def _one(s, n): a, b = s.span(n); return None if a < 0 else s.string[a:b]
    def group(s, *n): return s._one(n[0] if n else 0) if len(n) < 2 else tuple(map(s._one, n))
    def __getitem__(s, n): return s._one(n)
    def groups(s): return tuple(s._one(n) for n in range(1, s.names.get("#", 0) + 1))
    def groupdict(s): return {k: s._one(k) for k in s.names if k != "#"}

class Pattern:
    def __init__(s, p, fl=0):
        s.pattern, s.flags, s.native = p, fl, re.compile(p, fl); t = sp.parse(p, fl); s.items = list(t); s.fl = t.state.flags | fl
        s.names = dict(s.native.groupindex); s.names["#"] = s.native.groups
    def at(s, t, i, full=False):
        r = m(s.items, 0, t, i, {}, s.fl, lambda e, g: (e, g) if not full or e == len(t) else None)
        return None if r is None else Match(t, i, r[0], r[1], s.names)
    def scan(s, t, i):
        lead = chr(s.items[0][1]) if s.items and s.items[0][0] is sc.LITERAL and not s.fl & re.I else None
        while i <= len(t):
            if lead is not None:
                i = t.find(lead, i)
                if i < 0: return None
            r = s.at(t, i)
            if r: return r
            i += 1
        return None
    def plain(s, t): return not G.has_tokens(t)
    def search(s, t, pos=0): return s.native.search(t, pos) if s.plain(t) else s.scan(t, pos)
    def match(s, t): return s.native.match(t) if s.plain(t) else s.at(t, 0)
    def fullmatch(s, t): return s.native.fullmatch(t) if s.plain(t) else s.at(t, 0, True)
    def finditer(s, t):
        if s.plain(t): yield from s.native.finditer(t); return
        i = 0
        while True:
            r = s.scan(t, i)
            if not r: return
            yield r; i = r.end() if r.end() > r.start() else r.end() + 1
    def findall(s, t):
        n = s.native.groups
        return [r.group(0) if n == 0 else r.group(1) if n == 1 else r.groups() for r in s.finditer(t)]
    def split(s, t, maxsplit=0):
        if s.plain(t): return s.native.split(t, maxsplit)
        r, i = [], 0
        for x in s.finditer(t): r.append(t[i:x.start()]); r += list(x.groups()); i = x.end()
        return r + [t[i:]]
    def sub(s, f, t):
        if s.plain(t): return s.native.sub(f, t)
        r, i = [], 0
        for x in s.finditer(t): r.append(t[i:x.start()]); r.append(f(x) if callable(f) else f); i = x.end()
        return "".join(r) + t[i:]

_c = {}
def compile(p, flags=0):
    if isinstance(p, Pattern): return p
    if (p, flags) not in _c: _c[p, flags] = Pattern(p, flags)
    return _c[p, flags]
def module():
    r = types.ModuleType("re")
    for k, v in vars(re).items():
        if not k.startswith("__"): setattr(r, k, v)
    r.compile = compile
    for n in ("search", "match", "fullmatch", "findall", "finditer", "split"): setattr(r, n, (lambda n: lambda p, t, flags=0, **k: getattr(compile(p, flags), n)(t, **k))(n))
    r.sub = lambda p, f, t, flags=0: compile(p, flags).sub(f, t)
    return r
