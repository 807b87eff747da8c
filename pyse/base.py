import types
from engine import Unsupported

class Stub(types.ModuleType):
    """a module of which only what is set here exists"""
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("%s.%s" % (s.__name__, n))

class NoGrad:
    def __enter__(s): return s
    def __exit__(s, *a): return False
    def __call__(s, f): return f
