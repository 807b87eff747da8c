#!/usr/bin/env python3
"""run.py HARNESS --params JSON --budget S --repo DIR --out FILE [--outdir DIR] [--seed N] | --replay FILE
Explores a harness symbolically, or replays a counterexample on plain numbers."""
import sys, os, io, json, time, importlib, subprocess, traceback, z3
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import engine as G, shims
sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter('ignore')

def arg(n, d=None): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d

NAMES = None
def stand_ins():
    """the names of the classes and functions of the stand-ins"""
    global NAMES
    if NAMES is None:
        NAMES = set()
        for m in list(sys.modules.values()):
            if os.path.dirname(getattr(m, "__file__", None) or "") == HERE: NAMES |= {n for n, v in vars(m).items() if isinstance(v, type) and v.__module__ == m.__name__ and not issubclass(v, BaseException)}
    return NAMES
def limits(x, repo):
    """is this error one of the stand-ins (something they do not offer), or of the harness calling code whose parameters have changed?"""
    if not isinstance(x, (TypeError, AttributeError, NotImplementedError)): return None
    f = os.path.realpath(traceback.extract_tb(x.__traceback__)[-1].filename); t = str(x)
    if f.startswith(HERE + os.sep):
        if os.path.basename(f) == "engine.py" and isinstance(x, TypeError) or "write() argument" in t: return None
        return "outside the stand-ins: " + t
    if isinstance(x, AttributeError) and any("'%s' object" % n in t for n in stand_ins()): return "outside the stand-ins: " + t
    if isinstance(x, TypeError) and "argument" in t and (t.split("(")[0].split(".")[0] in stand_ins() or "<lambda>" in t.split("(")[0]): return "outside the stand-ins: " + t
    return None

def execute(vf, mod, repo, funcs=None):
    """runs the harness once; returns None or the message of what failed"""
    w = shims.World(vf, repo)
    if funcs is not None:
        def prof(fr, ev, a):
            if ev == "call" and fr.f_code.co_filename.startswith(repo) and not fr.f_code.co_name.startswith("<"): funcs.add(fr.f_code.co_name)
        sys.setprofile(prof)
    out = sys.stdout; sys.stdout = io.StringIO()
    try: mod.harness(vf, w)
    except G.Failed as f: return f.msg
    except Exception as x:                # where the stand-ins end, not the code
        why = limits(x, repo)
        if why: raise G.Unsupported(why)
        raise
    finally: sys.setprofile(None); sys.stdout = out
    return None

def replay(mod, repo, params, vals):
    """the same harness on plain numbers"""
    old = G.E
    class Plain: symbolic = False
    G.E = Plain()
    try:
        vf = G.VF(None, params, vals)
        try: return execute(vf, mod, repo)
        except G.Infeasible: return None
        except G.Unsupported as e: return None
        except Exception as e:
            return "the code raises %s: %s" % (type(e).__name__, str(e)[:160])
    finally: G.E = old

def main():
    name = sys.argv[1]; repo = os.path.abspath(arg("--repo", "/repo")); mod = importlib.import_module(name)
    if "--replay" in sys.argv:
        d = json.load(open(arg("--replay"))); m = replay(mod, repo, d["params"], d)
        print("REPRODUCED: " + m if m else "not reproduced"); sys.exit(1 if m else 0)
    params = json.loads(arg("--params", "{}")); budget = float(arg("--budget", "20")); seed = int(arg("--seed", "1"))
    class Eng(G.Engine):
        def confirm(s, vals, msg):
            m = replay(mod, repo, params, vals)
            if m: s.found = (m, vals)
            return bool(m)
    e = Eng(budget, seed); G.E = e; work = [[]]; viol = None; samples = []; funcs = set(); validated = 0; complete = True; err = {}
    diverged = []
    try:
        while work:
            prefix = work.pop() if e.rng.random() < 0.7 else work.pop(e.rng.randrange(len(work)))
            if time.time() - e.t0 > budget: raise G.OutOfTime()
            e.start(prefix); e.ranges = {}; e.path_cover = set(); vf = G.VF(e, params)
            ok = True; msg = None
            try: msg = execute(vf, mod, repo, funcs if e.stats["paths"] < 4 else None)
            except G.Infeasible: ok = False; e.stats["dropped"] += 1
            except G.Unsupported as x:
                ok = False; e.stats["unsupported"] += 1; err[str(x)[:200]] = err.get(str(x)[:200], 0) + 1
                if err[str(x)[:200]] <= 3:        # the path cannot be followed on terms: inputs that the solver finds for what was followed of it, on plain numbers
                    for k in range(4):
                        vals = e.guess(z3.BoolVal(False), k if k < 3 else -1)
                        m = vals and replay(mod, repo, params, vals)
                        if m: e.found = m, vals; msg = m; break
            except Exception as x:
                ok = False; t = "the code raises %s: %s" % (type(x).__name__, str(x)[:160])
                if "--trace" in sys.argv: traceback.print_exc()
                r = e.ask()
                vals = e.values(e.solver.model()) if r == "sat" else None
                hit = vals and e.confirm(vals, t)
                if not hit:
                    for k in range(12):
                        vals = e.guess(z3.BoolVal(False), k)
                        if vals and e.confirm(vals, t): hit = True; break
                if hit: msg = t
                else: e.stats["unsupported"] += 1; err[t] = err.get(t, 0) + 1
            work += e.pending
            if msg: viol = e.found; break
            if ok:
                e.stats["paths"] += 1
                for k in e.path_cover: e.cover[k] = e.cover.get(k, 0) + 1
                if len(samples) < 6 and e.rng.random() < 0.5 or not samples:
                    vals = e.guess(z3.BoolVal(False), 1)
                    if vals:
                        m = replay(mod, repo, params, vals)
                        samples.append({"values": dict(list(vals["values"].items())[:12]), "choices": vals["choices"][:12]})
                        if m: viol = (m, vals); break
                        validated += 1
                        vals = e.guess(z3.BoolVal(False), -1)       # another input of the same path whose numerals look different
                        m = vals and replay(mod, repo, params, vals)
                        if m: viol = (m, vals); break
    except G.OutOfTime: complete = False
    if e.stats["unsupported"] or e.stats["undecided"] or e.stats["unconfirmed"] or e.stats["unknown"] and False: complete = False
    r = dict(e.stats, status="violation" if viol else "complete" if complete else "incomplete", solver_s=round(e.solver_s, 2), wall_s=round(time.time() - e.t0, 2),
             cover=e.cover, functions=sorted(funcs), samples=samples, validated=validated, unsupported_reasons=err, undecided_messages=e.undecided_msgs)
    if viol: r["violation"] = {"msg": viol[0], "values": viol[1]["values"], "choices": viol[1]["choices"]}
    json.dump(r, open(arg("--out", "/dev/stdout"), "w"), indent=1)
if __name__ == "__main__": main()
