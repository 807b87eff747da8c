"""Runs one job: a symbolic execution (C), a bounded model check (CBMC) or a symbolic execution of Python code."""
import os, subprocess, json, time, glob, sys
from concurrent.futures import ThreadPoolExecutor
import build
HERE = build.HERE

class Ctx:
    def __init__(s, prop, tier, seed, work, t0, total):
        s.prop, s.tier, s.seed, s.work, s.t0, s.total = prop, tier, seed, work, t0, total
        s.builds = {}; s.procs = []
    def left(s): return s.total - (time.time() - s.t0)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vla-bound,alignment,enum,bool,float-cast-overflow,nonnull-attribute,pointer-overflow,shift"]

def san(j): return SAN if j.get("native") == "asan" else ["-fsanitize=memory", "-fno-sanitize-memory-param-retval", "-fsanitize-memory-track-origins=0"] if j.get("native") == "msan" else None

def cfg_key(j): return (j["harness"], tuple(j["defs"]), tuple(j.get("externals", ())), j.get("native", ""), tuple(j.get("symsan", ())), bool(j.get("ichk")))

def prepare(ctx, jobs):
    se = [j for j in jobs if j["kind"] == "se"]
    if not se: return
    keys = {}
    for j in se: keys.setdefault(cfg_key(j), j)
    ex = ThreadPoolExecutor(4)
    eng = ex.submit(build.symrun, ctx.work)
    # the tree itself must compile; a harness that no longer fits is skipped
    def one(kv):
        i, (k, j) = kv
        try:
            return k, build.build(ctx.work, "b%d" % i, os.path.join(HERE, "harness", j["harness"] + ".c"), j["defs"], j.get("externals", ()), sanitize=san(j), symsan=list(j.get("symsan", ())), ichk=bool(j.get("ichk")))
        except build.BuildError as e: return k, e
    for k, r in ex.map(one, list(enumerate(keys.items()))): ctx.builds[k] = r
    ctx.symrun = eng.result()
    if all(isinstance(r, Exception) for r in ctx.builds.values()):
        j = se[0]
        build.compiles(ctx.work, j["defs"])      # raises BuildError if the tree is at fault

def run_job(ctx, j):
    return {"se": run_se, "cbmc": run_cbmc, "py": run_py}[j["kind"]](ctx, j)

def budget(ctx, j):
    b = j.get("budget", (10, 60))
    b = b[0] if ctx.tier == "quick" else b[1]
    return max(2.0, min(b, ctx.left()))

def params(j): return ",".join("%s=%s" % kv for kv in j.get("params", {}).items())

def replay_text(ctx, j, msg, cex, log):
    return "# property %s\n# scenario %s\n# job %s\n# %s\n%s\n# --- replay on the natively compiled code\n%s\n# rerun: python3 %s/replay.py THIS_FILE\n" % (
        ctx.prop, j["name"], json.dumps({k: v for k, v in j.items()}), msg, cex, "".join("#   " + l + "\n" for l in log.splitlines()), HERE)

def run_se(ctx, j):
    r = {"name": j["name"], "status": "skipped", "harness": j["harness"], "defs": j["defs"], "params": j.get("params", {})}
    b = ctx.builds[cfg_key(j)]
    if isinstance(b, Exception):
        r["note"] = "harness does not build: " + str(b)[-300:].replace("\n", " "); return r
    if ctx.left() < 1: r["status"] = "not run"; r["note"] = "out of time"; return r
    so, binary, fns = b
    out = os.path.join(ctx.work, "out_" + j["name"].replace("/", "_")); os.makedirs(out, exist_ok=True)
    env = dict(os.environ, VF_PARAMS=params(j), TMPDIR=ctx.work)
    if j.get("mem"): env["VF_MEM"] = "1"
    rep = os.path.join(HERE, "engine/replay.sh") + " " + binary
    bud = budget(ctx, j); stats = os.path.join(out, "stats")
    cmd = [ctx.symrun, "--so", so, "--budget", "%.1f" % bud, "--workers", str(j.get("workers", 8)), "--seed", str(ctx.seed), "--replay", rep, "--outdir", out, "--stats", stats, "--wit", "6", "--mem", "1" if j.get("mem") else "0"] + list(j.get("extra", []))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace", start_new_session=True)
    try: log, _ = p.communicate(timeout=bud + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); log, _ = p.communicate(); r["status"] = "incomplete"; r["note"] = "engine did not stop in time"; return r
    try: s = json.load(open(stats))
    except Exception:
        r["status"] = "skipped"; r["note"] = "engine failed: rc %s %s" % (p.returncode, log[-300:].replace("\n", " ")); return r
    r.update({k: s[k] for k in ("status", "paths", "dropped", "queries", "sat", "unsat", "unknown", "checks", "check_queries", "forks", "implied", "lp_feasible", "lp_infeasible", "concretised", "inexact_paths", "unconfirmed", "undecided_checks", "exits", "solver_s", "wall_s", "cover")})
    r["decisions"] = s["forks"] + s["implied"]; r["queries"] = s["queries"] + s["lp_feasible"] + s["lp_infeasible"]
    r["functions"] = fns; r["violations"] = []
    if s["undecided_checks"] and r["status"] == "complete": r["status"] = "incomplete"; r["note"] = "%d assertions left undecided by the solver" % s["undecided_checks"]
    if log.strip(): r["engine_messages"] = log[-500:]
    if s["status"] == "violation":
        cex = open(s["cex"]).read(); cl = open(s["cex"] + ".log").read() if os.path.exists(s["cex"] + ".log") else ""
        r["violations"].append({"msg": s["violation"], "text": replay_text(ctx, j, s["violation"], cex, cl)})
        return r
    # sample paths: the solver's model is run on the natively compiled code, which must agree
    r["validated"] = 0; r["samples"] = []
    def wit(w):
        q = subprocess.run([os.path.join(HERE, "engine/replay.sh"), binary, w], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(env, VF_TIMEOUT="20"))
        return w, q.returncode, q.stdout
    with ThreadPoolExecutor(6) as ex:
        for w, rc, txt in ex.map(wit, sorted(glob.glob(out + "/*.wit"))):
            c = open(w).read(); r["samples"].append({"scenario": j["name"], "path": [l for l in c.splitlines()][:24]})
            if rc == 1:
                msg = [l for l in txt.splitlines() if l.startswith("REPRODUCED: ")]
                msg = msg[-1][12:] if msg else "native run of a path model failed"
                r["violations"].append({"msg": msg, "text": replay_text(ctx, j, msg, c, txt)}); r["status"] = "violation"
            elif "not reproduced" in txt:
                sym = [l[8:] for l in c.splitlines() if l.startswith("# path: ")]; nat = [l[13:] for l in txt.splitlines() if l.startswith("native path: ")]
                if sym[:1] == nat[:1]: r["validated"] += 1
                else: r["diverged"] = r.get("diverged", 0) + 1; r["divergence"] = [sym[:1], nat[:1]]
    return r

def run_cbmc(ctx, j):
    import cbmcrun
    return cbmcrun.run(ctx, j, budget(ctx, j))

def run_py(ctx, j):
    import pyrun
    return pyrun.run(ctx, j, budget(ctx, j))
