"""Symbolic execution of the repository's Python code: starts pyse/run.py on one harness and reads what it found. The native helpers
(the solver's own reader, and the reports it prints) are built from the tree once per check."""
import os, subprocess, json, re, time, sys, threading
import build
HERE = build.HERE
sys.path.insert(0, os.path.join(HERE, "pyse"))
_lock = threading.Lock(); _env = {}
PY = "python3-vt"

def env(ctx, need):
    with _lock:
        if not _env:
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=ctx.work); d = os.path.join(ctx.work, "pynative"); os.makedirs(d, exist_ok=True)
            import native
            for k, f in (("VF_CREADER", native.reader), ("VF_REPORTS", native.reports)):
                e.pop(k, None)
                if k in need:
                    try: r = f(build.REPO, d)
                    except Exception: r = None
                    if r: e[k] = r
            _env.update(e)
        return _env

def run(ctx, j, bud):
    r = {"name": j["name"], "status": "skipped", "harness": "pyse/" + j["harness"], "params": j.get("params", {}), "violations": [], "samples": [], "validated": 0, "paths": 0}
    if ctx.left() < 2: r["status"] = "not run"; r["note"] = "out of time"; return r
    e = env(ctx, ["VF_CREADER", "VF_REPORTS"]); out = os.path.join(ctx.work, "py_" + re.sub(r"\W", "_", j["name"]) + ".json")
    cmd = [PY, os.path.join(HERE, "pyse", "opl.py" if j["harness"] == "opl" else "run.py")] + ([] if j["harness"] == "opl" else [j["harness"]]) + ["--params", json.dumps(j.get("params", {})), "--budget", "%.1f" % bud, "--repo", build.REPO, "--out", out, "--seed", str(ctx.seed)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, start_new_session=True); ctx.procs.append(p)
    try: log, _ = p.communicate(timeout=bud + 45)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate(); r["status"] = "incomplete"; r["note"] = "engine did not stop in time"; return r
    try: s = json.load(open(out))
    except Exception:
        r["note"] = "engine failed: rc %s %s" % (p.returncode, log[-300:].replace("\n", " ")); return r
    for k in ("status", "paths", "dropped", "forks", "implied", "queries", "sat", "unsat", "unknown", "checks", "check_queries", "unconfirmed", "undecided", "unsupported", "concretised", "solver_s", "wall_s", "cover", "functions", "validated", "unsupported_reasons", "undecided_messages"): r[k] = s[k]
    r["decisions"] = s["forks"] + s["implied"]
    r["samples"] = [{"scenario": j["name"], "path": x} for x in s["samples"]]
    if s["unsupported_reasons"]: r["note"] = "%d paths not followed: %s" % (sum(s["unsupported_reasons"].values()), list(s["unsupported_reasons"])[0])
    if not s["paths"] and s["status"] != "violation": r["status"] = "skipped" if s["unsupported"] else "incomplete"
    if s.get("violation"):
        v = s["violation"]
        r["violations"].append({"msg": v["msg"], "text": "# property %s\n# scenario %s\n# job %s\n# %s\n# the values below were run again on the real code with plain numbers and the assertion failed\n# rerun: python3 %s/replay.py THIS_FILE\n%s\n" % (
            ctx.prop, j["name"], json.dumps(j), v["msg"], HERE, json.dumps({"params": j.get("params", {}), "values": v["values"], "choices": v["choices"]}))})
    return r
