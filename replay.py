#!/usr/bin/env python3
"""replay.py FILE: runs a counterexample reported by a check again on the real code of the current tree (compiled natively, or run by
the Python interpreter, on plain numbers; no solver is involved). Exit 1 if the failure is reproduced."""
import sys, os, json, tempfile, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib")); import build, runners, pyrun, cbmcrun

def main():
    f = os.path.abspath(sys.argv[1]); txt = open(f).read()
    j = next(json.loads(l[6:]) for l in txt.splitlines() if l.startswith("# job ")); work = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        ctx = runners.Ctx("replay", "quick", 1, work, 0, 1e12)
        if j["kind"] == "py":
            d = os.path.join(work, "v.json"); open(d, "w").write([l for l in txt.splitlines() if l.startswith("{")][-1])
            e = pyrun.env(ctx, ["VF_CREADER", "VF_REPORTS"]); s = os.path.join(HERE, "pyse")
            cmd = [pyrun.PY] + ([os.path.join(s, "opl.py")] if j["harness"] == "opl" else [os.path.join(s, "run.py"), j["harness"]]) + ["--replay", d, "--repo", build.REPO]
            return subprocess.run(cmd, env=e).returncode
        if j["kind"] == "cbmc":
            _, native = cbmcrun.compile_goto(ctx, j)
            r = subprocess.run(["timeout", "-s", "KILL", "20", native, f], cwd=work); print("exit status", r.returncode); return 1 if r.returncode else 0
        b = build.build(work, "b", os.path.join(HERE, "harness", j["harness"] + ".c"), j["defs"], j.get("externals", ()), sanitize=runners.san(j), symsan=list(j.get("symsan", ())), ichk=bool(j.get("ichk")))
        env = dict(os.environ, VF_PARAMS=runners.params(j), TMPDIR=work)
        if j.get("mem"): env["VF_MEM"] = "1"
        return subprocess.run([os.path.join(HERE, "engine/replay.sh"), b[1], f], env=env).returncode
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
