#!/usr/bin/env python3
"""mkseed.py [ID...]: writes seeded/<id>/ from tools/seeds/specs.py and confirms each one in a scratch copy: applies, builds, passes the stable
tests, demo passes without and fails with the change."""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools", "seeds"))
import specs
M = "src/HybridSolver/main/"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def one(s):
    T = tempfile.mkdtemp(prefix="seed_"); R = T + "/repo"; out = os.path.join(HERE, "seeded", s["id"]); D = T + "/demo"
    try:
        sh("cp -a /repo %s" % R)
        sh("git -C %s checkout -q -- . && rm -rf %s/_build" % (R, R))
        for f, old, new in s["edits"]:
            p = os.path.join(R, f if f.startswith("src/") else M + f); t = open(p, newline="").read()
            if "\r\n" in t and "\r\n" not in old: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != s.get("count", 1): return "%s: text occurs %d times in %s" % (s["id"], t.count(old), f)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
        os.makedirs(D)
        for f in s["files"]: shutil.copy(os.path.join(HERE, "tools", "seeds", f), D)
        open(D + "/demo.sh", "w").write("#!/bin/bash\n# exit 0: the behaviour is as it should be; other: it is not. Run in a checkout.\n" + s["demo"].strip() + "\n"); os.chmod(D + "/demo.sh", 0o755)
        r1 = sh("unshare -rm bash -c 'mount --bind %s /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json'" % (R, T))
        try: miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(T + "/o.json"))["passed"])
        except Exception: return "%s: does not build\n%s" % (s["id"], r1.stdout[-500:])
        if miss: return "%s: tests fail: %s" % (s["id"], sorted(miss)[:4])
        r2 = sh("timeout 250 bash %s/demo.sh" % D, cwd=R)
        sh("git -C %s checkout -q -- ." % R)
        r3 = sh("timeout 250 bash %s/demo.sh" % D, cwd=R)
        dirty = sh("git -C %s status --short" % R).stdout
        if r3.returncode != 0: return "%s: demo fails on the unchanged tree (%d)\n%s" % (s["id"], r3.returncode, r3.stdout[-400:])
        if r2.returncode == 0: return "%s: demo does not notice the change" % s["id"]
        if dirty: return "%s: demo leaves %s" % (s["id"], dirty)
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(D, out)
        open(out + "/patch.diff", "wb").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return "%s: ok (%s)" % (s["id"], r2.stdout.strip().splitlines()[-1][:150] if r2.stdout.strip() else r2.returncode)
    finally: shutil.rmtree(T, ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [s for s in specs.SEEDS if not ids or s["id"] in ids]): print(r, flush=True)
