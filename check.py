#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on the current tree of /repo.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: a counterexample, confirmed on the real code."""
import sys, os, json, time, tempfile, shutil, subprocess, signal, hashlib, glob, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
import build, registry
from concurrent.futures import ThreadPoolExecutor

def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t0 = time.time()
    spec = registry.PROPS[prop]
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    rc = 0
    try:
        rc = run(prop, spec, tier, seed, work, t0, only)
    except build.BuildError as e:
        print("the tree does not build: %s" % str(e)[-1500:]); rc = 2
    finally:
        if "--keep" in sys.argv: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def save_replay(prop, text):
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.txt" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
    open(p, "w").write(text)
    return p

def run(prop, spec, tier, seed, work, t0, only):
    jobs = [j for j in spec["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and (not only or only in j["name"])]
    total = spec.get("budget", {}).get(tier, 170 if tier == "quick" else 800)
    results, violations, known, notes = [], [], [], []
    ex = ThreadPoolExecutor(6)
    # builds: one per distinct configuration
    kinds = {}
    for j in jobs: kinds.setdefault(j["kind"], []).append(j)
    import runners
    ctx = runners.Ctx(prop, tier, seed, work, t0, total)
    runners.prepare(ctx, jobs)
    par = {id(j): ex.submit(runners.run_job, ctx, j) for j in jobs if j["kind"] in ("cbmc", "py")}      # one process each, in parallel
    for j in sorted(jobs, key=lambda j: j["kind"] == "cbmc"):
        r = par[id(j)].result() if id(j) in par else runners.run_job(ctx, j)
        results.append(r)
        for v in r.get("violations", []):
            k = registry.known(prop, v["msg"], j["name"])
            if k:
                if k not in known: known.append(k)
            else: violations.append((j, v))
        if violations: break
    for f in par.values(): f.cancel()
    for p in ctx.procs:
        if p.poll() is None:
            try: os.killpg(p.pid, 9)
            except OSError: pass
    return finish(prop, spec, tier, seed, t0, results, violations, known, notes, ctx)

def finish(prop, spec, tier, seed, t0, results, violations, known, notes, ctx):
    tot = lambda k: sum(r.get(k, 0) for r in results)
    cover = {}
    for r in results:
        for k, v in r.get("cover", {}).items(): cover[k] = cover.get(k, 0) + v
    samples = []
    for r in results: samples += r.get("samples", [])[:3]
    cov = {
        "states": tot("paths"), "transitions": tot("decisions"),
        "traces_validated_against_impl": tot("validated"), "samples": samples[:12] or ["no path completed"],
        "exhaustive": all(r["status"] == "complete" for r in results) and bool(results),
        "queries_discharged": tot("queries"), "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "property_assertions_decided": tot("checks"),
        "functions_encoded": sorted({f for r in results for f in r.get("functions", [])}),
        "scenarios": [{k: v for k, v in r.items() if k not in ("functions", "samples", "violations")} for r in results],
        "path_classes": cover, "bounds": spec["bounds"], "outside_the_bounds": spec.get("outside", ""),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": registry.ASSUME + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if not violations and any(r["status"] == "skipped" for r in results): ev["assumptions"] = ev["assumptions"] + ["scenarios marked skipped could not be built against this tree and were not decided"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str); os.replace(p + ".tmp", p)
    for r in results:
        print("%-28s %-10s paths=%d decisions=%d queries=%d checks=%d validated=%d %.1fs %s" % (r["name"], r["status"], r.get("paths", 0), r.get("decisions", 0), r.get("queries", 0), r.get("checks", 0), r.get("validated", 0), r.get("wall_s", 0), r.get("note", "")))
    print("coverage:", json.dumps(cover))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for j, v in violations:
        path = save_replay(prop, v["text"])
        print("  %s: %s" % (j["name"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %s in %.1fs" % (prop, tier, "VIOLATED" if violations else "held on everything explored", time.time() - t0))
    return 1 if violations else 0

if __name__ == "__main__": main()
