"""Bounded model checking of the repository's C code with CBMC (bit-precise, IEEE floats): the sources of the
tree are compiled with goto-cc together with a harness, CBMC decides every assertion and memory-safety condition,
and a counterexample is run on the natively compiled code before it is reported."""
import os, subprocess, json, re, time, resource
import build
HERE = build.HERE

def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30)); os.setsid()

def compile_goto(ctx, j):
    d = os.path.join(ctx.work, "g_" + re.sub(r"\W", "_", j["name"])); os.makedirs(d, exist_ok=True)
    inc = ["-I" + i for i in build.incdirs()] + ["-I" + os.path.join(HERE, "harness/cbmc")]
    defs = ["-D" + x for x in j["defs"]]
    h = os.path.join(HERE, "harness/cbmc", j["harness"] + ".c")
    srcs = [s for s in build.sources() if os.path.basename(s) != "main.c"]
    out = os.path.join(d, "h.goto")
    objs = []
    for k, s in enumerate(srcs + [h]):
        o = os.path.join(d, "o%d.goto" % k)
        build.run(["goto-cc", "-c", "-std=gnu99", "-w", "-D__CPROVER__"] + defs + inc + [s, "-o", o]); objs.append(o)
    build.run(["goto-cc", "-o", out, "--function", "harness"] + objs)
    native = os.path.join(d, "h.bin")
    build.run(["gcc", "-std=gnu99", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=bounds"] + defs + inc + srcs + [h, "-o", native, "-lm"])
    return out, native

def run(ctx, j, bud):
    r = {"name": j["name"], "status": "skipped", "harness": "cbmc/" + j["harness"], "defs": j["defs"], "unwind": j["unwind"], "violations": [], "samples": [], "validated": 0}
    t0 = time.time()
    if ctx.left() < 2: r["status"] = "not run"; r["note"] = "out of time"; return r
    try: goto, native = compile_goto(ctx, j)
    except build.BuildError as e:
        build.compiles(ctx.work, j["defs"])
        r["note"] = "harness does not build: " + str(e)[-300:].replace("\n", " "); return r
    cmd = ["cbmc", goto, "--function", "harness", "--unwind", str(j["unwind"]), "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions", "--trace", "--json-ui",
           "--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--verbosity", "8"] + list(j.get("flags", []))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", preexec_fn=_limit); ctx.procs.append(p)
    try: out, _ = p.communicate(timeout=max(5, min(bud, ctx.left())))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); r["status"] = "not decided"; r["note"] = "no answer within the time limit"; r["wall_s"] = round(time.time() - t0, 2); return r
    r["wall_s"] = round(time.time() - t0, 2)
    try: js = json.loads(out)
    except Exception: r["note"] = "no result: " + out[-200:].replace("\n", " "); r["status"] = "not decided"; return r
    msgs = " ".join(m.get("messageText", "") for m in js)
    g = lambda rx, f=float: sum(f(x) for x in re.findall(rx, msgs))
    r["solver_s"] = round(g(r"Runtime Solver: ([\d.e+-]+)s"), 3)
    r["paths"] = int(max([0] + [int(x) for x in re.findall(r"size of program expression: (\d+) steps", msgs)]))
    r["decisions"] = int(max([0] + [int(x) for x in re.findall(r"(\d+) remaining after simplification", msgs)]))
    r["variables"] = int(max([0] + [int(x) for x in re.findall(r"(\d+) variables", msgs)])); r["clauses"] = int(max([0] + [int(x) for x in re.findall(r"(\d+) clauses", msgs)]))
    r["queries"] = len(re.findall(r"Runtime Solver", msgs))
    res = next((m["result"] for m in js if "result" in m), None)
    if res is None: r["note"] = "no result: " + msgs[-200:]; r["status"] = "not decided"; return r
    r["checks"] = len(res); r["functions"] = sorted({x["property"].split(".")[0] for x in res} - {"harness", "nd", "ndd", "main"})
    fails = [x for x in res if x["status"] == "FAILURE"]
    unwind = [x for x in fails if ".unwind." in x["property"] or ".recursion" in x["property"]]
    reached = [x for x in fails if x["description"] == "REACHED"]
    bad = [x for x in fails if x not in unwind and x not in reached]
    r["status"] = "complete" if not unwind else "incomplete"
    if unwind: r["note"] = "unwinding bound reached in " + ", ".join(sorted({x["property"] for x in unwind}))[:200]
    r["reachable_end"] = bool(reached)
    if not reached: r["status"] = "vacuous"; r["note"] = "the end of the harness is unreachable"
    def replay(x):
        vi, vd = {}, {}
        for s in x.get("trace", []):
            m = re.match(r"^nd_([id])\[(\d+)l*\]$", s.get("lhs", "")) if s.get("stepType") == "assignment" else None
            if m and not s.get("hidden"):
                v = s["value"]
                if m.group(1) == "i": vi[int(m.group(2))] = v.get("data")
                else: vd[int(m.group(2))] = bin2d(v)
        txt = "".join("I %s\n" % vi.get(k, 0) for k in range(max(vi, default=-1) + 1)) + "".join("R %r\n" % vd.get(k, 0.0) for k in range(max(vd, default=-1) + 1))
        f = os.path.join(ctx.work, "cex.txt"); open(f, "w").write(txt)
        q = subprocess.run(["timeout", "-s", "KILL", "20", native, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=ctx.work)
        return txt, q.returncode, q.stdout
    for x in bad:
        txt, rc, log = replay(x)
        if "REPRODUCED: " in log or "AddressSanitizer" in log or "runtime error" in log or rc < 0 or rc == 137 or rc > 1:
            m = re.search(r"REPRODUCED: (.*)", log); msg = m.group(1) if m else x["description"]
            import runners
            r["status"] = "violation"; r["violations"].append({"msg": msg, "text": runners.replay_text(ctx, j, msg, txt, log[-3000:])}); return r
        r["unconfirmed"] = r.get("unconfirmed", 0) + 1; r["note"] = "not confirmed by the native run: %s (%s)" % (x["description"], x["property"])
    if reached:
        txt, rc, log = replay(reached[0]); r["samples"].append({"scenario": j["name"], "inputs": txt.split("\n")[:40]})
        if "reached the end" in log: r["validated"] = 1
        else: r["diverged"] = 1; r["divergence"] = log[-300:]
    return r

def bin2d(v):
    import struct
    b = v.get("binary")
    if b and len(b) == 64: return struct.unpack("<d", int(b, 2).to_bytes(8, "little"))[0]
    try: return float(v.get("data"))
    except Exception: return 0.0
