"""Builds harnesses against the current /repo tree: a symbolic shared object and a concrete replay binary."""
import os, subprocess, glob, re, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(HERE, "engine")
REPO = os.environ.get("VF_REPO", "/repo")
MAIN = os.path.join(REPO, "src/HybridSolver/main")
sys.path.insert(0, ENG)
import instrument

class BuildError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def sources():
    r = []
    for root, ds, fs in os.walk(MAIN):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".c"): r.append(os.path.join(root, f))
    return r

def incdirs():
    d = {os.path.dirname(s) for s in sources()}
    for root, ds, fs in os.walk(MAIN):
        if any(f.endswith(".h") for f in fs): d.add(root)
    return sorted(d)

BASE = ["-std=gnu99", "-ffp-contract=off", "-w", "-fno-builtin-printf"]

def symrun(work):
    out = os.path.join(work, "symrun")
    if not os.path.exists(out):
        run(["g++", "-O2", "-std=c++17", "-w", "-rdynamic", "-I" + ENG, os.path.join(ENG, "symrt.cpp"), "-o", out, "-lz3", "-ldl"])
    return out

def defined_functions(ll):
    r = {}
    for line in open(ll):
        m = re.match(r"^define (.*?)@([\w.$]+)\((.*)\)", line)
        if m: r[m.group(2)] = line.strip()
    return r

WRAP = ["exit", "abort", "clock", "time", "clock_gettime", "freopen", "fclose"]

def settings(defs):
    """Flags that select the other value of a switch of problem_settings.h."""
    return ["-include", os.path.join(HERE, "harness", "kruskal.h")] if "KRUSKAL" in defs else []

def _ll(src, dst, defs, extra):
    run(["clang", "-S", "-emit-llvm"] + BASE + extra + settings(defs) + ["-D" + d for d in defs] + ["-I" + i for i in incdirs()] + ["-I" + ENG, "-I" + os.path.join(HERE, "harness"), src, "-o", dst])

def externalise(ll, names):
    t = open(ll).read().split("\n")
    for i, l in enumerate(t):
        m = re.match(r"^define internal (.*@([\w.$]+)\(.*)$", l)
        if m and m.group(2) in names: t[i] = "define " + m.group(1)
    open(ll, "w").write("\n".join(t))

def build(work, name, harness, defs, externals=(), sanitize=None, symsan=None, with_main=True, concrete=True, O="-O1", ichk=False):
    """Returns (so, binary, info). harness: path of the C file. defs: macro definitions."""
    d = os.path.join(work, name); os.makedirs(d, exist_ok=True)
    srcs = sources()
    jobs = []
    for k, s in enumerate(srcs):
        dd = list(defs) + (["main=repo_main"] if os.path.basename(s) == "main.c" else [])
        jobs.append((s, dd, "r%d" % k))
    jobs.append((harness, list(defs), "h"))
    symflags = ["-O0", "-Xclang", "-disable-O0-optnone", "-ftrivial-auto-var-init=pattern"] + (symsan or [])
    conflags = ["-O1", "-g"] + (sanitize or ["-ftrivial-auto-var-init=pattern"])
    defined = {}
    def one(j):
        s, dd, t = j
        raw = os.path.join(d, t + ".raw.ll"); _ll(s, raw, dd, symflags)
        ins = os.path.join(d, t + ".ins.ll"); instrument.main(raw, ins, set(externals), ichk and t != "h")
        obj = os.path.join(d, t + ".so.o")
        run(["clang", "-c", O, "-fPIC", "-w", "-ffp-contract=off", ins, "-o", obj])
        fns = defined_functions(raw)
        os.unlink(raw); os.unlink(ins)
        cobj = None
        if concrete:
            craw = os.path.join(d, t + ".con.ll"); _ll(s, craw, dd, conflags); externalise(craw, set(externals))
            cobj = os.path.join(d, t + ".con.o")
            run(["clang", "-c", "-O1", "-g", "-w", "-ffp-contract=off"] + ([f for f in (sanitize or []) if f.startswith("-fsanitize=") and "address" not in f and "memory" not in f and "undefined" not in f]) + [craw, "-o", cobj])
            os.unlink(craw)
        return t, obj, cobj, fns
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    so = os.path.join(d, "h.so")
    run(["clang", "-shared", "-o", so] + [r[1] for r in res] + ["-lm"])
    binary = None
    if concrete:
        con = os.path.join(d, "conrt.o")
        run(["clang", "-c", "-O1", "-g", "-w", "-DVF_ENTRY=harness"] + (sanitize or []) + ["-I" + ENG, os.path.join(ENG, "conrt.c"), "-o", con])
        binary = os.path.join(d, "h.bin")
        run(["clang"] + (sanitize or []) + ["-o", binary, con] + [r[2] for r in res] + ["-lm"] + ["-Wl,--wrap=" + w for w in WRAP])
    fns = {}
    for r in res:
        if r[0] != "h": fns.update(r[3])
    return so, binary, sorted(fns)

def compiles(work, defs):
    """Raises BuildError if the tree's own sources do not compile."""
    for s in sources():
        run(["clang", "-fsyntax-only"] + BASE + settings(defs) + ["-D" + d for d in defs] + ["-I" + i for i in incdirs()] + [s])
