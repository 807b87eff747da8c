"""C40: the configuration of the network and of its training."""
import io, json, os, re
from base import Stub
from common import GCN

def harness(vf, w):
    vals = {}; real = json
    def value(tag): v = vals.setdefault(tag, None); vals[tag] = vf.real(tag, -100, 100) if v is None else v; return vals[tag]
    def subst(o):
        if isinstance(o, dict): return {k: subst(v) for k, v in o.items()}
        if isinstance(o, list): return [subst(v) for v in o]
        return value(o[1:]) if isinstance(o, str) and o.startswith("@") else o
    js = Stub("json"); js.load = lambda f, **k: subst(real.loads(f.read())); js.loads = lambda t, **k: subst(real.loads(t)); w.mods["json"] = js
    w.fs.cwd = "/work/main/graph-convnet-tsp"; w.fs.makedirs("configs", exist_ok=True); w.fs.makedirs("logs/tsp9", exist_ok=True)
    with open(os.path.join(w.repo, GCN, "configs/default.json")) as f: shipped = real.load(f)
    m = w.load(GCN + "config.py", "config"); doc = re.findall(r'^\s*"(\w+)":', w.get(m, "Settings").__doc__ or "", re.M)
    vf.check(all(k in shipped for k in doc), "every documented parameter has a default")
    keys = ["num_nodes", "beam_size", "hidden_dim", "own_key"]; base = {k: "@d_" + k for k in keys[:3]}; file = {}
    for k in keys:
        if vf.choose(2): file[k] = "@f_" + k
    w.fs.files[w.fs.norm("configs/default.json")] = real.dumps(base); w.fs.files[w.fs.norm("logs/tsp9/config.json")] = real.dumps(file)
    want = {k: value(v[1:]) for k, v in {**base, **file}.items()}
    g = w.get(m, "get_config")("logs/tsp9/config.json")
    def agree(g, want, msg):
        vf.check(set(g) == set(want) and set(g.keys()) == set(want), msg)
        for k in want: vf.check(_same(g[k], want[k]), msg); vf.check(_same(getattr(g, k), want[k]), "a parameter is the same as attribute and as item")
    agree(g, want, "a parameter is that of the file, and its default where the file does not have it")
    d = w.get(m, "get_default_config")(); agree(d, {k: value(v[1:]) for k, v in base.items()}, "the defaults are those of the default file")
    if not file.get("own_key"): vf.check(vf.fails(lambda: g.own_key) is not None and vf.fails(lambda: g["own_key"]) is not None, "a parameter that is nowhere is an error")
    k = keys[vf.choose(len(keys))]; v = vf.real("set", -100, 100); want[k] = v
    if vf.choose(2): g[k] = v
    else: setattr(g, k, v)
    agree(g, want, "a parameter that is set has the value it was set to, and no other changes")
    agree(d, {k: value(v[1:]) for k, v in base.items()}, "setting a parameter changes no other configuration"); agree(w.get(m, "get_default_config")(), {k: value(v[1:]) for k, v in base.items()}, "setting a parameter changes no other configuration")
    e = w.get(m, "get_config")("logs/tsp9/config.json"); agree(e, {k: value(v[1:]) for k, v in {**base, **file}.items()}, "setting a parameter changes no other configuration")
    s = w.get(m, "Settings")(want); agree(s, want, "a configuration has the values it is made of")
    delattr(g, k); del want[k]; agree(g, want, "a parameter that is deleted is gone, and no other changes")
    vf.cover("file %d" % len(file))

def _same(a, b): return a == b
