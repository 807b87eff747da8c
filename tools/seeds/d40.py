from pyd import *
import json; sys.path.insert(0, NN); os.chdir(T); os.makedirs("configs"); base = {"a": 1, "b": 2, "c": 3}; json.dump(base, open("configs/default.json", "w"))
import config as C
for k, f in enumerate(({}, {"b": 7}, {"d": 8}, {"a": 4, "c": 0, "e": "x"})):
    json.dump(f, open("f%d.json" % k, "w")); g = C.get_config("f%d.json" % k); w = {**base, **f}; ok(dict(g) == w and all(getattr(g, x) == w[x] for x in w), "values"); g.b = 99; g["c"] = 98
    ok(g["b"] == 99 and g.c == 98 and dict(g) == {**w, "b": 99, "c": 98}, "set"); ok(dict(C.get_default_config()) == base and dict(C.get_config("f%d.json" % k)) == w, "others"); del g.a; ok("a" not in g and dict(g) == {k: v for k, v in {**w, "b": 99, "c": 98}.items() if k != "a"}, "deleted")
