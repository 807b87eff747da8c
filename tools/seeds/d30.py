from pyd import *
import main as nn, types
class TM(MagicMock): pass
tor = nn.torch
tor.Tensor = Tensor; tor.no_grad = lambda: __import__("contextlib").nullcontext()
class Tn(Tensor):
    def type(s, *a): return s
    def __getitem__(s, k): return Tn(s.a[k])
tor.LongTensor = tor.FloatTensor = Tn; nn.Variable = lambda x, requires_grad=False: x; nn.compute_class_weight = lambda *a, **k: np.ones(2); nn.F.softmax = lambda y, dim: y
class Net:
    def eval(s): pass
    def forward(s, e, ev, n, c, ye, cw):
        d = np.asarray(ev.a); s.asked.append(np.asarray(c.a)[0].tolist()); return Tn(np.stack([1 - d, d], axis=3)), None
def run(n, lines, ask, order):
    f = T + "/t.txt"; C = lines
    open(f, "w").write("".join(" ".join("%s %s" % q for q in c) + " output " + " ".join(map(str, range(1, n + 1))) + " 1\n" for c in C))
    sys.modules["utils.google_tsp_reader"].shuffle = lambda x: [x[i] for i in order]
    cfg = types.SimpleNamespace(num_nodes=n, num_neighbors=-1, batch_size=1, test_filepath=f); net = Net(); net.asked = []
    p, d, c = nn.compute_prob(net, cfg, None, None); want = [list(q) for q in C[ask]]
    ok(net.asked[-1] == want, "the network is asked about the instance"); ok(c == [x for q in want for x in q], "coordinates that are returned")
    ok(all(near(np.asarray(p.a)[0][i][j], dist(want[i], want[j])) for i in range(n) for j in range(n)), "probabilities")
A, B, D = [(0.1, 0.2), (0.3, 0.4), (0.9, 0.8)], [(0.1, 0.2), (0.3, 0.4), (0.9, 0.7)], [(0.5, 0.2), (0.3, 0.4), (0.9, 0.8)]
for o in ((0, 1, 2), (2, 1, 0), (1, 0, 2), (1, 2, 0)):
    run(3, [A, B, D], 0, o); run(3, [B, A, D], 0, o); run(3, [D, B, A], 0, o)
run(3, [A], 0, (0,))
