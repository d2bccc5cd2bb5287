"""Distributed counterparts for checks that judge the serial code with an oracle of their own: the same scenario over several submeshes, ranks and threads has to follow the judged run."""
import copy, os
import numpy as np
import build, core, dist
class Pair:
    def __init__(self, probs): self.T = {p: (build.rec_serial(p).submit(), build.rec_ompi(p).submit()) for p in probs}; self.P = build.partitioner().submit()
    def ready(self): self.exe = {p: tuple(t.path() for t in v) for p, v in self.T.items()}; self.part = self.P.path(); return self
def one(ctx, it, pair, prob, make, key="distributed", edges="", limit=8):
    """make(rng, dir) -> SimCase. Judges the first `limit` records."""
    rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); c = make(rng, d); inp = c.write(); r, a = core.sim(ctx, pair.exe[prob][0], d, [inp], env=c.env)
    if a is None or not a.end or r.rc: ctx.obs("distributed: serial run stops"); return
    r, M, desc, A = dist.sim(ctx, it, rng, c, inp, pair.part, pair.exe[prob][1]); desc = dict(c.desc(), **desc)
    if not ctx.check(M is not None and len(M.q) == len(a.q), key + "-fails", "the serial run succeeds, the distributed one ends rc=%s sig=%s timeout=%s %s %s" % (r.rc, r.sig, r.timeout, r.err[-300:], desc), it): return
    N = min(limit, len(a.q)); b = np.abs(a.bath).max(); mx = [max(np.abs(a.q[s][:, v]).max() for s in range(N)) for v in range(3)]
    sc = np.array([max(mx[0], b)] + [max(mx[1:])] * 2)[None, :, None] + 1e-9 * b; diff = lambda x: max(float(np.max(np.abs(x[s] - a.q[s]) / sc)) for s in range(N)); w = diff(M.q); tol = 1e-9
    if not w <= tol:
        v = copy.copy(c); v.d = d + "_s"; os.makedirs(v.d, exist_ok=True); [os.path.isfile(d + "/" + f) and os.link(d + "/" + f, v.d + "/" + f) for f in os.listdir(d)]
        if c.terms:
            os.remove(v.d + "/fn.txt"); v.env = dict(c.env); v.function([(t[0], t[1], t[2] * (1 + 1e-13 * rng.uniform(-1, 1))) + tuple(t[3:]) for t in c.terms]); _, z = core.sim(ctx, pair.exe[prob][0], v.d, [inp], env=v.env, log="s.log")
            if z is not None and len(z.q) == len(a.q): tol = max(tol, 100 * diff(z.q))
    ctx.mx("distributed difference " + prob, w)
    ctx.check(w <= tol, key, "%s: a run over several submeshes departs from the serial run by %.3g (scaled) within %d steps; %s" % (it, w, N - 1, desc), it)
    ctx.obs("distributed states compared", N * len(a.ids)); ctx.case(it, nontrivial=len(M.dsts) > 0, sample=dict(desc, difference=w))
