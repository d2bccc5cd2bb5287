"""C04: pairs of real runs on renumbered, re-oriented, moved and mirrored copies of one input; and bit-for-bit repetition."""
import copy, hashlib, math, os
import numpy as np
import build, cases, core, gen
def perturb(c, rng, kind, mirror=True):
    """A transformed SimCase in its own directory plus (node map base->variant, element map, sign/rotation applied to momentum)."""
    v = copy.copy(c); v.mesh = c.mesh.copy(); v.problem = copy.deepcopy(c.problem); v.env = dict(c.env); m = v.mesh; rot = np.eye(2); off = np.zeros(2)
    nm = {n: n for n in m.nodes}; em = {e: e for e in m.elts}
    if kind in ("renumber", "all"):
        nm = cases.perm_ids(rng, m.nodes, rng.choice([0, 1, 17]), rng.random() < .3); em = cases.perm_ids(rng, m.elts, rng.choice([0, 1, 5]), rng.random() < .3)
        nn = [(nm[n], x) for n, x in m.nodes.items()]; rng.shuffle(nn); m.nodes = dict(nn)
        ee = [(em[e], tuple(nm[n] for n in t)) for e, t in m.elts.items()]; rng.shuffle(ee); m.elts = dict(ee)
        m.open = [[nm[n] for n in s] for s in m.open]; m.gen = [[nm[n] for n in s] for s in m.gen]
        for s in m.land:
            s["nodes"] = [nm[n] for n in s["nodes"]]
            if "conn" in s: s["conn"] = [nm[n] for n in s["conn"]]
    if kind in ("spin", "all"):
        for e, t in list(m.elts.items()):
            k = rng.randrange(3); m.elts[e] = t[k:] + t[:k]
        m.open = [s[::rng.choice([1, -1])] for s in m.open]; rng.shuffle(m.open)
        for s in m.land:
            d = rng.choice([1, -1])
            for f in ("nodes", "conn", "H", "cs", "cp"):
                if f in s: s[f] = list(s[f])[::d]
            if "conn" in s and rng.random() < .5: s["nodes"], s["conn"] = s["conn"], s["nodes"]
        rng.shuffle(m.land)
    if kind in ("move", "all"):
        q = rng.randrange(4); rot = np.array([[[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]]][q], float)
        if mirror and rng.random() < .5:
            rot = rot @ np.diag([1., -1.])
            for e, t in list(m.elts.items()): m.elts[e] = (t[0], t[2], t[1])
        off = np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)]) * c.size
        for n, (x, y, z) in list(m.nodes.items()):
            X = rot @ np.array([x, y]) + off; m.nodes[n] = (float(X[0]), float(X[1]), z)
    v.d = os.path.join(os.path.dirname(c.d), os.path.basename(c.d) + "_" + kind); os.makedirs(v.d, exist_ok=True)
    # boundary data follow the nodes
    v.tide = [{"nodes": [nm[n] for n in g["nodes"]], "con": [(a, b, e, {nm[n]: x for n, x in d.items()}) for a, b, e, d in g["con"]]} for g in c.tide]
    v.flow = [{"nodes": [nm[n] for n in g["nodes"]], "con": [(a, b, e, {nm[n]: x for n, x in d.items()}) for a, b, e, d in g["con"]]} for g in c.flow]
    v.levee = [list(zip(s["nodes"], s["conn"], s["H"], s["cs"], s["cp"])) for s in m.land if "conn" in s]
    # initial/forcing function: sums of sin(k.x + w t + ph): rotate k and the momentum components
    T = []
    for t in c.terms:
        var, kd, a = t[:3]; pr = list(t[3:])
        if kd == 1:
            k = rot @ np.array(pr[:2]); ph = pr[3] - float(k @ off); pr = [float(k[0]), float(k[1]), pr[2], ph]
        if var == 0: T.append((0, kd, a, *pr))
        else:
            for comp in (0, 1):
                if rot[comp, var - 1] != 0: T.append((comp + 1, kd, a * float(rot[comp, var - 1]), *pr))
    cases.write_fn(os.path.join(v.d, "fn.txt"), T); v.env["VERIF_FN"] = os.path.join(v.d, "fn.txt"); v.terms = T
    return v, nm, em, rot
def run(ctx):
    probs = ["rkdg", "ehdg", "ihdg", "gn"]
    T = {p: build.rec_serial(p).submit() for p in probs}
    n = {"rkdg": ctx.n(6, 60), "ehdg": ctx.n(5, 50), "ihdg": ctx.n(6, 40), "gn": ctx.n(4, 30)}
    items = [(p, kd, k) for p in probs for kd in gen.KINDS[p] for k in range(n[p])]
    exe = {p: T[p].path() for p in probs}
    def one(it):
        prob, kind, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it)
        c = gen.scenario(rng, d, prob, kind); 
        order = 1 if prob == "ihdg" and rng.random() < .4 else None
        ns = None
        if prob == "ihdg": order, ns = (order or 2), 1
        c.prob_ = prob
        def go(v):
            kw = dict(v.kw)
            v.write(); 
            if prob == "ihdg": cases.write_input(os.path.join(v.d, "in.15"), "mesh.14", prob=gen.NAMES[prob], p=v.p, dt=v.dt, T=v.T, problem=v.problem, out="out/", order=order, nstages=1, **kw)
            else: cases.write_input(os.path.join(v.d, "in.15"), "mesh.14", prob=gen.NAMES[prob], p=v.p, dt=v.dt, T=v.T, problem=v.problem, out="out/", **kw)
            return core.sim(ctx, exe[prob], v.d, ["in.15"], env=v.env)
        r0, a = go(c)
        if a is None or not a.end:
            ctx.obs("base run ended early"); return
        # repetition
        r1, b = core.sim(ctx, exe[prob], c.d, ["in.15"], env=c.env, log="rec2.log")
        h = [hashlib.sha256(open(os.path.join(c.d, f), "rb").read()).hexdigest() for f in ("rec.log", "rec2.log")]
        ctx.check(h[0] == h[1], "repeat-" + prob, "repeated run differs", it); ctx.obs("repetitions compared bit for bit")
        sc = np.array([c.h0, c.h0 ** 1.5 * 3, c.h0 ** 1.5 * 3])[:, None]; node0 = {x: i for i, x in enumerate(sorted(c.mesh.nodes))}
        grow = max(float(np.max(np.abs(a.q[-1] / sc))), 1.0)
        for tk in ("renumber", "spin", "move", "all"):
            v, nm, em, rot = perturb(c, rng, tk, mirror=kind != "limiter"); r, b = go(v)
            if b is None or not b.end:
                ctx.bad("variant-fails-%s-%s" % (prob, tk), "transformed input fails: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-200:]), it); continue
            inv = {nm[x]: node0[x] for x in nm}
            w = 0; at = None
            for s in range(min(len(a.q), len(b.q))):
                A = core.canonical(a, s, node0); B = core.canonical(b, s, inv)
                for e in A:
                    x = A[e].copy(); x[1:] = rot @ x[1:]; dv = np.max(np.abs((x - B[em[e]]) / sc))
                    if not dv <= w: w = dv; at = (s, e)
                if c.problem.get("wetting_drying"):
                    wa = {e: a.wet[s][i] for i, e in enumerate(a.ids)}; wb = {e: b.wet[s][i] for i, e in enumerate(b.ids)}
                    if any(wa[e] != wb[em[e]] for e in wa): ctx.obs("wet flag differences")
            tol = 1e-8 * grow
            ctx.obs("states compared", len(a.q)); ctx.mx("difference %s %s" % (prob, kind), w / grow)
            if len(a.q) != len(b.q): ctx.bad("length-%s" % prob, "%d and %d outputs" % (len(a.q), len(b.q)), it)
            if not w <= tol: ctx.bad("%s-%s-%s" % (tk, prob, kind), "states differ by %.3g (relative) at output, element %s" % (w, at), it)
            ctx.case((it, tk), sample=dict(c.desc(), kind=kind, transformation=tk, difference=w))
    ctx.par(one, items)
    return {"rule": "each scenario (closed, tide/flow, function, friction, limiter, wet/dry, levee) is re-run renumbered, with spun elements and reversed segments, rotated/mirrored/translated, and all together"}
