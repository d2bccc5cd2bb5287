"""C03: the same generated scenario run serially and distributed (real partitioner with chosen assignments, real MPI ranks and threads); states of every element compared at every recorded step."""
import copy, math, os, random
import numpy as np
import build, cases as C, core, dist, gen
EXTRA = {"rkdg": ["forces", "mix", "levee", "wetlim", "sphere"], "ehdg": ["forces", "sphere", "limiter"], "ihdg": ["forces"], "gn": ["forces", "func", "wetdry", "friction", "limiter", "trouble"]}
def scen(rng, d, prob, kind, steps=None, k=0):
    if kind == "mix":
        c = gen.scenario(rng, d, prob, "levee", p=1, steps=steps or rng.randint(8, 20)); c.problem["wetting_drying"] = {"h_o": 0.02 * c.h0}; c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": 1e-8, "nu": 1.5}; c.set_bath("slope", 1.1) if k % 2 else None; c.waves(0.3, 0.1)
        if k % 2 == 0:          # water on one side of the levee only
            s = next(s for s in c.mesh.land if "conn" in s); x = [c.mesh.nodes[n][0] for n in s["nodes"] + s["conn"]]; c.function(c.terms + [(0, 4, -1.5 * c.h0, (min(x) + max(x)) / 2, 0.0, rng.choice([-1.0, 1.0]), 0.0)])
    elif kind == "trouble":     # fixed small-scale cases with jumps: the dispersive correction is suspended around troubled elements
        rng = random.Random(k); c = gen.SimCase(rng, d, "gn", p=1, mesh=gen.rand_mesh(rng, 7, hole=False), bath="slope", amp_b=0.3, umax=0.3, steps=150, h0=0.02, cfl=0.12)
        c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": 1e-8, "nu": 1.5}; c.T = 1; c.dt = c.T / 150
        gen.scale(c.mesh, (math.sqrt(9.81 * 0.026) + .3) * c.dt * 3 / (0.12 * c.mesh.lmin())); c.lo, c.hi = gen.bbox(c.mesh); c.size = float(max(c.hi - c.lo)); c.waves(0.4, 0.1)
        c.function(c.terms + [(0, 4, 0.012, 0.5 * (c.lo[0] + c.hi[0]), 0.5 * (c.lo[1] + c.hi[1]), 1.0, 0.3)])
    elif kind == "wetlim": c = gen.scenario(rng, d, prob, "wetdry", steps=steps or rng.randint(10, 24)); c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": 1e-8, "nu": 1.5}
    elif kind in ("forces", "sphere"):
        c = gen.scenario(rng, d, prob, "open", steps=steps or rng.randint(5, 9)); c.manning(); c.meteo(every=rng.choice([1, 2, 3])); c.problem["coriolis"] = "Enable"
        if kind == "sphere":
            if prob == "rkdg": c.problem["spherical_projection"] = {"longitude_o": rng.uniform(-60, 60), "latitude_o": rng.uniform(-55, 55), "R": 3 * c.size + float(np.abs([c.lo, c.hi]).max())}
            c.spherical()
    else: c = gen.scenario(rng, d, prob, kind, p=0 if kind in ("closed", "open", "friction", "func", "levee") and prob != "gn" and rng.random() < 0.25 else None, steps=steps or (rng.randint(10, 24) if kind == "wetdry" else None))
    return c
def run(ctx):
    probs = ["gn", "ihdg", "ehdg", "rkdg"]
    R = {}; 
    for p in probs: R[p] = (build.rec_serial(p).submit(), build.rec_ompi(p).submit())
    P = build.partitioner().submit(); exe = {p: tuple(t.path() for t in R[p]) for p in probs}; part = P.path()
    n = {"rkdg": ctx.n(5, 60), "ehdg": ctx.n(4, 40), "ihdg": ctx.n(4, 40), "gn": ctx.n(4, 30)}
    items = [(p, kd, k) for p in probs for kd in list(dict.fromkeys(gen.KINDS[p] + EXTRA[p])) for k in range(n[p] if kd != "trouble" else 2)]
    def one(it):
        prob, kind, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it); c = scen(rng, d, prob, kind, k=k); inp = c.write()
        r, a = core.sim(ctx, exe[prob][0], d, [inp], env=c.env)
        refused = r.rc != 0 or a is None or not a.end
        np_ = rng.choice([1, 2, 2, 3, 3, 4, 6, 9]) if kind != "trouble" else 4; nn = rng.choice([1, 1, 2, 2, 3]); rpl = rng.choice([1, 1, 1, 2]); A = dist.assign(rng, c.mesh, np_); parts = sorted(set(A.values()))
        while len(parts) < nn * rpl: rpl = 1; nn = min(nn, len(parts)); break
        order = rng.sample(parts, len(parts)); node = {q: i % nn for i, q in enumerate(order)}; np_ = len(parts); 
        dist.write_answers(d + "/ans", c.mesh, A, np_, nn, node)
        if np_ > 1 and any(sum(1 for v in node.values() if v == i) < rpl for i in range(nn)): rpl = 1
        r1 = dist.partition(part, d, inp, np_, nn, rpl, env=dict(c.env, VERIF_PART=d + "/ans"))
        if not ctx.check(r1.rc == 0, "partition", "partitioner: %r" % r1, it): return
        nt = rng.choice([1, 1, 2, 3, 5]); r2 = dist.run(exe[prob][1], d, inp[:-3] + "_parallelized.15", nn * rpl, nt, env=c.env); desc = dict(c.desc(), kind=kind, ranks=nn * rpl, submeshes=np_, threads=nt)
        if refused:
            ctx.obs("runs that end early in both: %s %s" % (prob, kind)); ctx.check(r2.rc != 0 or r2.sig, "serial-stops", "the serial run stops (%r) but the distributed run succeeds" % r, it); ctx.case(it, nontrivial=False); return
        if not ctx.check(r2.rc == 0, "distributed-fails", "serial run succeeds, distributed run: rc=%s sig=%s timeout=%s %s %s" % (r2.rc, r2.sig, r2.timeout, r2.err[-500:], desc), it): return
        U = dist.logs(d)
        if not ctx.check(len(U) == np_ and all(R.end and R.exc is None for R in U.values()), "submeshes", "%d submesh logs for %d parts" % (len(U), np_), it): return
        ids = sorted(e for R in U.values() for e in R.ids)
        if not ctx.check(ids == a.ids, "elements", "elements differ: %d / %d" % (len(ids), len(a.ids)), it): return
        worst = 0.0; sc = [max(np.abs(a.q[s][:, v]).max() for s in range(len(a.q))) for v in range(3)]; b = np.abs(a.bath).max(); sc = np.array([max(sc[0], b), max(sc[1], sc[2]), max(sc[1], sc[2])])[None, :, None] + 1e-12 * b
        def diff(X): return max(np.max(np.abs(X[s] - a.q[s]) / sc) for s in range(len(a.q)))
        X = [np.full_like(q, np.nan) for q in a.q]; wet = [np.full_like(w, -1) for w in a.wet]; B = np.full_like(a.bath, np.nan)
        for u, R in U.items():
            if not ctx.check(len(R.q) == len(a.q) and R.steps == a.steps, "steps", "submesh %s records %d states at %s, serial %d at %s" % (u, len(R.q), R.steps[-1:], len(a.q), a.steps[-1:]), it): return
            ix = [a.pos[e] for e in R.ids]; B[ix] = R.bath
            for s in range(len(a.q)): X[s][ix] = R.q[s]; wet[s][ix] = R.wet[s]
            for e in R.ids: ctx.check(R.elt[e]["N"] == a.elt[e]["N"] and np.allclose(R.elt[e]["X"], a.elt[e]["X"], rtol=5e-15, atol=1e-14 * c.lonlat[2] * math.radians(60) if hasattr(c, "lonlat") and c.lonlat[0] else 0), "element-data", "element %d: nodes or coordinates differ" % e, it)
        if kind == "trouble":       # known finding: compare up to the first troubled element, and on if the areas agree
            T = [set().union(*[R.troubled[s] for R in U.values()]) for s in range(len(a.q))]; ctx.obs("records with troubled elements", sum(1 for t in a.troubled if t)); s = next((s for s in range(len(T)) if T[s] != a.troubled[s]), None)
            if s is not None:
                f = next(s for s in range(len(T)) if T[s] or a.troubled[s]); ctx.bad("gn-troubled-area", "the dispersive correction is suspended in %d elements by the distributed and in %d by the serial run (record %d)" % (len(T[s]), len(a.troubled[s]), s), it); a.q = a.q[:f]; X = X[:f]; wet = wet[:f]; a.wet = a.wet[:f]
        if kind == "limiter":       # the indicator of troubled elements also is the same everywhere
            for s in range(len(a.q)):
                t = {}; [t.update(R.trouble[s]) for R in U.values()]; ctx.obs("trouble indicators compared", len(t))
                ctx.check(set(t) == set(a.trouble[s]) and all(abs(t[e] - a.trouble[s][e]) <= 1e-6 * max(map(abs, t.values())) + 1e-12 for e in t), "trouble-indicator", "record %d: indicators %s" % (s, [(e, t.get(e), v) for e, v in a.trouble[s].items() if abs(t.get(e, -1) - v) > 1e-9][:3]), it)
        w = diff(X); tol = 2e-10
        if w > tol and np.isfinite(w):      # is this run so sensitive that a change of the last bits does the same?
            v = copy.copy(c); v.d = d + "_s"; os.makedirs(v.d, exist_ok=True); [os.path.isfile(d + "/" + f) and os.link(d + "/" + f, v.d + "/" + f) for f in os.listdir(d)]
            os.remove(v.d + "/fn.txt"); v.env = dict(c.env); v.function([(t[0], t[1], t[2] * (1 + 1e-13 * rng.uniform(-1, 1))) + tuple(t[3:]) for t in c.terms]); _, z = core.sim(ctx, exe[prob][0], v.d, [inp], env=v.env, log="s.log")
            s = diff(z.q) if z is not None and len(z.q) == len(a.q) else np.inf; ctx.obs("sensitivity runs"); tol = max(tol, 100 * s)
        ctx.mx("difference " + prob, w)
        ctx.check(w <= tol, "differs", "%s %s: distributed and serial states differ by %.3g (scaled; allowed %.2g), first at record %s; %s" % (prob, kind, w, tol, next((s for s in range(len(X)) if not np.max(np.abs(X[s] - a.q[s]) / sc) <= tol), "?"), desc), it)
        ctx.check(np.max(np.abs(B - a.bath)) <= 1e-13 * b, "bathymetry", "bathymetry differs", it)
        if w <= 2e-10: ctx.check(all((x == y).all() for x, y in zip(wet, a.wet)), "wet-flags", "wet flags differ", it)
        l2 = sum(R.l2sq for R in U.values()); ctx.check(abs(l2 - a.l2sq) <= 1e-9 * abs(a.l2sq) + 1e-20 or w > 2e-10 or len(a.q) < len(a.steps), "l2", "error norm %.17g / %.17g" % (l2, a.l2sq), it)
        ctx.obs("states compared", sum(len(q) for q in a.q)); ctx.obs("runs with %d ranks" % (nn * rpl)); ctx.obs("runs with %d threads" % nt); ctx.obs("distributed edges", sum(len(R.dsts) for R in U.values())); ctx.obs("distributed levee edges", sum(1 for R in U.values() for t in R.dsts if "evee" in t[0]))
        if kind in ("mix", "wetlim", "wetdry"): ctx.obs("wet-dry distributed edges: " + kind, sum(1 for x, w_ in zip(a.q, a.wet) for e, i in a.pos.items() for g in a.elt[e]["G"] if e < g and g in a.pos and A[e] != A[g] and w_[i] != w_[a.pos[g]]))
        if any((w_ == 0).any() for w_ in a.wet): ctx.obs("runs with dry elements")
        ctx.case(it, nontrivial=np_ > 1, sample=dict(desc, difference=w))
    ctx.par(one, items, workers=5)
    return {"rule": "closed, tide/flow/function forced, frictional, meteorological, limited, wetting/drying, levee and combined scenarios in all four discretizations; 1-9 submeshes from random, strip, grown, island and checkerboard assignments on 1-4 ranks and 1-5 threads; every element at every recorded step against the serial run",
            "assumptions": ["differences up to 2e-10 of the largest state count as round-off; larger ones only if a 1e-13 relative change of the initial state in the serial run does the same"]}
