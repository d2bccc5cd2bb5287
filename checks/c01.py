"""C01 water volume in closed basins: recorded real runs; volume integrated from the modal state with the oracle's own quadrature."""
import os
import numpy as np
import build, gen, core, dist
KINDS = {"rkdg": ["plain", "friction", "manning", "limiter", "wetdry", "wetdry+limiter", "constant", "sphere"], "ehdg": ["plain", "friction", "wetdry", "limiter"],
         "ihdg": ["plain", "friction"], "gn": ["plain", "friction"]}
DIST = {"rkdg": ["plain", "wetdry", "wetdry+limiter"], "ehdg": ["plain", "wetdry"]}
def prepare(ctx, item):
    prob, kind, k = item
    rng = ctx.rng(*item)
    d = ctx.dir("%s_%s_%d" % (prob, kind.replace("+", "_").replace(" ", "_"), k))
    p = rng.choice([0, 1, 1, 2, 3]) if prob != "gn" else rng.choice([1, 2])
    if "limiter" in kind: p = 1
    wd = "wetdry" in kind
    c = gen.SimCase(rng, d, prob, p=p, bath="slope" if wd else rng.choice(["random", "wavy", "slope"]), amp_b=rng.uniform(1.2, 4) if wd else 0.3 if prob == "gn" else 0.5, umax=1.0,
                    steps=rng.randint(6, 10) if prob in ("ihdg", "gn") else rng.randint(60, 120) if wd else rng.randint(15, 40), cfl=0.12 if wd else 0.25)
    if kind == "constant": c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.05 * c.h0, "initial_momentum_x": 0.1 * c.h0, "initial_momentum_y": -0.07 * c.h0}
    else: c.waves(0.1, 0.1)
    if kind == "sphere": far = float(np.abs([c.lo, c.hi]).max()); c.problem["spherical_projection"] = {"longitude_o": rng.uniform(-60, 60), "latitude_o": rng.uniform(-55, 55), "R": far / rng.uniform(0.3, 0.9)}
    if "friction" in kind: c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": rng.uniform(0.001, 0.02)}
    if "manning" in kind: c.manning()
    if "limiter" in kind: c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": 0.0 if rng.random() < .5 else 1e-8, "nu": rng.choice([1.0, 1.5])}
    if "wetdry" in kind:
        c.waves(0.5, 0.15); c.problem["wetting_drying"] = {"h_o": 0.01 * c.h0}
    c.write()
    return c
def run(ctx):
    probs = ["rkdg", "ehdg", "ihdg", "gn"]
    T = {p: build.rec_serial(p).submit() for p in probs}
    n = {"rkdg": ctx.n(12, 150), "ehdg": ctx.n(10, 120), "ihdg": ctx.n(10, 100), "gn": ctx.n(6, 80)}
    D = {p: build.rec_ompi(p).submit() for p in DIST}; part = build.partitioner().submit()
    items = [(p, kd, k) for p in probs for kd in KINDS[p] for k in range(n[p])] + [(p, "dist " + kd, k) for p in DIST for kd in DIST[p] for k in range(ctx.n(6, 60))]
    exe = {p: T[p].path() for p in probs}; dexe = {p: D[p].path() for p in D}; part = part.path()
    def one(it):
        c = prepare(ctx, it)
        if it[1].startswith("dist"):
            r, rec, _, A = dist.sim(ctx, it, c.rng, c, "in.15", part, dexe[it[0]])
            if rec is not None: ctx.obs("distributed edges between wet and dry elements", sum(1 for w in rec.wet for e, i in rec.pos.items() for g in rec.elt[e]["G"] if e < g and g in rec.pos and A[e] != A[g] and w[i] != w[rec.pos[g]]))
        else: r, rec = core.sim(ctx, exe[it[0]], c.d, ["in.15"], env=c.env)
        wd = "wetdry" in it[1]
        if rec is None or not rec.end:
            # an unstable case is not a conservation statement
            ctx.obs("ended early (rc=%s sig=%s)" % (r.rc, r.sig)); 
            ctx.check(not r.timeout, "hang", "no end in time", it); 
            if rec is None or not rec.q or rec.bath is None: return
        A = rec.areas(); v0 = rec.vol(0); sc = float(np.sum(A * np.mean(np.abs(rec.at(rec.q[0][:, 0] + rec.bath)), axis=1)))
        tol = (1e-9 if it[0] == "ihdg" else 1e-12 * (10 + len(rec.q))) * sc
        if wd: tol = tol + 0.0
        worst = 0; bad = None; clip = 0.0
        for s in range(1, len(rec.q)):
            if not np.all(np.isfinite(rec.q[s])): break
            if np.max(np.abs(rec.q[s][:, 0])) > 1e3 * c.h0: break      # blown up: round-off relative to sc no longer bounds it
            dv = abs(rec.vol(s) - v0)
            if dv > worst: worst = dv
            if dv > tol and bad is None: bad = (s, dv)
            ctx.obs("volume checks")
        if wd: ctx.obs("wet/dry changes", int(sum(np.sum(a != b) for a, b in zip(rec.wet, rec.wet[1:])))); ctx.obs("dry element states", int(sum(np.sum(w == 0) for w in rec.wet)))
        moved = len(rec.q) > 1 and np.max(np.abs(rec.q[-1] - rec.q[0])) > 1e-6
        ctx.case((it, round(v0, 6)), nontrivial=bool(moved), sample=dict(c.desc(), kind=it[1], volume=v0, drift=worst))
        ctx.mx("relative drift " + it[0] + (" wetdry" if wd else ""), worst / sc)
        if bad: ctx.bad("volume-%s-%s" % (it[0], it[1].replace(" ", "-")), "volume changed by %.3g (relative %.3g) at output %d" % (bad[1], bad[1] / sc, bad[0]), it)
    ctx.par(one, items[::-1])
    return {"rule": "random closed basins (jittered triangulations, random ids/orientation starts, islands), random bathymetry, waves; a case counts when the state really moved",
            "assumptions": ["volume is compared at every output (= every step) until a run ends; unstable runs stop counting when non-finite"]}
