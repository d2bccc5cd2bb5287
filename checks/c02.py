"""C02 lake at rest: recorded real runs from a flat surface over arbitrary bathymetry."""
import numpy as np
import build, gen, core, dist
KINDS = {"rkdg": ["plain", "friction", "manning", "limiter", "wetdry", "wetdry-limiter"], "ehdg": ["plain", "friction", "wetdry", "limiter"], "ihdg": ["plain", "friction"], "gn": ["plain", "friction"]}
DIST = {"rkdg": ["plain", "wetdry", "wetdry-limiter"], "ehdg": ["plain", "wetdry"]}
def run(ctx):
    probs = ["rkdg", "ehdg", "ihdg", "gn"]
    T = {p: build.rec_serial(p).submit() for p in probs}
    n = {"rkdg": ctx.n(10, 120), "ehdg": ctx.n(10, 100), "ihdg": ctx.n(10, 80), "gn": ctx.n(6, 60)}
    D = {p: build.rec_ompi(p).submit() for p in DIST}; part = build.partitioner().submit()
    items = [(p, "dist-" + kd, k) for p in DIST for kd in DIST[p] for k in range(ctx.n(6, 60))] + [(p, kd, k) for p in probs for kd in KINDS[p] for k in range(n[p])]
    exe = {p: T[p].path() for p in probs}; dexe = {p: D[p].path() for p in D}; part = part.path()
    def one(it):
        prob, kind, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it)
        wd = "wetdry" in kind
        p = 1 if "limiter" in kind or wd else rng.choice([0, 1, 1, 2, 3]) if prob != "gn" else rng.choice([1, 2])
        c = gen.SimCase(rng, d, prob, p=p, bath="slope" if wd else rng.choice(["random", "wavy", "slope"]), amp_b=rng.uniform(1.2, 3) if wd else 0.4,
                        steps=rng.randint(4, 8) if prob in ("ihdg", "gn") else rng.randint(8, 30))
        z0 = rng.choice([0.0, 1.0, 1.0, -1.0]) * rng.uniform(0.02, 0.3) * c.h0
        sh = rng.choice([-1, 1, 1]) * rng.uniform(1, 8) * c.h0 if k % 3 == 1 else 0.0     # the same lake in another vertical datum
        if sh: c.shift(sh); z0 += sh; ctx.obs("lakes in a shifted datum")
        if wd:
            # depths stay away from the threshold: an element is either wet everywhere or at/under the bed everywhere
            ho = 0.01 * c.h0; nodes = c.mesh.nodes; dry = set()
            for e, ns in c.mesh.elts.items():
                if min(nodes[x][2] for x in ns) + z0 < 4 * ho: dry.add(e)
            if len(dry) == len(c.mesh.elts): return
            # nodes of dry elements that also touch wet ones keep a depth below the surface only if every element there is wet
            for e in list(dry):
                pass
            c.problem["wetting_drying"] = {"h_o": ho}
        c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": float(z0), "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        if kind == "friction": c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": 0.01}
        if kind == "manning": c.manning()
        if "limiter" in kind: c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": rng.choice([0.0, 1e-8]), "nu": rng.choice([1.0, 1.5])}
        c.write()
        if kind.startswith("dist"): r, rec, _, A = dist.sim(ctx, it, rng, c, "in.15", part, dexe[prob])
        else: r, rec = core.sim(ctx, exe[prob], d, ["in.15"], env=c.env)
        if r.timeout: ctx.bad("hang", "no end", it); return
        if rec is None or not rec.end:
            ctx.bad("run-fails-%s-%s" % (prob, kind), "still water run ended with rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-200:]), it); return
        wet0 = rec.wet[0] == 1
        if wd:
            # the claim is for water bounded by dry elements lying above the surface
            X = np.array([rec.elt[i]["X"] for i in rec.ids])
            ok = True
            for i, e in enumerate(rec.ids):
                if not wet0[i]:
                    ze_v = rec.vert(rec.q[0][i, 0])
                    for k2 in range(3):
                        g = rec.elt[e]["G"][k2]
                        if g in rec.pos and wet0[rec.pos[g]] and min(ze_v) < z0: ok = False
            if not ok or wet0.all() or not wet0.any(): ctx.obs("wet/dry case without a clean shoreline"); 
            if not ok: return
        c0 = np.sqrt(9.81 * c.h0) * c.h0
        depth = rec.q[0][:, 0] + rec.bath
        worst = 0; wq = 0; first = None
        tol = 1e-11 * (2 + len(rec.q) / 10.0) * (200 if prob in ("ihdg", "gn") else 1) * (5 if sh else 1)
        for s in range(1, len(rec.q)):
            ez = np.max(np.abs(rec.at(rec.q[s][:, 0]) - rec.at(rec.q[0][:, 0]))) / c.h0
            eq = np.max(np.abs(rec.at(rec.q[s][:, 1:]))) / c0
            worst = max(worst, ez); wq = max(wq, eq); ctx.obs("states checked")
            if not (max(ez, eq) <= tol) and first is None: first = (s, ez, eq)
        if wd: ctx.obs("dry elements", int(np.sum(~wet0)))
        # flatness at start: projection of the constant
        if not wd: ctx.check(np.max(np.abs(rec.at(rec.q[0][:, 0]) - z0)) < 1e-11 * c.h0, "initial-%s" % prob, "initial surface is not the constant asked for", it)
        ctx.case(it, nontrivial=np.ptp([v[2] for v in c.mesh.nodes.values()]) > 0.05 * c.h0, sample=dict(c.desc(), kind=kind, z0=z0, max_dze=worst, max_q=wq))
        ctx.mx("surface %s %s" % (prob, kind), worst); ctx.mx("momentum %s %s" % (prob, kind), wq)
        if first: ctx.bad("moves-%s-%s" % (prob, kind), "still water moved at step %d: |dze|/h=%.3g |q|/(h c)=%.3g" % first, it)
    ctx.par(one, items)
    return {"rule": "random closed meshes and bathymetries, constant surface level (also non-zero); counted when the bathymetry varies by more than 5% of the depth",
            "assumptions": ["wet/dry cases are judged when every dry element next to water has its surface above the water level"]}
