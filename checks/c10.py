"""C10 numerical fluxes: prescribed states through the real interface and boundary kernels, edge fluxes against the formulas."""
import numpy as np
import build, core, follow, gen, probe, stage as S
from checks import c03
def scriptrun(ctx, it, c, exe, nops, states, name="probe", stuck=None):
    """write the case, read its geometry, then run one operation per generated state set"""
    c.write(); d = c.d
    r, P0 = probe.run(ctx, exe, d, ["GEO"], env=c.env, name=name + "0")
    if P0 is None or not P0.end: ctx.bad("probe-fails", "no geometry: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it); return None
    script = ["GEO"]
    for k in range(nops): script += probe.sets(states(P0, k)) + ["STAGE"]
    r, P = probe.run(ctx, exe, d, script, env=c.env, name=name)
    if stuck is not None and r.rc is None and "cannot be factorized" in r.err: stuck.append(it); ctx.obs("implicit iteration that did not settle"); return None
    if P is None or not P.end: ctx.bad("probe-fails", "stage on a wet state failed: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it); return None
    return P
def run(ctx):
    T = {p: build.probe(p).submit() for p in ("rkdg", "ehdg")}
    F = follow.Pair(["rkdg", "ehdg"]); n = ctx.n(40, 400)
    items = [(p, sph, k) for p in ("rkdg", "ehdg") for sph in ((0, 1) if p == "rkdg" else (0,)) for k in range(n if not sph else n // 2)]
    exe = {p: T[p].path() for p in T}; F.ready(); di = [("dist", p, kd, k) for p, kd in (("rkdg", "forces"), ("rkdg", "wetdry"), ("rkdg", "closed"), ("ehdg", "closed"), ("ehdg", "forces")) for k in range(ctx.n(4, 40))]
    def one(it):
        prob, sph, k = it; rng = ctx.rng(*it); d = ctx.dir("%s%d_%d" % it)
        c = S.make(rng, d, prob, sphere=bool(sph), bath=rng.choice(["random", "random", "flat", "slope"]), func=False, forcing=False)
        c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        same = k % 4 == 0
        def states(P0, i):
            if same:      # one polynomial over the whole domain: both sides of every edge agree
                r = np.random.RandomState(rng.randrange(2 ** 31)); h0 = c.h0; g = r.uniform(-0.2, 0.2, (3, 3)) * h0; g[1:] *= 3 * h0 ** 0.5; g[1:, 0] *= 5
                X = {e: P0.elt[e]["X"] for e in P0.elt}
                return {e: (1, P0.coef_of_linear(np.array([[g[v, 0] + g[v, 1] * (p[0] - c.lo[0]) / c.size + g[v, 2] * (p[1] - c.lo[1]) / c.size for p in X[e]] for v in range(3)]))) for e in P0.elt}
            return S.rand_states(rng, P0, c.h0, mach=rng.choice([0.1, 0.8, 3.0]), high=0.15)
        nops = 3 if ctx.thorough else 2
        P = scriptrun(ctx, it, c, exe[prob], nops, states)
        if P is None: return
        O = S.Oracle(P, c); worst = 0
        for op in P.ops:
            for t in P.ints:
                name, e, b, f, cc = t
                Fi, Fx, sc, _ = (S.rkdg_interface if prob == "rkdg" else S.ehdg_interface)(O, op, t)
                got_i, got_x = op["F"][e, b][2], op["F"][f, cc][2]
                dev = max(np.max(np.abs(got_i - Fi) / sc), np.max(np.abs(got_x - Fx) / sc[:, ::-1])); worst = max(worst, dev)
                ctx.obs("interface points", Fi.shape[1])
                ctx.check(dev < 1e-10, "interface-%s" % prob, "numerical flux differs from its formula by %.3g (relative) at interface %s %s" % (dev, (e, b, f, cc), "spherical" if sph else ""), it)
                cons = np.max(np.abs(got_i + got_x[:, ::-1]) / sc)
                ctx.check(cons < 1e-11, "conservative-%s" % prob, "what leaves one element does not enter the other: %.3g at %s" % (cons, (e, b, f, cc)), it)
                n_ = O.normal(e, b); g = P.gs[e, b]; q = O.q_side(op, e, b); qx = O.q_side(op, f, cc)[:, ::-1]; bb = O.bath(e, g["x"], g["y"]); sp = O.sp(g["y"])
                if same:
                    cst = np.max(np.abs(got_i - S.fnorm(S.G, q, bb, n_, sp)) / sc); ctx.obs("consistency points", q.shape[1])
                    ctx.check(cst < 1e-10, "consistent-%s" % prob, "equal states, but the flux differs from the physical flux by %.3g" % cst, it)
                elif prob == "rkdg":
                    # dissipation never below the largest characteristic speed of the two states
                    dis = 2 * got_i - S.fnorm(S.G, q, bb, n_, sp) - S.fnorm(S.G, qx, bb, n_, sp); J = q - qx; lam = np.maximum(S.speed(S.G, q, bb, n_, sp), S.speed(S.G, qx, bb, n_, sp))
                    for v in range(3):
                        ok = np.abs(J[v]) * lam > 1e-4 * sc[v]; rr = dis[v][ok] / J[v][ok] / lam[ok]
                        if ok.any(): ctx.check(np.all(np.abs(rr - 1) < 1e-6), "dissipation-%s" % prob, "dissipation speed is %.6g of the largest wave speed" % rr[np.argmax(np.abs(rr - 1))], it); ctx.obs("dissipation points", int(ok.sum()))
            for name, e, b in P.bnds:
                q = O.q_side(op, e, b); g = P.gs[e, b]; bb = O.bath(e, g["x"], g["y"]); n_ = O.normal(e, b); sp = O.sp(g["y"])
                F = O.wall(q, bb, n_, sp) if prob == "rkdg" else S.ehdg_wall(q, bb, n_)
                sc = S.fscale(S.G, (q,), bb, n_, sp); got = op["F"][e, b][2]; ctx.obs("wall points", q.shape[1])
                leak = np.max(np.abs(got[0]) / sc[0]) if prob == "rkdg" else np.max(np.abs(got[0]) / sc[0])
                ctx.check(leak < 1e-11, "wall-leak-%s" % prob, "water crosses a land wall: %.3g of the flux scale" % leak, it)
                dev = np.max(np.abs(got - F) / sc); worst = max(worst, dev)
                ctx.check(dev < 1e-10, "wall-%s" % prob, "wall flux differs from the reflecting wall by %.3g" % dev, it)
        ctx.mx("flux deviation %s" % prob, worst)
        ctx.case(it, sample=dict(c.desc(), spherical=bool(sph), ops=len(P.ops), worst=worst))
    ctx.par(lambda it: follow.one(ctx, it, F, it[1], lambda rng, d: c03.scen(rng, d, it[1], it[2], k=it[3])) if it[0] == "dist" else one(it), di + items)
    return {"rule": "one case = one random mesh/bathymetry with random discontinuous wet states set in every element (sub- and supercritical, order 1-3), every interface and wall point compared; fluxes between submeshes through distributed runs that have to follow the serial run", "assumptions": []}
