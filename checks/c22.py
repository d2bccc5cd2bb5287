"""C22 momentum sources: the source arrays of the real kernels for prescribed states, against the documented forces."""
import numpy as np
import build, core, gen, probe, stage as S
from checks import c10
FEAT = ["plain", "chezy", "manning", "coriolis", "user", "meteo", "all"]
def run(ctx):
    T = {p: build.probe(p).submit() for p in ("rkdg", "ehdg", "ihdg")}
    n = ctx.n(6, 60)
    items = [(p, f, sph, k) for p in T for f in FEAT for sph in ((0, 1) if p == "rkdg" else (0,)) for k in range(n)] + [("rkdg", "tidepot", 0, 0), ("ehdg", "plain", 1, 0), ("ihdg", "plain", 1, 0)]
    exe = {p: T[p].path() for p in T}
    def one(it):
        prob, feat, sph, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d_%d" % it)
        c = S.make(rng, d, prob, p=rng.choice([1, 2]) if prob == "ihdg" else None, sphere=bool(sph), bath=rng.choice(["random", "random", "flat", "slope"]), func=False, forcing=False, nmax=3)
        c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        # time scale of friction: below 1/dt so that explicit stages stay meaningful
        if feat in ("chezy", "all") and not (feat == "all" and k % 2): c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": rng.choice([0.0, 0.003, 0.05])}
        elif feat in ("manning", "all"): c.manning(0.005, 0.08, rng.choice([0.0, 1e-3, 5e-3, 1e-2]))
        if feat in ("coriolis", "all"):
            c.problem["coriolis"] = "Enable"
            if not sph: gen.scale(c.mesh, 1.0, (0.0, rng.uniform(-1, 1) * 6e6)); c.lo, c.hi = gen.bbox(c.mesh)
        if feat in ("user", "all"):
            kk = 2 * np.pi / c.size; h = c.h0
            c.src_terms = [(v, rng.choice([0, 1]), rng.uniform(-1, 1) * 0.02 * h / c.dt * (1.0 if v == 0 else np.sqrt(9.81 * h)), kk * rng.uniform(-1, 1), kk * rng.uniform(-1, 1), rng.uniform(-1, 1) / c.dt, rng.uniform(0, 6)) for v in (0, 1, 2)]
            c.function([(t[0] + 3,) + tuple(t[1:]) for t in c.src_terms], mode="s"); c.problem["function_source"] = "Enable"
            c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        if feat in ("meteo", "all"): c.meteo(rng.choice([1, 2, 3]), tau=S.RHO * 9.81 * c.h0 * 0.02, p=S.RHO * 9.81 * c.h0 * 0.05)
        if feat == "tidepot": c.problem["tide_potential"] = {"type": "Test"}
        if rng.random() < 0.5 and max(np.abs(c.lo).max(), np.abs(c.hi).max()) < 100 * c.size: c.spherical()
        nst = 1 if prob == "ihdg" else c.kw["nstages"]
        rest = [False]
        def states(P0, i):
            if prob == "ihdg": return S.rand_states(rng, P0, c.h0, ze=0.05, mach=0.05, high=0.02) if i == 0 else {}
            st = S.rand_states(rng, P0, c.h0, hlo=0.5, hhi=2.0, mach=rng.choice([0.05, 0.5, 1.5]), high=0.1)
            for e in list(st):
                if rng.random() < 0.2: st[e][1][1:] = 0.0
            return st
        nops = max(2 * nst, 4) if prob != "ihdg" else 3
        P = c10.scriptrun(ctx, it, c, exe[prob], nops, states)
        if P is None: return
        O = S.Oracle(P, c); worst = wr = 0
        big = max(np.abs(np.array(v)[:2]).max() for v in c.mesh.nodes.values()) + c.size + (c.sp[2] if c.sp else 0.0)
        for e, g in P.elt.items(): ctx.obs("elements in %s coordinates" % ("spherical" if hasattr(c, "lonlat") else "cartesian")); ctx.check(np.abs(g["X"][:, :2] - np.array([c.mesh.nodes[n][:2] for n in g["N"]])).max() <= 1e-13 * big, "projection", "element %d: nodes at %s, expected %s" % (e, g["X"].tolist(), [c.mesh.nodes[n] for n in g["N"]]), it)
        for j, op in enumerate(P.ops):
            op["step"] = j // nst; op["met_t"] = op["t"]
            if prob == "ihdg": o2 = dict(op, t=op["t"] + c.dt, B=op["N"])
            else: o2 = op
            ctx.check(len(op["Q"]) == len(P.elt), "missing", "source computed for %d of %d elements" % (len(op["Q"]), len(P.elt)), it)
            for e, got in op["Q"].items():
                exp, sc, q = S.source(O, o2, e); g = P.ge[e]
                X = O.tri[e]; lm = c.mesh.lmin()
                sc = sc + 9.81 * (np.abs(q[0]).max() + 1e-3 * c.h0) * c.h0 / lm * (1e-2 + 1e-6 * np.abs(X[:, :2]).max() / lm)
                sc[0] = sc[1:].max() + 1e-30 if not hasattr(c, "src_terms") else np.abs(exp[0]).max() + sc[0]
                dev = float(np.max(np.abs(got - exp) / np.maximum(sc, sc.max(axis=1, keepdims=True)))); worst = max(worst, dev); ctx.obs("points %s %s" % (prob, feat), got.shape[1])
                if prob != "rkdg" and sph:      # known finding: the projection factor exists in RKDG only
                    if dev > 1e-5: ctx.bad("projection-ignored-%s" % prob, "spherical_projection is accepted but the sources do not carry its factor (deviation %.2g)" % dev, it)
                    continue
                ctx.check(dev < (1e-5 if prob == "ihdg" else 1e-9), "%s-%s%s" % (feat, prob, "-sph" if sph else ""), "momentum source differs from the documented forces by %.3g (relative), %s, element %d, stage %d: got %s expected %s" % (dev, feat, e, op["stage"], got[:, 0], exp[:, 0]), it)
                if feat in ("chezy", "manning"):
                    b = O.bath(e, g["x"], g["y"]); db = O.dbath(e); sp = O.sp(g["y"]); fr = got - np.array([0 * b, S.G * db[0] * q[0] * sp, S.G * db[1] * q[0]])
                    w = q[1] * fr[1] + q[2] * fr[2]; ctx.obs("friction points")
                    ctx.check(np.all(w <= (1e-5 if prob == 'ihdg' else 1e-8) * sc.max() * (np.hypot(q[1], q[2]).max() + 1e-300)), "friction-drives-flow", "friction does work on the flow (%.3g), element %d" % (w.max(), e), it)
            if prob == "rkdg":      # the tendency is the weak form of fluxes and exactly this source
                for e, got in op["R"].items():
                    g = P.ge[e]; q = op["B"][e][1] @ g["phi"]; b = O.bath(e, g["x"], g["y"]); sp = O.sp(g["y"]); h = q[0] + b; pe = S.G * (q[0] ** 2 / 2 + q[0] * b)
                    fx = np.array([q[1], q[1] ** 2 / h + pe, q[1] * q[2] / h]) * sp; fy = np.array([q[2], q[1] * q[2] / h, q[2] ** 2 / h + pe]); W = g["w"]
                    ex = (fx * W) @ g["dx"].T + (fy * W) @ g["dy"].T + (op["Q"][e] * W) @ g["phi"].T
                    sc = (np.abs(fx) * W) @ np.abs(g["dx"]).T + (np.abs(fy) * W) @ np.abs(g["dy"]).T + (np.abs(op["Q"][e]) * W) @ np.abs(g["phi"]).T
                    for bd in range(3):
                        s = P.gs[e, bd]; F = op["F"][e, bd][2]; ex = ex - (F * s["w"]) @ s["phi"].T; sc = sc + (np.abs(F) * s["w"]) @ np.abs(s["phi"]).T
                    dev = float(np.max(np.abs(got - ex) / sc.max(axis=1, keepdims=True))); wr = max(wr, dev); ctx.obs("weak forms")
                    ctx.check(dev < 1e-9, "weak-form", "tendency of element %d is not volume + source - edge fluxes: %.3g" % (e, dev), it)
        if feat == "tidepot":
            ctx.bad("tide-potential-ignored", "tide_potential is accepted but adds nothing to the momentum source", it)
        ctx.mx("source deviation %s" % prob, worst); ctx.mx("weak form deviation", wr)
        ctx.case(it, sample=dict(c.desc(), feature=feat, spherical=bool(sph), worst=worst))
    ctx.par(one, items)
    return {"rule": "one case = random mesh, bathymetry, friction data, wind/pressure files, user source and states; every quadrature point of every element and stage compared",
            "assumptions": ["implicit runs are compared at the accepted state, tolerance 1e-5", "wind and pressure are interpolated linearly between files at the time the stage starts"]}
