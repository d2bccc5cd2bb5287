"""C21 open boundaries: forcing files through the real boundary kernels at every stage, imposed state against the harmonic sum."""
import numpy as np
import build, core, gen, probe, stage as S
from checks import c10
def trace_residual(q, qinf, qh, b, n):
    """A+(q-qh) - A-(qinf-qh) at every point, and its scale"""
    R = np.zeros_like(q); sc = np.zeros_like(q)
    for k in range(q.shape[1]):
        Ap, Am, lam = S.split(qh[:, k], b[k], n); R[:, k] = Ap @ (q[:, k] - qh[:, k]) - Am @ (qinf[:, k] - qh[:, k])
        sc[:, k] = np.max(np.abs(lam)) * (np.abs(qh[0, k]) + np.abs(b[k]) * 0.1 + np.zeros(3)); sc[1:, k] = np.max(np.abs(lam)) * np.max(np.abs(lam)) * (b[k] + abs(qh[0, k]))
    return R, sc
def run(ctx):
    T = {p: build.probe(p).submit() for p in ("rkdg", "ehdg", "ihdg")}
    n = ctx.n(30, 300)
    items = [(p, k) for p in T for k in range(n)]
    exe = {p: T[p].path() for p in T}
    stuck = []          # implicit steps whose Newton iteration found no solution, e.g. where the flow along the boundary is undetermined (reported by the program); few at most
    def one(it):
        prob, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%d" % it)
        kinds = ["tide", "flow", "func", "land"]; rng.shuffle(kinds)
        if k % 3 == 0: kinds = [x if x != "land" else "flow" for x in kinds]
        c = S.make(rng, d, prob, p=rng.choice([1, 2]) if prob == "ihdg" else None, sides=dict(zip("brtl", kinds)), nmax=3 if prob == "ihdg" else 4,
                   bath=rng.choice(["random", "slope"]), amp_b=0.3)
        T3 = [t for t in c.terms]
        c.function([(t[0], t[1], t[2] * (0.3 if prob == "ihdg" else 0.6)) + tuple(t[3:]) for t in T3])
        sh = 0.0
        if k % 3 == 1:                      # the same basin in another vertical datum: still water far above or below level zero
            sh = rng.choice([-1, 1, 1]) * rng.uniform(1, 8) * c.h0; c.shift(sh)
        nops = c.kw.get("nstages", 2) * 2 if prob != "ihdg" else 3
        h0 = c.h0
        def states(P0, i):
            if prob != "rkdg": return S.rand_states(rng, P0, h0, ze=0.05, mach=0.1, high=0.02, level=sh) if i == 0 or prob == "ehdg" else {}
            return S.rand_states(rng, P0, h0, hlo=0.7, hhi=1.4, mach=rng.choice([0.2, 0.5]), high=0.05)
        P = c10.scriptrun(ctx, it, c, exe[prob], nops, states, stuck=stuck if prob == "ihdg" else None)
        if P is None: return
        O = S.Oracle(P, c); worst = 0; seen = {}
        for op in P.ops:
            t = op["t"] + (c.dt if prob == "ihdg" else 0.0); ramp = O.ramp(t)
            for name, e, b in P.bnds:
                if name not in ("Tide", "Flow", "Function"): continue
                g = P.gs[e, b]; bb = O.bath(e, g["x"], g["y"]); n_ = O.normal(e, b); sp = O.sp(g["y"])
                q = op["F"][e, b][0] if prob == "ihdg" else O.q_side(op, e, b)
                ext = O.external(name, e, b, q, t, ramp); F = op["F"][e, b][2]; sc = S.fscale(S.G, (q, ext), bb, n_, sp)
                seen[name] = seen.get(name, 0) + q.shape[1]
                if prob == "rkdg":
                    dev = np.max(np.abs(F - S.llf(S.G, q, ext, bb, n_, sp)) / sc); worst = max(worst, dev)
                    ctx.check(dev < 1e-9, "%s-%s" % (name, prob), "flux at a %s boundary is not the one of the prescribed state: %.3g relative, stage %d, t=%g" % (name, dev, op["stage"], t), it)
                else:
                    ng = q.shape[1]; qh = op["H"][e, b][:3 * ng].reshape(3, ng)
                    R, rs = trace_residual(q, ext, qh, bb, n_); dev = np.max(np.abs(R) / rs); worst = max(worst, dev)
                    ctx.check(dev < (1e-7 if prob == "ihdg" else 1e-8), "%s-%s" % (name, prob), "trace at a %s boundary does not satisfy the characteristic condition with the prescribed state: %.3g, t=%g" % (name, dev, t), it)
                    if prob == "ehdg":
                        dev = np.max(np.abs(F - S.ehdg_flux(q, qh, bb, n_)) / sc)
                        ctx.check(dev < 1e-9, "flux-%s-%s" % (name, prob), "flux at a %s boundary is not the one of its trace: %.3g" % (name, dev), it)
        if sh and seen: ctx.obs("cases in a shifted datum %s" % prob)
        for k2, v in seen.items(): ctx.obs("%s %s points" % (prob, k2), v)
        ctx.obs("segments tide", len(c.mesh.open)); ctx.mx("deviation %s" % prob, worst)
        ctx.case(it, nontrivial=bool(seen), sample=dict(c.desc(), constituents=[len(x["con"]) for x in c.tide + c.flow], ramp=c.kw.get("ramp"), points=seen, worst=worst))
    ctx.par(one, items); ctx.check(len(stuck) <= 0.15 * n, "no-step", "%d of %d implicit cases end without a solution of their first steps" % (len(stuck), n), ("ihdg",) + tuple(sorted(x[1] for x in stuck)))
    return {"rule": "one case = random mesh with tide, flow and function segments (nodes listed in either direction, split segments, 1-3 constituents each), a third of them in a vertical datum several depths away, random states, several stages; every boundary point compared",
            "assumptions": ["implicit runs are compared at the last Newton iterate, tolerance 1e-7 of the characteristic scale"]}
