"""C23 levees: prescribed levels on both sides through the real levee interface; closed runs below and above the crest."""
import numpy as np
import build, core, dist, gen, probe, stage as S
from checks import c10
TOL = 0.01
def expected(O, op, t):
    """(F_in, F_ex, scale, class) of a levee interface; class 0 wall, 1 in->ex, 2 ex->in, +2 if supercritical, -1 at a switch"""
    _, e, b, f, c = t; P = O.P; gi, gx = P.gs[e, b], P.gs[f, c]
    ni, nx = O.normal(e, b), O.normal(f, c); qi = O.q_side(op, e, b); qx = O.q_side(op, f, c)[:, ::-1]
    bi = O.bath(e, gi["x"], gi["y"]); bx = O.bath(f, gx["x"], gx["y"])[::-1]; H, cs, cp = O.levee_data(e, b, gi["x"], gi["y"]); one = np.ones_like(bi)
    Fi, Fx = np.zeros_like(qi), np.zeros_like(qi); cl = np.zeros(qi.shape[1], int); ex = np.zeros((2,) + qi.shape); Q = np.zeros(qi.shape[1])
    wi, wx = op["B"][e][0], op["B"][f][0]
    for k in range(qi.shape[1]):
        s = slice(k, k + 1); a, z = qi[0, k] - H[k], qx[0, k] - H[k]; gin = gex = S.G
        if min(abs(a - TOL), abs(z - TOL)) < 1e-9 or abs(abs(a - z) - TOL) < 1e-9: cl[k] = -1; continue
        if (a <= TOL and z <= TOL) or abs(a - z) <= TOL:
            Fi[:, s] = O.wall(qi[:, s], bi[s], ni, one[s]); Fx[:, s] = O.wall(qx[:, s], bx[s], nx, one[s]); continue
        hi, lo = max(a, z), min(a, z)
        if abs(lo - 2 * hi / 3) < 1e-9 * hi: cl[k] = -1; continue
        if lo > 2 * hi / 3: qn = cs[k] * lo * np.sqrt(2 * S.G * (hi - lo)); cl[k] = 1
        else: qn = cp[k] * (2 * hi / 3) * np.sqrt(S.G * 2 * hi / 3); cl[k] = 3
        Q[k] = qn
        if a > z:
            m = qn * ni
            if not wx: gex = 0.0
        else:
            m = qn * nx; cl[k] += 1
            if not wi: gin = 0.0
        Fi[:, s] = S.llf(gin, qi[:, s], np.array([[qi[0, k]], [m[0]], [m[1]]]), bi[s], ni, one[s])
        Fx[:, s] = S.llf(gex, qx[:, s], np.array([[qx[0, k]], [m[0]], [m[1]]]), bx[s], nx, one[s])
    one = np.ones_like(bi); qq = np.array([qi[0] * 0, Q, Q])
    return Fi, Fx[:, ::-1], S.fscale(S.G, (qi, qi + qq), bi, ni, one) + S.fscale(S.G, (qx, qx + qq), bx, nx, one), cl, Q, ni
def run(ctx):
    T = build.probe("rkdg").submit(); R = build.rec_serial("rkdg").submit()
    n = ctx.n(70, 700); m = ctx.n(24, 160)
    items = [("op", k) for k in range(n)] + [(kd, k) for kd in ("below", "above") for k in range(m)]
    D = build.rec_ompi("rkdg").submit(); part = build.partitioner().submit(); items = [("dist", k) for k in range(ctx.n(24, 160))] + items
    exe, rec_exe, dexe, part = T.path(), R.path(), D.path(), part.path()
    def op_case(it):
        kd, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%d" % it)
        c = S.make(rng, d, "rkdg", levee={"H": lambda: rng.uniform(-0.2, 0.3)}, bath="random", func=False, forcing=True)
        c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        if k % 5 == 4: c.problem["wetting_drying"] = {"h_o": 0.001 * c.h0}
        def states(P0, i):
            h = c.h0; st = S.rand_states(rng, P0, h, ze=0.3, mach=rng.choice([0.0, 0.2, 1.0]), high=0.02)
            for t in P0.ints:
                if t[0] != "Levee": continue
                O = S.Oracle(P0, c); g = P0.gs[t[1], t[2]]; H, _, _ = O.levee_data(t[1], t[2], g["x"], g["y"]); H0 = float(np.mean(H)); a = h * rng.uniform(0.02, 0.5)
                lv = rng.choice([(-a, -a * rng.random()), (a, -a), (-a, a), (a, a * rng.uniform(0.7, 0.98)), (a * rng.uniform(0.7, 0.98), a), (a, a * rng.uniform(0, 0.6)), (a * rng.uniform(0, 0.6), a), (a, a + 0.004), (0.005, a), (a, a)])
                for e, z in ((t[1], lv[0]), (t[3], lv[1])):
                    vv = P0.vert(st[e][1]).copy(); bmin = P0.vert(P0.bath[e]).min(); z = max(H0 + z, -0.7 * bmin)
                    vv[0] = z + 0.3 * np.abs(lv[0] - lv[1]) * np.array([rng.uniform(-1, 1) for _ in range(3)]) * rng.choice([0, 0, 1]); vv[0] = np.maximum(vv[0], -0.8 * bmin)
                    w = 1
                    if k % 5 == 4 and rng.random() < 0.4 and z < H0: w = 0; vv[1:] = 0
                    st[e] = (w, P0.coef_of_linear(vv))
            return st
        P = c10.scriptrun(ctx, it, c, exe, 3, states)
        if P is None: return
        O = S.Oracle(P, c); worst = 0; lev = [t for t in P.ints if t[0] == "Levee"]; names = ["wall", "sub in>ex", "sub ex>in", "super in>ex", "super ex>in"]
        want = sum(len(s["nodes"]) - 1 for s in c.mesh.land if "conn" in s)
        ctx.check(len(lev) == want, "levee-count", "%d levee interfaces for %d levee edges" % (len(lev), want), it)
        for op in P.ops:
            for t in lev:
                wi, wx = op["B"][t[1]][0], op["B"][t[3]][0]
                if not (wi or wx): continue
                Fi, Fx, sc, cl, Q, ni = expected(O, op, t); gi, gx = op["F"][t[1], t[2]][2], op["F"][t[3], t[4]][2]; ok = cl >= 0
                for x in cl: ctx.obs(names[x] if x >= 0 else "at a switch")
                di = np.max(np.abs(gi - Fi) / sc, axis=0); dx = np.max(np.abs(gx - Fx) / sc[:, ::-1], axis=0)[::-1]
                if not ok.any(): continue
                dev = max(di[ok].max(), dx[ok].max()); worst = max(worst, dev)
                ctx.check(dev < 1e-9, "levee-flux", "flux at a levee differs from the weir law by %.3g (relative), classes %s, flags %d%d" % (dev, cl, wi, wx), it)
                w = cl == 0
                if w.any():
                    leak = max(np.max(np.abs(gi[0, w]) / sc[0, w]), np.max(np.abs(gx[0, ::-1][w]) / sc[0, w]))
                    ctx.check(leak < 1e-11, "levee-leak", "water passes a levee below the crest: %.3g" % leak, it)
                # the imposed discharge, recovered from the mass fluxes of both sides
                v = ok & (cl > 0)
                if v.any():
                    qi, qx = O.q_side(op, t[1], t[2]), O.q_side(op, t[3], t[4])[:, ::-1]
                    Qi = 2 * gi[0] - (qi[1] * ni[0] + qi[2] * ni[1]); Qx = 2 * gx[0, ::-1] + (qx[1] * ni[0] + qx[2] * ni[1])
                    sg = np.where(cl % 2 == 1, 1.0, -1.0); s2 = sc[0]
                    ctx.check(np.all(np.abs(Qi - sg * Q)[v] <= 1e-9 * s2[v]) and np.all(np.abs(Qx + sg * Q)[v] <= 1e-9 * s2[v]), "levee-exchange", "discharge leaving one side %s is not the weir discharge %s entering the other %s" % (Qi[v], (sg * Q)[v], -Qx[v]), it)
        ctx.mx("flux deviation", worst)
        ctx.case(it, sample=dict(c.desc(), levee_edges=len(lev), worst=worst))
    def run_case(it):
        kd, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%d" % it)
        c = gen.scenario(rng, d, "rkdg", "levee", p=rng.choice([1, 2]))
        lv = [s for s in c.mesh.land if "conn" in s][0]; h = c.h0
        for n in c.mesh.nodes: x, y, z = c.mesh.nodes[n]; c.mesh.nodes[n] = (x, y, h)
        front = {lv["nodes"][0]}; adj = {}
        for e, ns in c.mesh.elts.items():
            for x in ns: adj.setdefault(x, []).append(e)
        side = set(); todo = [e for e in adj[lv["nodes"][0]]]
        while todo:
            e = todo.pop()
            if e in side: continue
            side.add(e); todo += [f for x in c.mesh.elts[e] for f in adj[x]]
        if len(side) == len(c.mesh.elts): raise core.Inconclusive("levee does not separate")
        X = np.array([c.mesh.nodes[n] for n in lv["nodes"]]); ax = int(np.ptp(X[:, 0]) > np.ptp(X[:, 1])); B = [n for n in c.mesh.nodes]
        A_side = np.array([c.mesh.nodes[x][:2] for e in side for x in c.mesh.elts[e]]).mean(0); mid = X[:, :2].mean(0) + 0.0
        Bk = np.array([c.mesh.nodes[n][:2] for n in lv["conn"]]).mean(0); mid = (X[:, :2].mean(0) + Bk) / 2; nv = A_side - mid; tv = X[-1, :2] - X[0, :2]; tv = tv / np.hypot(*tv); nv = nv - (nv @ tv) * tv
        if kd == "below": a, b, crest = 0.1 * h * rng.uniform(-1, 1), 0.1 * h * rng.uniform(-1, 1), 0.5 * h
        else:
            crest = -0.3 * h; hi = h * rng.uniform(0.05, 0.3); lo = crest + rng.choice([-0.1 * h, rng.uniform(0.1, 0.9) * (hi - crest)]); a, b = rng.choice([(hi, lo), (lo, hi)])
        lv["H"] = [crest for _ in lv["nodes"]]; lv["cs"] = [rng.uniform(0.3, 0.8)] * len(lv["nodes"]); lv["cp"] = [rng.uniform(0.3, 0.8)] * len(lv["nodes"])
        c.function([(0, 4, a, mid[0], mid[1], nv[0], nv[1]), (0, 4, b, mid[0], mid[1], -nv[0], -nv[1])])
        c.forcing(); c.write()
        r, rec = core.sim(ctx, rec_exe, d, ["in.15"], env=c.env)
        if rec is None or not rec.end: ctx.bad("run-fails", "levee run ended rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-200:]), it); return
        A = rec.areas(); sel = np.array([e in side for e in rec.ids]); V = np.array([[np.sum((A * rec.mean(rec.q[s][:, 0, :] + rec.bath))[m]) for m in (sel, ~sel)] for s in range(len(rec.q))]); ctx.obs("steps observed", len(rec.q))
        tot = V.sum(axis=1); sc = tot[0]; ctx.obs("runs " + kd)
        if kd == "below":
            dv = np.max(np.abs(V - V[0]) / V[0]); ctx.mx("volume through a closed levee", dv)
            ctx.check(dv < 1e-11, "levee-run-leak", "levels below the crest, but a side's volume changes by %.3g (relative)" % dv, it)
        else:
            hi = 0 if a > b else 1; d1 = V[1, hi] - V[0, hi]; d2 = V[1, 1 - hi] - V[0, 1 - hi]
            ctx.check(d1 < 0 < d2, "levee-run-direction", "water does not flow from the higher to the lower side: changes %.3g %.3g" % (d1, d2), it)
            # the first step leaves both sides at rest: each side gets half the weir discharge of the level difference (weak imposition)
        ctx.case(it, sample=dict(c.desc(), kind=kd, levels=(a, b, crest)))
    def dist_case(it):
        """a levee whose sides lie in different submeshes exchanges what it exchanges in one mesh"""
        kd, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%d" % it); c = gen.scenario(rng, d, "rkdg", "levee", p=rng.choice([1, 1, 2])); how = k % 4
        if how % 2:         # water on one side only, or much higher on one side
            s = next(s for s in c.mesh.land if "conn" in s); x = [c.mesh.nodes[n][0] for n in s["nodes"] + s["conn"]]
            if how == 3 and c.p == 1: c.problem["wetting_drying"] = {"h_o": 0.02 * c.h0}; c.dt *= 0.5
            c.function(c.terms + [(0, 4, (-1.5 if "wetting_drying" in c.problem else -0.4) * c.h0, (min(x) + max(x)) / 2, 0.0, rng.choice([-1.0, 1.0]), 0.0)])
        c.forcing(); inp = c.write(); r, a = core.sim(ctx, rec_exe, d, [inp], env=c.env)
        if a is None or not a.end: ctx.obs("runs that became non-finite"); return
        r, M, desc, A = dist.sim(ctx, it, rng, c, inp, part, dexe); n = sum(1 for t in M.dsts if "evee" in t[0]) if M is not None else 0
        if not ctx.check(M is not None and len(M.q) == len(a.q), "levee-dist-fails", "the serial run succeeds, the distributed one ends rc=%s sig=%s timeout=%s %s" % (r.rc, r.sig, r.timeout, r.err[-300:]), it): return
        ctx.obs("distributed levee edges", n); w = 0.0
        for s in range(len(a.q)):
            if not np.all(np.isfinite(a.q[s])): break
            sc = np.array([max(np.abs(a.bath).max(), np.abs(a.q[s][:, 0]).max())] + [np.abs(a.q[s][:, 1:]).max() + 1e-6 * c.h0] * 2)[None, :, None]; w = max(w, float(np.max(np.abs(M.q[s] - a.q[s]) / sc)))
            if s > 12 and "wetting_drying" in c.problem: break      # C03 follows such runs to their end
        ctx.mx("distributed levee run against one mesh", w)
        ctx.check(w <= 1e-8, "levee-distributed", "a run with %d levee edges between submeshes differs from the run in one mesh by %.3g %s" % (n, w, desc), it)
        ctx.case(it, nontrivial=n > 0, sample=dict(c.desc(), difference=w, **desc))
    ctx.par(lambda it: op_case(it) if it[0] == "op" else dist_case(it) if it[0] == "dist" else run_case(it), items)
    return {"rule": "op: random levels on both sides of every levee edge (below, above, equal within tolerance, sub- and supercritical, both directions, dry receiving side), random crest and coefficients per node pair; run: basins divided by a levee, below and above the crest; dist: such basins over several submeshes, levee edges between submeshes, water on one side only",
            "assumptions": ["the discharge is imposed weakly through the local Lax-Friedrichs flux of each side, as the code documents by construction; what is compared is the imposed discharge"]}
