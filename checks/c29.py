"""C29: accepted implicit steps of the real solver put back into the fully discrete equations (elements, interior traces, every boundary type), and the traces, fluxes and tendencies of the explicit hybridized scheme."""
import numpy as np
import build, core, follow, gen, probe, stage as S
from checks import c03, c10
from checks.c21 import trace_residual
def trace_solve(q, ext, b, n):
    """state of a boundary point that satisfies A+(q-h) = A-(ext-h), by the secant form; None if it does not settle"""
    h = 0.5 * (q + ext)
    for _ in range(200):
        new = h.copy()
        for k in range(q.shape[1]):
            Ap, Am, lam = S.split(h[:, k], b[k], n)
            if abs(lam[1]) < 1e-9 * np.max(np.abs(lam)): return None
            new[:, k] = np.linalg.solve(Ap - Am, Ap @ q[:, k] - Am @ ext[:, k])
        d = np.max(np.abs(new - h) / (1 + np.abs(h))); h = new
        if d < 1e-14: return h
    return None
class Weak:
    def __init__(self, O, P, c): self.O, self.P, self.c = O, P, c
    def element(self, op, st, t, e, flux):
        """volume terms, sources and edge fluxes tested with every element function, and the size of the terms"""
        O, P = self.O, self.P; g = P.ge[e]; o2 = dict(op, t=t, B=st); Sx, sc, q = S.source(O, o2, e); b = O.bath(e, g["x"], g["y"]); h = q[0] + b; pe = S.G * (q[0] ** 2 / 2 + q[0] * b)
        fx = np.array([q[1], q[1] ** 2 / h + pe, q[1] * q[2] / h]); fy = np.array([q[2], q[1] * q[2] / h, q[2] ** 2 / h + pe]); W = g["w"]
        r = (fx * W) @ g["dx"].T + (fy * W) @ g["dy"].T + (Sx * W) @ g["phi"].T; a = (np.abs(fx) * W) @ np.abs(g["dx"]).T + (np.abs(fy) * W) @ np.abs(g["dy"]).T + (sc * W) @ np.abs(g["phi"]).T
        for k in range(3):
            gs = P.gs[e, k]; F, fsc = flux[e, k]; r -= (F * gs["w"]) @ gs["phi"].T; a += (fsc * gs["w"]) @ np.abs(gs["phi"]).T
        return r, a
    def sides(self, st, hat):
        """numerical flux of every side from the element states and the trace values at the points (given in the order of the first side)"""
        O, P = self.O, self.P; out = {}
        def one(e, b, qh):
            g = P.gs[e, b]; q = st[e][1] @ g["phi"]; bb = O.bath(e, g["x"], g["y"]); n = O.normal(e, b); return S.ehdg_flux(q, qh, bb, n), S.fscale(S.G, (q, qh), bb, n, np.ones_like(bb))
        for _, e, b, f, c in P.ints: out[e, b] = one(e, b, hat[e, b]); out[f, c] = one(f, c, hat[e, b][:, ::-1])
        for _, e, b in P.bnds: out[e, b] = one(e, b, hat[e, b])
        return out
    def start_trace(self, st, t, ramp):
        O, P = self.O, self.P; hat = {}
        for _, e, b, f, c in P.ints: hat[e, b] = 0.5 * (st[e][1] @ P.gs[e, b]["phi"] + (st[f][1] @ P.gs[f, c]["phi"])[:, ::-1])
        for name, e, b in P.bnds:
            g = P.gs[e, b]; q = st[e][1] @ g["phi"]; n = O.normal(e, b)
            if name == "Land": qn = q[1] * n[0] + q[2] * n[1]; hat[e, b] = np.array([q[0], q[1] - qn * n[0], q[2] - qn * n[1]])
            else:
                hat[e, b] = trace_solve(q, O.external(name, e, b, q, t, ramp), O.bath(e, g["x"], g["y"]), n)
        return hat
def run(ctx):
    F = follow.Pair(["ehdg", "ihdg"]); T = {p: build.probe(p).submit() for p in ("ihdg", "ehdg")}; E = {p: t.path() for p, t in T.items()}
    refused = []
    def one(it):
        prob, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%d" % it); imp = prob == "ihdg"
        kinds = ["tide", "flow", "func", "land"]; rng.shuffle(kinds)
        if k % 4 == 0: kinds = ["land"] * 4
        if k % 4 == 1: kinds = ["func"] * 4
        c = S.make(rng, d, prob, p=rng.choice([1, 1, 2]) if imp else None, sides=dict(zip("brtl", kinds)), nmax=3 if imp else 4, bath=rng.choice(["random", "slope", "flat"]), amp_b=0.3)
        c.function([(t[0], t[1], t[2] * (0.3 if imp else 0.6)) + tuple(t[3:]) for t in c.terms])
        fr = rng.choice([None, "chezy", "manning", None])
        if fr == "chezy": c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": rng.choice([0.003, 0.05])}
        elif fr == "manning": c.manning(0.005, 0.08, rng.choice([0.0, 1e-3, 5e-3]))
        if rng.random() < 0.3: c.problem["coriolis"] = "Enable"
        if imp: c.kw["order"] = rng.choice([1, 2, 2]); c.kw["nstages"] = 1; c.dt *= rng.choice([0.3, 1, 1.5])
        nops = c.kw["nstages"] * 2 if not imp else (3 if not ctx.thorough else 6)
        def states(P0, i):
            if imp: return S.rand_states(rng, P0, c.h0, ze=0.05, mach=0.1, high=0.02) if i == 0 else {}
            return S.rand_states(rng, P0, c.h0, ze=0.05, mach=0.1, high=0.02)
        c.write(); r, P0 = probe.run(ctx, E[prob], d, ["GEO"], env=c.env, name="probe0")
        if P0 is None or not P0.end: ctx.bad("probe-fails", "no geometry: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it); return
        script = ["GEO"]
        for i in range(nops): script += probe.sets(states(P0, i)) + ["STAGE"]
        r, P = probe.run(ctx, E[prob], d, script, env=c.env, name="probe")
        if P is None or not P.end:
            if imp and P is not None and ("no convergence" in r.err or "factorized" in r.err or "non-finite" in r.err): refused.append(it); ctx.obs("implicit runs stopped by the solver")
            else: ctx.bad("probe-fails", "stage on a wet state failed: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it); return
        O = S.Oracle(P, c); W = Weak(O, P, c); worst = {}
        def see(what, dev, tol, msg):
            worst[what] = max(worst.get(what, 0), dev); ctx.check(dev < tol, what, msg % dev, it)
        theta = 0.5 if imp and c.kw["order"] == 2 else 0.0
        if imp and P.ops:     # trace of the initial state
            st0 = {e: (1, q) for e, q in P.q0.items()}; h0 = W.start_trace(st0, 0.0, O.ramp(0.0))
            for key, v in P.ops[0]["I"].items():
                w = h0[key]
                if w is None: ctx.obs("degenerate starting traces"); continue
                ctx.obs("starting traces"); see("starting-trace", float(np.max(np.abs(v @ P.gh[key] - w)) / (np.max(np.abs(w)) + c.h0)), 1e-7, "starting trace is off by %.3g")
        for op in P.ops:
            if imp:
                t1 = op["t"] + c.dt; ramp1 = O.ramp(t1); st = op["N"]; hat = {}
                for key, v in op["H"].items():
                    gh = P.gh[key]; hat[key] = v[-3 * gh.shape[0]:].reshape(3, -1) @ gh
                fl = W.sides(st, hat)
                prev = None
                if theta:
                    prev = W.sides(op["B"], {key: v @ P.gh[key] for key, v in op["I"].items()})     # with the trace the previous step ended with
                if True:
                    for e in P.elt:
                        g = P.ge[e]; dq = (st[e][1] - op["B"][e][1]) @ g["phi"] / c.dt; l = (dq * g["w"]) @ g["phi"].T; r, a = W.element(op, st, t1, e, fl)
                        if theta: r0, a0 = W.element(op, op["B"], op["t"], e, prev); r = (1 - theta) * r + theta * r0; a = (1 - theta) * a + theta * a0
                        a = a + (np.abs(dq) * g["w"]) @ np.abs(g["phi"]).T; see("element-%s" % ("theta" if theta else "euler"), float(np.max(np.abs(l - r) / a.max())), 1e-9, "accepted implicit step leaves a residual of %%.3g of its terms in element %d, step %d" % (e, P.ops.index(op) + 1)); ctx.obs("implicit element equations")
                for _, e, b, f, cc in P.ints:
                    gh = P.gh[e, b]; w = P.gs[e, b]["w"]; s = fl[e, b][0] + fl[f, cc][0][:, ::-1]; see("interior-trace-ihdg", float(np.max(np.abs((s * w) @ gh.T)) / np.max((fl[e, b][1] * w) @ np.abs(gh).T)), 1e-9, "the numerical fluxes of the two sides do not cancel: %%.3g at %s" % ((e, b, f, cc),)); ctx.obs("implicit interior trace equations")
                for name, e, b in P.bnds:
                    g = P.gs[e, b]; n = O.normal(e, b); bb = O.bath(e, g["x"], g["y"]); q = st[e][1] @ g["phi"]; qh = hat[e, b]; gh = P.gh[e, b]
                    if name == "Land":
                        qn = q[1] * n[0] + q[2] * n[1]; R = qh - np.array([q[0], q[1] - qn * n[0], q[2] - qn * n[1]]); rs = np.array([c.h0, c.h0 ** 1.5 * 3, c.h0 ** 1.5 * 3])[:, None] + 0 * R
                    else: R, rs = trace_residual(q, O.external(name, e, b, q, t1, ramp1), qh, bb, n)
                    see("boundary-trace-%s-ihdg" % name, float(np.max(np.abs((R * g["w"]) @ gh.T) / np.max((rs * g["w"]) @ np.abs(gh).T))), 1e-9, "trace equation of a %s boundary violated by %%.3g, step %d" % (name, P.ops.index(op) + 1)); ctx.obs("implicit %s trace equations" % name)
            else:
                st = op["B"]; ramp = O.ramp(op["t"]); hat = {}
                for _, e, b, f, cc in P.ints:
                    ng = len(P.gs[e, b]["w"]); qh = op["H"][e, b][:3 * ng].reshape(3, ng); av = 0.5 * (O.q_side(op, e, b) + O.q_side(op, f, cc)[:, ::-1]); hat[e, b] = qh
                    see("trace-ehdg", float(np.max(np.abs(qh - av)) / (np.max(np.abs(av)) + c.h0)), 1e-10, "interior trace is not the flux balance state: %.3g")
                for name, e, b in P.bnds:
                    g = P.gs[e, b]; ng = len(g["w"]); q = O.q_side(op, e, b); n = O.normal(e, b); bb = O.bath(e, g["x"], g["y"]); ctx.obs("explicit %s traces" % name)
                    if name == "Land": qn = q[1] * n[0] + q[2] * n[1]; hat[e, b] = np.array([q[0], q[1] - qn * n[0], q[2] - qn * n[1]])
                    else:
                        hat[e, b] = op["H"][e, b][:3 * ng].reshape(3, ng); R, rs = trace_residual(q, O.external(name, e, b, q, op["t"], ramp), hat[e, b], bb, n)
                        see("boundary-trace-%s-ehdg" % name, float(np.max(np.abs(R) / rs)), 1e-6, "trace equation of a %s boundary violated by %%.3g" % name)
                fl = W.sides(st, hat)
                for key, (F, sc) in fl.items(): see("flux-ehdg", float(np.max(np.abs(op["F"][key][2] - F) / sc)), 1e-9, "flux of a side is not the one of its trace: %.3g"); ctx.obs("explicit side fluxes")
                for e, got in op["R"].items(): r, a = W.element(op, st, op["t"], e, fl); see("tendency-ehdg", float(np.max(np.abs(got - r) / a.max(axis=1, keepdims=True))), 1e-9, "explicit tendency is not the weak form of its fluxes and sources: %.3g"); ctx.obs("explicit element equations")
        for w, v in worst.items(): ctx.mx(w, v)
        ctx.case(it, sample=dict(c.desc(), friction=fr, order=c.kw.get("order"), worst=worst))
    n = ctx.n(30, 300); ctx.par(one, [(p, k) for k in range(n) for p in E])
    F.ready(); ctx.par(lambda it: follow.one(ctx, it, F, it[1], lambda rng, d: c03.scen(rng, d, it[1], it[2], k=it[3])), [("dist", p, kd, k) for p in ("ihdg", "ehdg") for kd in ("closed", "forces", "func") for k in range(ctx.n(4, 40))])
    ctx.check(len(refused) < 0.2 * n, "implicit-refused", "%d of %d mild implicit runs are stopped by their solver" % (len(refused), n), "all")
    return {"rule": "one case = random mesh, order, bathymetry, boundary types, friction, Coriolis and time step; accepted implicit steps (backward Euler and trapezoidal) from discontinuous states are put into the independently evaluated discrete equations of every element, interior edge and boundary edge; traces, side fluxes and tendencies of explicit hybridized stages likewise; edges between submeshes through distributed runs that have to follow the serial run",
            "assumptions": ["residual tolerance 1e-9 of the size of the terms for the implicit solver", "trapezoidal steps take the trace accepted by the previous step"]}
