"""C13 slope limiting: the real limiter on prescribed states, judged by means, linear data, the minmod bound and a reference limiter."""
import math
import numpy as np
import build, core, follow, gen, probe, stage as S
from checks import c03, c10, c12
def eig(h, u, v, n):
    c = math.sqrt(S.G * h)
    return np.array([[1, 0, 1], [u - c * n[0], -n[1], u + c * n[0]], [v - c * n[1], n[0], v + c * n[1]]], float)
class Lim:
    def __init__(self, O, P, c, M, nu):
        self.O, self.P, self.c, self.M, self.nu = O, P, c, M, nu
        self.nb = {}
        for t in P.ints: self.nb[t[1], t[2]] = t[3]; self.nb[t[3], t[4]] = t[1]
        self.bc = {e: O.tri[e][:, :2].mean(0) for e in P.elt}
    def prepare(self, op):
        self.lin = {e: self.P.coef_lin(op["B"][e][1]) for e in self.P.elt}; self.wet = {e: op["B"][e][0] for e in self.P.elt}
        self.mean = {e: self.lin[e].mean(axis=1) for e in self.P.elt}
    def active(self, e): return self.wet[e] and all(self.wet[self.nb[e, k]] for k in range(3) if (e, k) in self.nb)
    def deltas(self, e):
        """limited midpoint deviations before the mean correction (3 vars x 3 midpoints); None if a switch is too close to call"""
        X = self.O.tri[e]; b0 = self.mean[e]; h = b0[0] + X[:, 2].mean(); u, v = b0[1:] / h; out = np.zeros((3, 3)); sure = True
        if h <= 0: return None, None, False
        mid = [(X[(k + 1) % 3, :2] + X[(k + 2) % 3, :2]) / 2 for k in range(3)]; vm = [(self.lin[e][:, (k + 1) % 3] + self.lin[e][:, (k + 2) % 3]) / 2 for k in range(3)]
        nbc = [self.bc[self.nb[e, k]] if (e, k) in self.nb else 2 * mid[k] - self.bc[e] for k in range(3)]; nm = [self.mean[self.nb[e, k]] if (e, k) in self.nb else b0 for k in range(3)]
        raw = np.zeros((3, 3))
        for k in range(3):
            m = mid[k] - self.bc[e]; A = np.column_stack([nbc[k] - self.bc[e], nbc[(k + 1) % 3] - self.bc[e]]); det = np.linalg.det(A)
            if abs(det) < 1e-6 * np.linalg.norm(A) ** 2: return None, None, False
            al = np.linalg.solve(A, m); R = eig(h, u, v, m / np.linalg.norm(m)); L = np.linalg.inv(R)
            wt = L @ (vm[k] - b0); wd = L @ (al[0] * (nm[k] - b0) + al[1] * (nm[(k + 1) % 3] - b0)); d = np.zeros(3); lim = self.M * (m @ m)
            for i in range(3):
                if abs(abs(wt[i]) - lim) <= 1e-9 * lim + 1e-14 * np.abs(L).max() * np.abs(vm[k]).max(): sure = False
                if abs(wt[i]) <= lim: d[i] = wt[i]
                elif wt[i] * wd[i] > 0: d[i] = math.copysign(min(abs(wt[i]), self.nu * abs(wd[i])), wt[i])
            out[:, k] = R @ d; raw[:, k] = np.abs(R) @ np.abs(d)
        return out, raw, sure
    def result(self, e):
        """vertex values after limiting"""
        d, raw, sure = self.deltas(e)
        if d is None: return None, None, False
        D = d.copy()
        for v in range(3):
            if D[v].sum() != 0:
                pos, neg = np.maximum(D[v], 0).sum(), np.maximum(-D[v], 0).sum()
                tp = min(1.0, neg / pos) if pos > 0 else 1.0; tn = min(1.0, pos / neg) if neg > 0 else 1.0
                D[v] = tp * np.maximum(D[v], 0) - tn * np.maximum(-D[v], 0)
        T = np.ones((3, 3)) - 2 * np.eye(3)
        return self.mean[e][:, None] + D @ T, d, sure
def trouble(O, P, L, op, p):
    """the indicator: jump of depth over inflow edges, normalised; perimeter = length of the inflow edges"""
    per = {e: 0.0 for e in P.elt}; I = {e: 0.0 for e in P.elt}; amb = set()
    for t in P.ints:
        _, e, b, f, c = t
        if not (L.wet[e] or L.wet[f]): continue
        for (a, ab, o, ob) in ((e, b, f, c), (f, c, e, b)):
            g = P.gs[a, ab]; go = P.gs[o, ob]; n = O.normal(a, ab); q = op["B"][a][1] @ g["phi"]; qo = (op["B"][o][1] @ go["phi"])[:, ::-1]
            qn = float(((q[1] * n[0] + q[2] * n[1]) * g["w"]).sum()); s = float((np.hypot(q[1], q[2]) * g["w"]).sum())
            if abs(qn) <= 1e-11 * s + 1e-300: amb.add(a); continue
            if qn < 0:
                h = q[0] + O.bath(a, g["x"], g["y"]); ho = qo[0] + O.bath(o, go["x"], go["y"])[::-1]
                per[a] += O.length(a, ab); I[a] += abs(float(((h - ho) * g["w"]).sum()))
    out = {}
    for e in P.elt:
        if e in amb: continue
        X = O.tri[e][:, :2]; l = [np.linalg.norm(X[(k + 1) % 3] - X[(k + 2) % 3]) for k in range(3)]; A = P.area(e)
        hn = max(0.0, float(np.max(L.lin[e][0] + O.tri[e][:, 2])))
        out[e] = (I[e], per[e], hn)
    return out
def run(ctx):
    T = {p: build.probe(p).submit() for p in ("rkdg", "ehdg")}
    F = follow.Pair(["rkdg", "ehdg"]); n = ctx.n(30, 300)
    items = [(p, k) for p in T for k in range(n)]
    exe = {p: T[p].path() for p in T}; F.ready(); di = [("dist", p, kd, k) for p, kd in (("rkdg", "limiter"), ("rkdg", "wetlim"), ("ehdg", "limiter")) for k in range(ctx.n(6, 50))]
    def one(it):
        prob, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%d" % it); p = rng.choice([1, 1, 1, 2])
        c = S.make(rng, d, prob, p=p, bath=rng.choice(["random", "flat", "slope"]), amp_b=0.3, func=False, forcing=True, nmax=5, sides={"l": "tide", "r": "flow"} if k % 4 == 0 else None, levee={"H": lambda: 0.5} if prob == "rkdg" and k % 7 == 3 else None)
        M = rng.choice([1e-8, 0.0, 0.05 * c.h0 / c.mesh.lmin() ** 2, 0.2 * c.h0 / c.mesh.lmin() ** 2]); nu = rng.choice([1.0, 1.5, 2.0])
        c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": float(M), "nu": float(nu)}
        c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        if rng.random() < 0.5: c.problem["wetting_drying"] = {"h_o": 0.001 * c.h0}
        kinds = ["linear", "random", "smooth", "step"] + (["dry"] if "wetting_drying" in c.problem else ["random"])
        def states(P0, i):
            kd = kinds[i]; h = c.h0; lo, sz = c.lo, c.size; r = np.random.RandomState(rng.randrange(2 ** 31)); m0 = h * math.sqrt(S.G * h); sc = np.array([0.3 * h, 0.5 * m0, 0.5 * m0])
            def fun(f): return {e: (1, P0.coef_of_linear(np.array([[f(v, *x[:2]) for x in P0.elt[e]["X"]] for v in range(3)]))) for e in P0.elt}
            if kd == "linear":
                g = r.uniform(-1, 1, (3, 3)) * 0.4; return fun(lambda v, x, y: sc[v] * (g[v, 0] + g[v, 1] * (x - lo[0]) / sz + g[v, 2] * (y - lo[1]) / sz))
            if kd == "smooth":
                kk = r.uniform(-1, 1, (3, 2)) * 6 / sz; ph = r.uniform(0, 6, 3); return fun(lambda v, x, y: sc[v] * 0.5 * math.sin(kk[v, 0] * (x - lo[0]) + kk[v, 1] * (y - lo[1]) + ph[v]))
            if kd == "step":
                th = r.uniform(0, 6); return fun(lambda v, x, y: sc[v] * 0.6 * (1 if (x - lo[0] - sz / 3) * math.cos(th) + (y - lo[1] - sz / 3) * math.sin(th) > 0 else -1))
            st = S.rand_states(rng, P0, h, ze=0.3, mach=0.5, high=0.1 if p > 1 else 0)
            if kd == "dry":
                for e in st:
                    if rng.random() < 0.25: st[e] = (0, np.array([st[e][1][0], 0 * st[e][1][1], 0 * st[e][1][2]]))
            return st
        c.write(); r0, P0 = probe.run(ctx, exe[prob], d, ["GEO"], env=c.env, name="geo")
        if P0 is None or not P0.end: ctx.bad("probe-fails", r0.err[-300:], it); return
        scr = ["GEO"]
        for i in range(len(kinds)): scr += probe.sets(states(P0, i)) + ["SL"]
        r1, P = probe.run(ctx, exe[prob], d, scr, env=c.env)
        if P is None or not P.end: ctx.bad("probe-fails", "limiting failed: rc=%s sig=%s %s" % (r1.rc, r1.sig, r1.err[-300:]), it); return
        O = S.Oracle(P, c); L = Lim(O, P, c, M, nu); worst = 0
        inner = {e for e in P.elt if all((e, k2) in L.nb for k2 in range(3))}; levee = {x for t in P.ints if t[0] == "Levee" for x in (t[1], t[3])}
        for kd, op in zip(kinds, P.ops):
            L.prepare(op); tr = trouble(O, P, L, op, p)
            for e in P.elt:
                w0, q0 = op["B"][e]; w1, q1 = op["N"][e]; v0, v1 = L.lin[e], P.coef_lin(q1); sc = np.abs(v0).max(axis=1) + 1e-12 * c.h0
                m0, m1 = P.mean(q0), P.mean(q1); ctx.obs("elements limited" if not np.array_equal(q0, q1) else "elements unchanged")
                ctx.check(np.all(np.abs(m1 - m0) <= 1e-11 * sc), "mean", "limiting changed the mean of element %d: %s -> %s" % (e, m0, m1), it)
                ctx.check(w0 == w1, "flag", "limiting changed the wet/dry flag", it)
                if not L.active(e):
                    ctx.obs("dry or next to dry"); ctx.check(np.array_equal(q0, q1), "near-dry", "element %d is dry or next to a dry one, but was changed" % e, it); continue
                if kd == "linear" and e in inner and e not in levee:
                    ctx.obs("linear data"); ctx.check(np.all(np.abs(q1 - q0) <= 1e-10 * sc[:, None]), "linear", "globally linear data changed in element %d by %.3g" % (e, np.max(np.abs(q1 - q0) / sc[:, None])), it)
                ref, dl, sure = L.result(e)
                if ref is None or not sure: ctx.obs("too close to a switch"); continue
                dm = np.stack([(v1[:, (j + 1) % 3] + v1[:, (j + 2) % 3]) / 2 for j in range(3)], axis=1) - m1[:, None]; tolb = 1e-9 * (np.abs(dl).max(axis=1) + sc)[:, None]
                changed = np.array([not np.array_equal(q0[v], q1[v]) for v in range(3)])
                for v in range(3):
                    if not changed[v] and np.max(np.abs(ref[v] - v0[v])) <= 1e-9 * sc[v]: continue
                    ctx.check(np.all(np.abs(dm[v]) <= np.abs(dl[v]) + tolb[v]) and np.all(dm[v] * dl[v] >= -tolb[v] * np.abs(dl[v]).max()), "bound", "midpoint values of element %d exceed the limiter's bound: deviations %s, allowed %s (variable %d)" % (e, dm[v], dl[v], v), it); ctx.obs("bounds compared")
                dev = np.max(np.abs(v1 - ref) / sc[:, None]); worst = max(worst, dev)
                ctx.check(dev < 1e-8, "reference", "limited values of element %d differ from the Cockburn-Shu limiter by %.3g (%s)" % (e, dev, kd), it)
            for e, (I, per, hn) in tr.items():
                if not L.wet[e]: continue
                gI, gp, _ = op["T"][e]; ctx.obs("inflow indicators")
                ctx.check(abs(gp - per) <= 1e-9 * (per + gp), "inflow", "the trouble indicator of element %d counts inflow edges of length %.6g, the momentum enters over %.6g" % (e, gp, per), it)
        ctx.mx("deviation from reference", worst)
        ctx.case(it, sample=dict(c.desc(), M=M, nu=nu, kinds=kinds, worst=worst))
    ctx.par(lambda it: follow.one(ctx, it, F, it[1], lambda rng, d: c03.scen(rng, d, it[1], it[2], k=it[3])) if it[0] == "dist" else one(it), di + items)
    return {"rule": "one case = random mesh, bathymetry, M and nu; states: globally linear, random, smooth, step, random with dry elements; every element judged; limited runs over several submeshes follow the serial ones",
            "assumptions": ["neighbours are paired in counter-clockwise order and an element outside a boundary has the element's own mean at the mirrored barycentre", "elements within 1e-9 of the M switch are not compared with the reference"]}
