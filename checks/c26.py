"""C26: the dispersive correction of the Green-Naghdi solver against independent solutions of the model's equations, on prescribed states and in real runs."""
import math, os
import numpy as np
import build, cases as C, core, follow, gen, probe, stage as S
from checks import c03
G = 9.81; AL = 1.159; TAU = -20.0
# ------------------------------------------------------------------ oracle: weak derivatives and the discrete elliptic problem
class GN:
    def __init__(self, P, c, q, wet):
        self.P, self.c, self.q, self.wet = P, c, q, wet; self.O = S.Oracle(P, c); O = self.O
        self.nb = {}
        for t, a, ba, e, be in P.ints: self.nb[a, ba] = (e, be); self.nb[e, be] = (a, ba)
        self.kind = {(e, b): k for k, e, b in P.bnds}
        self.M = {e: np.linalg.inv((P.ge[e]["phi"] * P.ge[e]["w"]) @ P.ge[e]["phi"].T) for e in P.elt}
        self.bg = {e: O.bath(e, P.ge[e]["x"], P.ge[e]["y"]) for e in P.elt}; self.bs = {k: O.bath(k[0], P.gs[k]["x"], P.gs[k]["y"]) for k in P.gs}
        self.h = {e: q[e][0] @ P.ge[e]["phi"] + self.bg[e] for e in P.elt}; self.hs = {k: q[k[0]][0] @ P.gs[k]["phi"] + self.bs[k] for k in P.gs}
        gp = lambda d: {e: v @ P.ge[e]["phi"] for e, v in d.items()}
        sd = lambda d: {k: d[k[0]] @ P.gs[k]["phi"] for k in P.gs}
        qs = sd(q)
        self.dze = self.grad({e: (q[e] @ P.ge[e]["phi"])[:1] for e in q}, {k: v[:1] for k, v in qs.items()})
        self.u = {e: (q[e] @ P.ge[e]["phi"])[1:] / self.h[e] for e in q}
        self.du = self.grad(self.u, {k: v[1:] / self.hs[k] for k, v in qs.items()})
        self.ddu = self.grad(gp(self.du), sd(self.du))
        self.db = self.grad({e: v[None] for e, v in self.bg.items()}, {k: v[None] for k, v in self.bs.items()})
        self.ddb = self.grad(gp(self.db), sd(self.db)); self.dddb = self.grad(gp(self.ddb), sd(self.ddb))
        self.gp = gp; self.dbs = self.hat(sd(self.db))
    def hat(self, s):
        """single-valued trace: the average of both sides, own value at a boundary"""
        out = {}
        for k, v in s.items():
            o = self.nb.get(k); out[k] = v if o is None else 0.5 * (v + s[o][:, ::-1])
        return out
    def grad(self, v, s):
        """coefficients (rows: component-major, x then y) of the gradient in the weak sense"""
        P = self.P; H = self.hat(s); out = {}
        for e in P.elt:
            g = P.ge[e]; R = np.stack([-(v[e] * g["w"]) @ g["dx"].T, -(v[e] * g["w"]) @ g["dy"].T], axis=1)
            for b in range(3):
                z = P.gs[e, b]
                for d in (0, 1): R[:, d] += (H[e, b] * z["w"] * z["n"][d]) @ z["phi"].T
            out[e] = (R @ self.M[e]).reshape(2 * len(v[e]), -1)
        return out
    def source(self, e, sgn=1.0):
        """right hand side of the elliptic problem at the element points: (g/a) h grad(zeta) + h Q1"""
        f = self.P.ge[e]["phi"]; h = self.h[e]; u, v = self.u[e]; zx, zy = self.dze[e] @ f; ux, uy, vx, vy = self.du[e] @ f; uxx, uxy, uyx, uyy, vxx, vxy, vyx, vyy = self.ddu[e] @ f
        bx, by = -(self.db[e] @ f); bxx, bxy, byx, byy = -(self.ddb[e] @ f); bxxx, bxxy, bxyx, bxyy, byxx, byxy, byyx, byyy = -(self.dddb[e] @ f)
        hx, hy = zx - bx, zy - by                        # h = zeta - b + const
        c1 = vx * uy + ux * ux + ux * vy + vy * vy
        c1x = uy * vxx + vx * uyx + 2 * ux * uxx + vy * uxx + ux * vyx + 2 * vy * vyx; c1y = uy * vxy + vx * uyy + 2 * ux * uxy + vy * uxy + ux * vyy + 2 * vy * vyy
        c4 = u * u * bxx + u * v * (bxy + byx) + v * v * byy
        c4x = 2 * u * ux * bxx + u * u * bxxx + (ux * v + u * vx) * (bxy + byx) + u * v * (bxyx + byxx) + 2 * v * vx * byy + v * v * byyx
        c4y = 2 * u * uy * bxx + u * u * bxxy + (uy * v + u * vy) * (bxy + byx) + u * v * (bxyy + byxy) + 2 * v * vy * byy + v * v * byyy
        t = lambda hX, c1X, c4X, bX, zX: [2 * h * h * c1 * hX, 2 / 3. * h ** 3 * c1X, h * c4 * hX, 0.5 * h * h * c4X, h * h * c1 * bX, h * c4 * bX, G / AL * zX * h]
        X, Y = t(hx, c1x, c4x, bx, zx), t(hy, c1y, c4y, by, zy)
        return np.array([sum(X), sum(Y)]), sum(np.abs(a) for a in X) + sum(np.abs(a) for a in Y)
    def solve(self):
        """monolithic solution (w1, w2 in every wet element, w1 trace on every edge touching one)"""
        P, O = self.P, self.O; nd = P.ndof; W = [e for e in P.elt if self.wet[e]]; off = {e: 3 * nd * i for i, e in enumerate(W)}; n = 3 * nd * len(W); tr = {}
        for (e, b) in P.gs:
            o = self.nb.get((e, b)); own = (e, b) if (e, b) in P.gh else o
            if own in tr or not (self.wet[e] or (o and self.wet[o[0]])): continue
            tr[own] = n; n += 2 * P.gh[own].shape[0]
        A = np.zeros((n, n)); r = np.zeros(n); size = {}
        for e in W:
            g = P.ge[e]; f, w, D = g["phi"], g["w"], (g["dx"], g["dy"]); h = self.h[e]; bb = -(self.db[e] @ f); i1 = [slice(off[e] + k * nd, off[e] + (k + 1) * nd) for k in (0, 1)]; i2 = slice(off[e] + 2 * nd, off[e] + 3 * nd)
            m = lambda T, k, U: (T * (w * k)) @ U.T
            for i in (0, 1):
                A[i1[i], i1[i]] += m(f, 1, f)
                for j in (0, 1): A[i1[i], i1[j]] += AL * m(f, bb[i] * bb[j], f) - AL / 2 * m(D[i], h * bb[j], f)
                A[i1[i], i2] += -AL / 3 * m(f, 1, D[i]) - AL / 2 * m(f, bb[i] / h, f)
                A[i2, i1[i]] += m(D[i], 1 / h, f)
            A[i2, i2] += m(f, h ** -3, f)
            src, sz = self.source(e)
            for i in (0, 1): r[i1[i]] += (src[i] * w) @ f.T
            size[e] = np.max(sz)
            for b in range(3):
                z = P.gs[e, b]; o = self.nb.get((e, b)); own = (e, b) if (e, b) in P.gh else o; L = P.gh[own] if own == (e, b) else P.gh[own][:, ::-1]; nl = L.shape[0]; jh = [slice(tr[own] + k * nl, tr[own] + (k + 1) * nl) for k in (0, 1)]
                hh = self.hs[e, b] if o is None else 0.5 * (self.hs[e, b] + self.hs[o][::-1]); bb = -self.dbs[e, b]; nn = z["n"]; F = z["phi"]; ms = lambda T, k, U: (T * (z["w"] * k)) @ U.T
                for i in (0, 1):
                    A[i1[i], i1[i]] += -AL / 3 * TAU * ms(F, 1, F); A[i1[i], jh[i]] += AL / 3 * TAU * ms(F, 1, L)
                    for j in (0, 1): A[i1[i], jh[j]] += AL / 2 * ms(F, hh * bb[j] * nn[i], L)
                    A[i2, jh[i]] += -ms(F, nn[i] / hh, L)
                wall = (o is not None and not self.wet[o[0]]) or (o is None and self.kind[e, b] == "Land")
                for i in (0, 1):
                    if wall:         # no correction through a wall or into a dry neighbour, free along it
                        A[jh[i], jh[i]] -= ms(L, 1, L); A[jh[i], i1[i]] += ms(L, 1, F)
                        for j in (0, 1): A[jh[i], i1[j]] -= ms(L, nn[i] * nn[j], F)
                    else:
                        A[jh[i], jh[i]] -= TAU * ms(L, 1, L); A[jh[i], i1[i]] += TAU * ms(L, 1, F); A[jh[i], i2] += ms(L, nn[i], F)
        x = np.linalg.solve(A, r)
        return {e: np.array([x[off[e] + k * nd: off[e] + (k + 1) * nd] for k in (0, 1)]) for e in W}, size
# ------------------------------------------------------------------ prescribed states
def corrections(ctx, exe):
    def one(it):
        rng = ctx.rng("dc", it); d = ctx.dir("dc%d" % it); kind = ["closed", "open", "flat", "dry", "closed", "troubled"][it % 6]; p = [1, 2, 3, 2, 1, 3, 0][it % 7]
        sides = dict(zip(rng.sample("brtl", 3), ["tide", "flow", "func"])) if kind == "open" else None
        c = S.make(rng, d, "gn", p=p, sides=sides, nmax=3, bath="flat" if kind == "flat" else rng.choice(["random", "slope", "wavy"]), amp_b=0.3, problem={"wetting_drying": {"h_o": 0.01}} if kind == "dry" else None); c.write(); os.makedirs(os.path.join(d, "out"), exist_ok=True)
        buf = sorted(rng.sample(sorted(c.mesh.elts), max(1, len(c.mesh.elts) // 5))) if kind == "troubled" else []
        with open(os.path.join(d, "buffer_elements"), "w") as f: f.write("".join("%d\n" % b for b in buf))
        r, P0 = probe.run(ctx, exe, d, ["GEO"], env=c.env)
        if not ctx.check(P0 is not None and P0.end, "probe-start", "rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it): return
        ctx.case(dict(c.desc(), kind=kind)); scr = ["GEO"]; states = []
        for k in range(3):
            mach = rng.choice([0.0, 0.4, 1.0]); st = S.rand_states(rng, P0, c.h0, hlo=0.5, hhi=1.5, mach=mach, high=0.1, dry=0.25 if kind == "dry" else 0.0); states.append(st); scr += probe.sets(st)
            tr = set(rng.sample(sorted(st), max(1, len(st) // 4))) if kind == "troubled" else set()
            scr += ["TROUBLED %d %d" % (e, e in tr) for e in st] + ["DC"] + ["DC"] * (c.kw["nstages"] - 1); states[-1] = (st, tr)
        r, P = probe.run(ctx, exe, d, scr, env=c.env)
        if not ctx.check(P is not None and P.end, "probe-run", "%s p=%d: rc=%s sig=%s %s" % (kind, p, r.rc, r.sig, r.err[-300:]), it): return
        ns = c.kw["nstages"]
        for k, op in enumerate(P.ops):
            tr = states[k // ns][1]; q = {e: v for e, (w, v) in op["B"].items()}; wet = {e: w for e, (w, v) in op["B"].items()}
            if not any(wet.values()): continue
            m = GN(P, c, q, wet); D = lambda n, e: op["D"][n, e]; h0 = c.h0; L = min(m.O.length(e, b) for e in P.elt for b in range(3)); num = "%s p=%d correction %d" % (kind, p, k)
            if min(float(np.min(v)) for v in list(m.h.values()) + list(m.hs.values())) < 0.02 * h0: continue        # quotients by a vanishing depth are no measure of anything
            ctx.obs("corrections"); ctx.obs("corrections of kind " + kind)
            V = max([float(np.max(np.abs(v))) for v in m.u.values()] + [float(np.max(np.abs(q[e0[0]][1:] @ P.gs[e0]["phi"] / m.hs[e0]))) for e0 in P.gs]) + 1e-3 * math.sqrt(G * h0)
            def cmp(name, got, ref, size, what):
                dev = max(float(np.max(np.abs(got(e) - ref(e)))) for e in P.elt if what == "all" or wet[e]) / size
                ctx.mx("deviation of " + name, dev); ctx.check(dev < 1e-9, name, "%s: off by %.3g of its size" % (num, dev), it)
            R = lambda n, rows: (lambda e: D(n, e).reshape(rows, -1)); cg = 40.0 / L            # gradients of discontinuous data scale with the inverse element size
            cmp("surface-gradient", R("dze", 2), lambda e: m.dze[e], h0 * cg, "all"); cmp("velocity-gradient", R("du", 4), lambda e: m.du[e], V * cg, "all"); cmp("velocity-curvature", R("ddu", 8), lambda e: m.ddu[e], V * cg ** 2, "all")
            f = lambda v: (lambda e: v[e] @ P.ge[e]["phi"])
            cmp("bed-gradient", R("dbath", 2), f(m.db), h0 * cg, "all"); cmp("bed-curvature", R("ddbath", 4), f(m.ddb), h0 * cg ** 2, "all"); cmp("bed-third", R("dddbath", 8), f(m.dddb), h0 * cg ** 3, "all")
            w1, size = m.solve(); src = {e: m.source(e) for e in w1}
            dev = max(float(np.max(np.abs(R("src", 2)(e) - src[e][0]))) / (float(np.max(src[e][1])) + 1e-9 * G * h0 * h0 / L) for e in w1); ctx.mx("deviation of source", dev); ctx.check(dev < 1e-9, "dispersive-source", "%s: the right-hand side of the correction is off by %.3g of the size of its terms" % (num, dev), it)
            big = max(float(np.max(np.abs(w1[e] @ P.ge[e]["phi"]))) for e in w1) + max(float(np.max(s[1])) for s in src.values()) + 1e-9 * G * h0 * h0 / L
            dev = max(float(np.max(np.abs((R("w1", 2)(e) - w1[e]) @ P.ge[e]["phi"]))) for e in w1) / big; ctx.mx("deviation of w1", dev); ctx.check(dev < 1e-7, "dispersive-momentum", "%s: the solution of the elliptic problem is off by %.3g of its size" % (num, dev), it)
            ks = []
            for e in P.elt:
                sol = R("sol", 3)(e); g = P.ge[e]; on = wet[e] and e not in tr and e not in buf
                ctx.obs("elements corrected" if on else "elements left alone")
                ctx.check(not np.any(sol[0]), "surface-tendency", "%s: the correction changes the surface of element %d by %.3g" % (num, e, float(np.max(np.abs(sol[0])))), it)
                if not on:
                    ctx.check(not np.any(sol), "left-alone", "%s: element %d is %s but gets a correction of %.3g" % (num, e, "dry" if not wet[e] else "troubled" if e in tr else "in the buffer", float(np.max(np.abs(sol)))), it); continue
                ref = ((G / AL * (m.dze[e] @ g["phi"]) * m.h[e] - w1[e] @ g["phi"]) * g["w"]) @ g["phi"].T @ m.M[e]
                dev = float(np.max(np.abs((sol[1:] - ref) @ g["phi"]))) / big; ctx.mx("deviation of tendency", dev); ctx.check(dev < 1e-7, "correction-tendency", "%s: the momentum tendency in element %d is off by %.3g of its size" % (num, e, dev), it)
            if op["stage"] == 0:
                num_, den = 0.0, 0.0
                for e in P.elt: a = op["N"][e][1] - op["B"][e][1]; s = R("sol", 3)(e); num_ += float(np.sum(a * s)); den += float(np.sum(s * s))
                kk = num_ / den if den else 0.0
                dev = max(float(np.max(np.abs((op["N"][e][1] - op["B"][e][1]) - kk * R("sol", 3)(e)))) for e in P.elt); ctx.check(dev <= 1e-10 * (big * c.dt + max(float(np.max(np.abs(v))) for v in q.values())), "update", "%s: the first stage does not add the same multiple of the tendency everywhere (%.3g)" % (num, dev), it)
                if den: ctx.check(0.05 * c.dt < kk < 1.0001 * c.dt, "update-size", "%s: the first stage adds %.6g times the tendency with time step %.6g" % (num, kk, c.dt), it)
    ctx.par(one, range(ctx.n(18, 260)))
# ------------------------------------------------------------------ convergence to the equations themselves
def cheb(n):
    x = np.cos(np.pi * np.arange(n + 1) / n); c = np.ones(n + 1); c[0] = c[-1] = 2; c *= (-1.0) ** np.arange(n + 1); X = np.tile(x, (n + 1, 1)).T; dX = X - X.T
    D = np.outer(c, 1 / c) / (dX + np.eye(n + 1)); D -= np.diag(D.sum(1)); return x, D
def reference(L, bath, zeta, u, n=56):
    """collocation solution of the one-dimensional model over a plane bed: returns a function of position"""
    x, D = cheb(n); s = L * (x + 1) / 2; D = D * 2 / L; b = -bath(s); z = zeta(s); h = z - b; v = u(s); bx = D @ b; ux = D @ v; d = lambda k: np.diag(k)
    T = -(D @ d(h ** 3) @ D @ d(1 / h)) / 3 - d(h * h * bx) @ D @ d(1 / h) / 2 + D @ d(h * bx) / 2 + d(bx * bx)
    A = np.eye(n + 1) + AL * T; r = G / AL * h * (D @ z) + 2 / 3. * (D @ (h ** 3 * ux * ux)) + h * h * ux * ux * bx
    for k in (0, n): A[k] = 0; A[k, k] = 1; r[k] = 0
    w = np.linalg.solve(A, r); bw = (-1.0) ** np.arange(n + 1); bw[0] /= 2; bw[-1] /= 2
    def ev(t):
        t = np.asarray(t); out = np.empty_like(t)
        for i, ti in np.ndenumerate(t):
            dd = ti - s; j = np.argmin(np.abs(dd)); out[i] = w[j] if abs(dd[j]) < 1e-13 * L else (bw / dd @ w) / np.sum(bw / dd)
        return out
    return ev, float(np.max(np.abs(w)))
def consistency(ctx, exe):
    def one(it):
        rng = ctx.rng("cons", it); err = []; p = [2, 3][it % 2]; h0 = rng.uniform(0.8, 3.0); kh = rng.uniform(1.0, 2.5); L = 2 * math.pi * h0 / kh; th = rng.choice([0.0, rng.uniform(0, 2 * math.pi)]); sl = [0.0, 0.5, 0.8][it % 3] * rng.choice([-1, 1])
        ph = rng.uniform(0, 6); bath = lambda s: h0 * (1 + sl * (s / L - 0.5)); zeta = lambda s: 0.08 * h0 * np.cos(2.2 * np.pi * s / L + ph); uu = lambda s: 0.5 * math.sqrt(G * h0) * np.sin(np.pi * s / L) * np.cos(2.0 * s / L + ph)
        ref, big = reference(L, bath, zeta, uu); off = (rng.uniform(-5, 5) * L, rng.uniform(-5, 5) * L); ct, st_ = math.cos(th), math.sin(th)
        for nx in (8, 16):
            d = ctx.dir("cons%d_%d" % (it, nx)); jr = ctx.rng("consmesh", it)
            mesh = C.grid_mesh(jr, nx, 2, box=(0., L, 0., 2 * L / nx), jitter=0.0)
            for n, (x, y, z) in list(mesh.nodes.items()): mesh.nodes[n] = (ct * x - st_ * y + off[0], st_ * x + ct * y + off[1], float(bath(x)))
            for name in ("mesh.14",): mesh.write(os.path.join(d, name))
            os.makedirs(os.path.join(d, "out"), exist_ok=True); open(os.path.join(d, "buffer_elements"), "w").close()
            C.write_input(os.path.join(d, "in.15"), "mesh.14", prob="ehdg_gn", p=p, dt=0.01, T=1, problem={}, out="out/", modal=0.01)
            r, P0 = probe.run(ctx, exe, d, ["GEO"])
            if not ctx.check(P0 is not None and P0.end, "consistency-start", "rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it): return
            pos = lambda x, y: ct * (x - off[0]) + st_ * (y - off[1]); st = {}
            for e in P0.elt:
                X = P0.xy(e); s = pos(X[0], X[1]); z = zeta(s); q = (z + bath(s)) * uu(s); st[e] = (1, P0.project(np.array([z, q * ct, q * st_])))
            r, P = probe.run(ctx, exe, d, ["GEO"] + probe.sets(st) + ["DC"])
            if not ctx.check(P is not None and P.end, "consistency-run", "rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it): return
            a = n2 = 0.0
            for e in P.elt:
                g = P.ge[e]; w = P.ops[0]["D"]["w1", e].reshape(2, -1) @ g["phi"]; rf = ref(pos(g["x"], g["y"])); a += float(np.sum(g["w"] * ((w[0] - rf * ct) ** 2 + (w[1] - rf * st_) ** 2))); n2 += float(np.sum(g["w"] * rf ** 2))
            err.append(math.sqrt(a / n2))
        ctx.case({"consistency": it, "p": p, "slope": sl, "errors": err}); ctx.mx("relative error of the correction on 16 elements, p=%d" % p, err[1]); ctx.mx("error on 16 over error on 8 elements, p=%d" % p, err[1] / err[0])
        lim = {2: 0.02, 3: 0.004}[p]
        ctx.check(err[1] < lim and err[1] < 0.45 * err[0], "consistency", "p=%d slope %.2g kh=%.2f: the correction differs from the solution of the model's equation by %.3g on 8 and %.3g on 16 elements" % (p, sl, kh, err[0], err[1]), it)
    ctx.par(one, range(ctx.n(6, 40)))
# ------------------------------------------------------------------ neutral states
def neutral(ctx, exe):
    def one(it):
        rng = ctx.rng("neutral", it); d = ctx.dir("n%d" % it); kind = ["still", "uniform"][it % 2]; p = [1, 2, 3][it % 3]
        c = S.make(rng, d, "gn", p=p, nmax=4, bath=rng.choice(["random", "slope", "wavy"]) if kind == "still" else "flat", amp_b=0.4); c.write(); open(os.path.join(d, "buffer_elements"), "w").close(); h0 = c.h0
        r, P0 = probe.run(ctx, exe, d, ["GEO"], env=c.env)
        if not ctx.check(P0 is not None and P0.end, "neutral-start", "rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it): return
        z, th = rng.uniform(-0.3, 0.3) * h0, rng.uniform(0, 6.28); U = math.sqrt(G * h0) * rng.uniform(0.2, 1.5) if kind == "uniform" else 0.0
        st = {e: (1, P0.coef_of_linear(np.array([[z] * 3, [(h0 + z) * U * math.cos(th)] * 3, [(h0 + z) * U * math.sin(th)] * 3]))) for e in P0.elt}
        r, P = probe.run(ctx, exe, d, ["GEO"] + probe.sets(st) + ["DC"] * c.kw["nstages"], env=c.env)
        if not ctx.check(P is not None and P.end, "neutral-run", "rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it): return
        ctx.case(dict(c.desc(), kind=kind)); L = min(S.Oracle(P, c).length(e, b) for e in P.elt for b in range(3))
        scale = (G * h0 * abs(z) + h0 * U * U + 1e-6 * G * h0 * h0) * (1 + (h0 / L) ** 2) / L * 40
        for op in P.ops:
            x = max(float(np.max(np.abs(op["D"]["sol", e]))) for e in P.elt) / scale; ctx.mx("correction of %s water relative to its terms" % kind, x); ctx.obs("corrections of %s water" % kind)
            ctx.check(x < 1e-10, "neutral-" + kind, "p=%d: %s water gets a correction of %.3g of the size of its terms" % (p, kind, x), it)
    ctx.par(one, range(ctx.n(12, 120)))
# ------------------------------------------------------------------ phase speed in real runs
def phase(ctx, rec):
    def one(it):
        rng = ctx.rng("phase", it); d = ctx.dir("ph%d" % it); p = [2, 1, 3, 2][it % 4]; h0 = rng.uniform(8.0, 40.0); kh = [0.5, 1.0, 1.6, 2.2][(it + it // 4) % 4] * rng.uniform(0.9, 1.1); k = kh / h0; L = math.pi / k; nx = {1: 16, 2: 8, 3: 5}[p]
        om0 = math.sqrt(G * h0) * k; om = om0 * math.sqrt((1 + (AL - 1) / 3 * kh ** 2) / (1 + AL / 3 * kh ** 2)); per = 2 * math.pi / om; T = math.ceil(0.6 * per); ns = int(math.ceil(T * (2 * p + 1) * math.sqrt(G * h0) / (0.25 * L / nx))); ns = min(max(ns, 12 * T), 600); th = rng.uniform(0, 6.28)
        mesh = C.grid_mesh(ctx.rng("phm", it), nx, 1, box=(0., L, 0., L / nx), jitter=0.0); ct, st_ = math.cos(th), math.sin(th)
        for n, (x, y, z) in list(mesh.nodes.items()): mesh.nodes[n] = (ct * x - st_ * y, st_ * x + ct * y, h0)
        mesh.write(os.path.join(d, "mesh.14")); os.makedirs(os.path.join(d, "out"), exist_ok=True); open(os.path.join(d, "buffer_elements"), "w").close()
        C.write_fn(os.path.join(d, "fn.txt"), [(0, 1, 1e-4 * h0, k * ct, k * st_, 0.0, math.pi / 2)]); dt = T / ns
        C.write_input(os.path.join(d, "in.15"), "mesh.14", prob="ehdg_gn", p=p, dt=dt, T=T, problem={"initial_conditions": {"type": "Function"}}, out="out/", modal=dt * (1 - 1e-9), order=2, nstages=2) if p < 3 else C.write_input(os.path.join(d, "in.15"), "mesh.14", prob="ehdg_gn", p=p, dt=dt, T=T, problem={"initial_conditions": {"type": "Function"}}, out="out/", modal=dt * (1 - 1e-9), order=3, nstages=3)
        r, R = core.sim(ctx, rec, d, ["in.15"], env={"VERIF_FN": os.path.join(d, "fn.txt")}, timeout=400)
        if not ctx.check(R is not None and R.end and len(R.q) == ns + 1, "phase-run", "p=%d kh=%.2f: rc=%s sig=%s after %d of %d steps %s" % (p, kh, r.rc, r.sig, len(R.q) if R else -1, ns, r.err[-300:]), it): return
        W = core.duffy(); pts = core.duffy_points(); lam = np.stack([-(pts[:, 0] + pts[:, 1]) / 2, (1 + pts[:, 0]) / 2, (1 + pts[:, 1]) / 2]); num = np.zeros(len(R.q)); den = 0.0; vol = np.zeros(len(R.q))
        for i, e in enumerate(R.ids):
            X = R.elt[e]["X"]; xy = lam.T @ X[:, :2]; s = ct * xy[:, 0] + st_ * xy[:, 1]; B = np.cos(k * s); ar = abs((X[1, 0] - X[0, 0]) * (X[2, 1] - X[0, 1]) - (X[2, 0] - X[0, 0]) * (X[1, 1] - X[0, 1])) / 4
            F = R.phi[:, core.NREF:]; den += ar * float(W @ (B * B))
            z = np.array([q[i, 0] for q in R.q]) @ F; num += ar * (z @ (W * B)); vol += ar * (z @ W)
        a = num / den / (1e-4 * h0); t = np.arange(len(a)) * dt
        def misfit(w, g=0.0): return a - np.exp(-g * t) * np.cos(w * t)
        w, g = om, 0.0
        for _ in range(40):                                     # damped least squares for frequency and damping
            r0 = misfit(w, g); J = np.stack([np.exp(-g * t) * np.sin(w * t) * t, t * np.exp(-g * t) * np.cos(w * t)], axis=1); dx = np.linalg.lstsq(J, -r0, rcond=None)[0]; w += dx[0]; g += dx[1]
            if np.max(np.abs(dx)) < 1e-12 * om: break
        fit = float(np.max(np.abs(misfit(w, g)))); ctx.case({"phase": it, "p": p, "kh": kh, "omega": w, "model": om, "shallow": om0, "damping": g / om, "misfit": fit, "steps": ns, "first": float(a[0])})
        ctx.obs("steps of standing waves", ns); ctx.mx("relative error of the frequency, p=%d" % p, abs(w / om - 1)); ctx.mx("part of the surface that is no standing wave", fit)
        ctx.check(abs(w / om - 1) < 1e-3 and fit < 1e-3, "phase-speed", "p=%d kh=%.2f: a small standing wave has frequency %.8g (misfit %.2g); the model's dispersion relation gives %.8g, shallow water %.8g" % (p, kh, w, fit, om, om0), it)
        dr = float(np.max(np.abs(vol - vol[0]))) / (h0 * L * L / nx); ctx.check(dr < 1e-12, "volume", "p=%d: the volume changes by %.3g of itself" % (p, dr), it)
        ctx.mx("volume drift", dr)
    ctx.par(one, range(ctx.n(8, 40)))
def run(ctx):
    F = follow.Pair(["gn"]); exe = build.probe("gn"); exe.submit(); rec = build.rec_serial("gn"); rec.submit()
    corrections(ctx, exe.path()); consistency(ctx, exe.path()); neutral(ctx, exe.path()); phase(ctx, rec.path())
    F.ready(); ctx.par(lambda it: follow.one(ctx, it, F, "gn", lambda rng, d: c03.scen(rng, d, "gn", it[1], k=it[2])), [("dist", kd, k) for kd in ("closed", "func", "wetdry", "open") for k in range(ctx.n(3, 30))])
    return {"rule": "random discontinuous states (dry, troubled and buffer elements, tide/flow/function boundaries, uneven beds, orders 0-3) through every stage of the real dispersive correction: weak derivatives, source, elliptic solution and tendency against an independent monolithic solution; smooth flow over plane beds against a collocation solution of the equations under refinement; still and uniform water; frequency of small standing waves (kh 0.45-2.4) in real runs against the model's dispersion relation; corrections between submeshes through distributed runs that have to follow the serial run",
            "assumptions": ["elements beside quotients by a depth below 2% of the reference depth are not compared", "the model is that of Bonneton et al. with alpha 1.159, and the stabilization parameter 20, as written in the code"]}
