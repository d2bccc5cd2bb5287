"""C11: flux, eigen-split and stabilization matrices of the real code against independent complex arithmetic, and the assembled Newton blocks of real implicit problems against differences of their residuals."""
import math
import numpy as np
import build, core, gen, probe, stage as S
from checks import c06
def flux_mat(g, q, b, n):
    """n.dF/dq for arrays of (possibly complex) states (3,k) -> (k,3,3)"""
    h = q[0] + b; u, v = q[1] / h, q[2] / h; nx, ny = n; z = 0 * h; A = np.array([[z, z + nx, z + ny], [(g * h - u * u) * nx - u * v * ny, 2 * u * nx + v * ny, u * ny], [-u * v * nx + (g * h - v * v) * ny, v * nx, u * nx + 2 * v * ny]])
    return np.moveaxis(A, 2, 0)
def split(g, q, b, n):
    """A, |A|, A+, A-, tau I; analytic in q away from vanishing speeds"""
    A = flux_mat(g, q, b, n); h = q[0] + b; c = np.sqrt(g * h); un = (q[1] * n[0] + q[2] * n[1]) / h; lam = [un - c, un, un + c]; I = np.eye(3)[None]; out = 0
    for i in range(3):
        P = I
        for j in range(3):
            if j != i: P = P @ (A - lam[j][:, None, None] * I) / (lam[i] - lam[j])[:, None, None]
        out = out + (lam[i] * np.sign(lam[i].real))[:, None, None] * P
    return {"A": A, "absA": out, "Aplus": 0.5 * (A + out), "Aminus": 0.5 * (A - out), "tau": (c + un * np.sign(un.real))[:, None, None] * I}
def fluxes(g, q, b, n):
    h = q[0] + b; pe = g * (q[0] ** 2 / 2 + q[0] * b); fx = np.array([q[1], q[1] ** 2 / h + pe, q[1] * q[2] / h]); fy = np.array([q[2], q[1] * q[2] / h, q[2] ** 2 / h + pe]); return {"Fx": fx, "Fy": fy, "Fn": fx * n[0] + fy * n[1]}
def functions(ctx, exe):
    def one(it):
        rng = ctx.rng("fn", it); g = rng.choice([9.81, 9.81, 9.80665, 1.62, 1.0, 32.2]); rows = []; k = 0
        while len(rows) < 60:
            h = 10 ** rng.uniform(-3, 4); b = rng.choice([h * rng.uniform(0.2, 1.5), h * rng.uniform(-5, 5), 0.0, h]); ze = h - b; c = math.sqrt(g * h)
            fr = rng.choice([rng.uniform(0, 0.2), rng.uniform(0.2, 0.95), rng.uniform(1.05, 4), 0.0]); th = rng.uniform(0, 2 * math.pi); a = rng.choice([rng.uniform(0, 2 * math.pi), math.pi / 2 * rng.randrange(4)]); n = (math.cos(a), math.sin(a))
            if abs(n[0]) < 1e-12: n = (0.0, n[1])
            if abs(n[1]) < 1e-12: n = (n[0], 0.0)
            u, v = fr * c * math.cos(th), fr * c * math.sin(th); un = u * n[0] + v * n[1]
            if min(abs(abs(un) - c), abs(un) if fr else 1e9) < 0.01 * c: continue        # derivatives do not exist where a speed changes sign
            rows.append((ze, h * u, h * v, b, n[0], n[1], fr == 0.0))
        R = np.array([r[:6] for r in rows]).T; still = np.array([r[6] for r in rows]); q, b, n = R[:3], R[3], R[4:6]
        r = c06.feed(ctx, exe, "%.17g %d\n" % (g, len(rows)) + "\n".join(" ".join("%.17g" % x for x in row[:6]) for row in rows) + "\n", "j%d" % it)
        if not ctx.check(r.rc == 0 and r.out.endswith("END\n"), "functions-run", "rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it): return
        O = {f[0]: np.array(f[1:], float).reshape(len(rows), -1) for f in (l.split(" ") for l in r.out.splitlines()) if len(f) > 1}
        h = q[0] + b; c = np.sqrt(g * h); w = np.hypot(q[1], q[2]) / h + c; zz = (np.abs(q[0]) + np.abs(b) + h) / h
        U = np.array([h, h * c, h * c])          # natural sizes of ze, qx, qy
        D = {v: {k: (x.imag / 1e-30) for k, x in list(split(g, q + 1e-30j * np.eye(3)[v][:, None], b, n).items()) + list(fluxes(g, q + 1e-30j * np.eye(3)[v][:, None], b, n).items())} for v in range(3)}
        V = dict(split(g, q + 0j, b, n)); V = {k: x.real for k, x in V.items()}; F = fluxes(g, q, b, n); worst = 0
        def cmp(name, got, ref, size, mask=None):
            nonlocal worst
            dev = np.abs(got - ref) / size; dev = np.where(np.isnan(dev), np.inf, dev)
            if mask is not None: dev = dev[mask]
            if not dev.size: return
            x = float(np.max(dev)); worst = max(worst, x); ctx.obs("values of " + name, dev.size)
            i = int(np.argmax(np.max(dev.reshape(len(dev), -1), axis=1))); ctx.check(x < 1e-10, "function-" + name, "%s is off by %.3g of its size at state %s (g=%s)" % (name, x, [float("%.5g" % z) for z in (R.T if mask is None else R.T[mask])[i]], g), it)
        m3 = lambda X: X.reshape(-1, 3, 3)
        mach = (w / c) ** 2
        usz = (U.T[:, :, None] / U.T[:, None, :]) * (w * mach)[:, None, None]              # size of a matrix entry d(flux i)/d(q j)
        fsz = (np.array([h * w, h * w * w, h * w * w]) * zz ** 2).T
        for nm in ("Fx", "Fy", "Fn"): cmp(nm, O[nm], F[nm].T, fsz)
        cmp("Fn(column)", O["Fc"], F["Fn"].T, fsz)
        for nm, f in (("dFx", "Fx"), ("dFy", "Fy"), ("dFn", "Fn")): cmp(nm, m3(O[nm]), np.stack([D[v][f].T for v in range(3)], axis=2), usz)
        cmp("A=dFn", m3(O["A"]), np.stack([D[v]["Fn"].T for v in range(3)], axis=2), usz * mach[:, None, None])
        mov = ~still
        for nm in ("A", "absA", "Aplus", "Aminus"):
            cmp(nm, m3(O[nm]), V[nm], usz * mach[:, None, None])
            for v, s in enumerate(("ze", "qx", "qy")): cmp("d%s_d%s" % (nm, s), m3(O["d%s_d%s" % (nm, s)]), D[v][nm], usz * (mach ** 2)[:, None, None] / U[v][:, None, None], mov if nm != "A" else None)
        tsz = np.broadcast_to(w[:, None, None], (len(rows), 3, 3))
        cmp("tau", m3(O["tau_LF"]), V["tau"], tsz); cmp("tau(column)", m3(O["tauc"]), V["tau"], tsz)
        for v, s in enumerate(("ze", "qx", "qy")): cmp("dtau_d" + s, m3(O["dtau_d%s_LF" % s]), D[v]["tau"], tsz / U[v][:, None, None], mov)
        ctx.mx("functions", worst); ctx.obs("states", len(rows)); ctx.obs("supercritical states", int(np.sum(np.abs(q[1] * n[0] + q[2] * n[1]) / h > c)))
        ctx.case(("fn", it), sample={"g": g, "states": len(rows), "deviation": worst})
    ctx.par(one, list(range(ctx.n(60, 1500))))
def newton(ctx, exe):
    def one(it):
        k = it[1]; rng = ctx.rng(*it); d = ctx.dir("n%d" % k); kinds = ["tide", "flow", "func", "land"]; rng.shuffle(kinds)
        if k % 5 == 0: kinds = [rng.choice(["tide", "flow", "func", "land"])] * 4
        c = S.make(rng, d, "ihdg", p=rng.choice([1, 1, 2]), sides=dict(zip("brtl", kinds)), nmax=2, bath=rng.choice(["random", "slope", "flat"]), amp_b=0.3)
        c.dt *= rng.choice([1, 10, 100])          # no step is taken; a large step lets the forces weigh in
        c.function([(t[0], t[1], t[2] * 0.5) + tuple(t[3:]) for t in c.terms])
        fr = rng.choice([None, "chezy", "manning", "manning"])
        if fr == "chezy": c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": rng.choice([0.003, 0.05])}
        elif fr == "manning": c.manning(0.005, 0.08, rng.choice([0.0, 1e-3, 5e-3]))
        if rng.random() < 0.4: c.problem["coriolis"] = "Enable"
        met = rng.random() < 0.4
        if met: c.meteo(2, 50.0, 3000.0); ctx.obs("problems with wind and pressure")
        c.kw["order"] = rng.choice([1, 2]); c.kw["nstages"] = 1; c.write(); U = np.array([1.0, math.sqrt(S.G * c.h0), math.sqrt(S.G * c.h0)])
        r, P0 = probe.run(ctx, exe, d, ["GEO"], env=c.env, name="probe0")
        if P0 is None or not P0.end: ctx.bad("probe-fails", "no geometry: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it); return
        eps = 1e-5 * c.h0; high = rng.random() < 0.35
        st = S.rand_states(rng, P0, c.h0, ze=0.05, mach=1.6 if high else 0.4, high=0.03)
        r, P = probe.run(ctx, exe, d, ["GEO"] + probe.sets(st) + ["NEWTON %.17g %d %.17g" % (eps, rng.randrange(1, 10 ** 6), 0.04 * c.h0)], env=c.env, name="probe", timeout=300)
        if P is None or not P.end: ctx.bad("probe-fails", "assembly failed: rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-300:]), it); return
        op = [o for o in P.ops if o["kind"] == "NEWTON"][0]; M = op["M"]; nd = 3 * P.ndof; nh = {}; worst = {}
        lead = {(e, b): (e, b) for _, e, b in P.bnds}; kind = {(e, b): n for n, e, b in P.bnds}
        for _, e, b, f, cc in P.ints: lead[e, b] = lead[f, cc] = (e, b); kind[e, b] = kind[f, cc] = "interface"
        # differences of the residuals (rhs = - residual)
        cols = {}
        pert = {}
        base = [p[5] for p in op["P"] if p[0] == "00"][0]
        for w, e, b, v, dof, res in op["P"]:
            if w != "00": pert.setdefault((e, b, v, dof), {})[w[1]] = res
        for (e, b, v, dof), pm in pert.items():
            for key in pm["+"]: cols[e, b, 3 * dof + v, key] = -(pm["+"][key] - pm["-"][key]) / (2 * eps)
        def see(what, got, fd, scale, where):
            W = U[np.arange(got.shape[1]) % 3][None] / U[np.arange(got.shape[0]) % 3][:, None]; scale = max([np.max(np.abs(g * (U[np.arange(g.shape[1]) % 3][None] / U[np.arange(g.shape[0]) % 3][:, None]))) for g in (scale if isinstance(scale, list) else [got])] + [1e-300])
            dev = np.max(np.abs(got - fd) * W) / scale if np.all(np.isfinite(got)) else np.inf
            worst[what] = max(worst.get(what, 0), float(dev)); ctx.obs("blocks " + what)
            ctx.check(dev < 1e-7, what, "assembled block at %s differs from the difference of its residual by %.3g of its size" % (where, dev), it)
        for e in P.elt:
            L = M["NL", e].reshape(nd, nd); fd = np.column_stack([cols[e, -1, j, e] for j in range(nd)]); see("local", L, fd, None, "element %d" % e)
        # no differences across the points where a characteristic speed of the trace vanishes (the split and the stabilization have a kink there)
        O = S.Oracle(P, c); kink = set()
        for ld in set(lead.values()):
            q = M["V0", ld[0], ld[1]] @ P.gh[ld]; g = P.gs[ld]; h = q[0] + O.bath(ld[0], g["x"], g["y"]); n_ = O.normal(*ld); qn = q[1] * n_[0] + q[2] * n_[1]; cw = np.sqrt(S.G * np.abs(h)); lim = 4 * eps * np.max(np.abs(P.gh[ld])) * (1 + cw)
            if np.any(np.abs(qn) < lim) or np.any(np.abs(np.abs(qn) - h * cw) < 3 * lim): kink.add(ld); ctx.obs("edges at a kink left out")
        for (e, b), ld in lead.items():
            if ld in kink: continue
            n = 3 * len(P.gh[ld]); nm = kind[e, b]
            Hl = M["NH", e, b].reshape(nd, n); fd = np.column_stack([cols[ld[0], ld[1], j, e] for j in range(n)]); see("element-trace", Hl, fd, None, "%s side (%d,%d)" % (nm, e, b))
            G = M["NG", e, b].reshape(n, nd); fd = np.column_stack([cols[e, -1, j, ld] for j in range(nd)]); sg = [G]
            if (e, b) == ld: E = M["NE", e, b].reshape(n, n); fe = np.column_stack([cols[ld[0], ld[1], j, ld] for j in range(n)]); sg = [G, E]; see("trace-" + nm, E, fe, sg, "edge (%d,%d)" % (e, b))
            see("trace-element-" + nm, G, fd, sg, "%s side (%d,%d)" % (nm, e, b))
        # the update taken from here solves the system of all the blocks
        dq = {e: (M["U1", e] - M["U0", e]).T.ravel() for e in P.elt}; dh = {ld: (M["V1", ld[0], ld[1]] - M["V0", ld[0], ld[1]]).T.ravel() for ld in set(lead.values())}
        rl = {e: M["NL", e].reshape(nd, nd) @ dq[e] - base[e] for e in P.elt}; sl = {e: np.abs(M["NL", e].reshape(nd, nd)) @ np.abs(dq[e]) for e in P.elt}
        rg = {ld: M["NE", ld[0], ld[1]].reshape(len(x), len(x)) @ x - base[ld] for ld, x in dh.items()}; sg = {ld: np.abs(M["NE", ld[0], ld[1]].reshape(len(x), len(x))) @ np.abs(x) for ld, x in dh.items()}
        for (e, b), ld in lead.items():
            n = len(dh[ld]); H = M["NH", e, b].reshape(nd, n); G = M["NG", e, b].reshape(n, nd); rl[e] += H @ dh[ld]; sl[e] += np.abs(H) @ np.abs(dh[ld]); rg[ld] += G @ dq[e]; sg[ld] += np.abs(G) @ np.abs(dq[e])
        for nm, rr, ss in (("update-element", rl, sl), ("update-trace", rg, sg)):
            dev = max(float(np.max(np.abs(rr[key]) / np.max(ss[key]))) if np.all(np.isfinite(rr[key])) else np.inf for key in rr); worst[nm] = dev; ctx.obs("equations " + nm, len(rr)); ctx.check(dev < 1e-8, nm, "a Newton update leaves %.3g of the linear system's terms" % dev, it)
        # nothing else depends on an unknown
        for (e, b, j, key), x in cols.items():
            if isinstance(key, tuple): touch = (lead[key] == (e, b)) if b >= 0 else any(lead[e, s] == key for s in range(3))
            else: touch = key == e if b < 0 else any(lead[key, s] == (e, b) for s in range(3))
            if not touch and np.max(np.abs(x)) != 0: ctx.bad("foreign-dependence", "residual %s depends on unknown %s" % (key, (e, b, j)), it); break
        ctx.obs("residual evaluations", 2 * len(pert)); ctx.obs("friction " + str(fr)); ctx.obs("order %d problems" % c.kw["order"])
        for w, v in worst.items(): ctx.mx(w, v)
        ctx.case(it, sample=dict(c.desc(), friction=fr, order=c.kw["order"], supercritical=high, worst=worst))
    ctx.par(one, [("newton", k) for k in range(ctx.n(40, 400))])
def run(ctx):
    A, B = build.harness("h_jac").submit(), build.probe("ihdg").submit(); functions(ctx, A.path()); newton(ctx, B.path())
    return {"rule": "functions: random states of widely different depth, datum, Froude number, direction and gravity against complex-step derivatives of the flux and of the spectral split; newton: random meshes, boundary types, friction, forcing and time discretization, all element and trace unknowns varied in both directions around a perturbed state, differences of the assembled residuals against the assembled blocks",
            "assumptions": ["states are kept away from vanishing characteristic speeds, where the split is not differentiable", "function tolerance 1e-10 and block tolerance 1e-7 of the size of the entries"]}
