"""C12 wetting and drying: the treatment on prescribed element states, and every stage of runs with moving shorelines."""
import copy, itertools
import numpy as np
import build, core, dist, gen, probe, stage as S
from checks import c10
THR = 1e6 * np.finfo(float).eps
def vertex_states(rng, P, ho, h0, bathv):
    """element states with vertex depths in every position relative to the threshold (ties included)"""
    out = {}; r = np.random.RandomState(rng.randrange(2 ** 31))
    for e in P.elt:
        def depth():
            k = r.randint(7)
            return [ho * r.uniform(0, 1), ho * r.uniform(1.01, 3), ho, ho * r.uniform(-2, 0), h0 * r.uniform(0.1, 2), -h0 * r.uniform(0, 0.2), ho * (1 + THR * r.uniform(0, 3))][k]
        hv = np.array([depth() for _ in range(3)])
        if r.rand() < 0.15: hv[1] = hv[0]
        if r.rand() < 0.05: hv[2] = hv[1]
        if r.rand() < 0.2: hv = h0 * r.uniform(0.2, 2, 3)
        q = np.array([hv - bathv[e], r.uniform(-1, 1, 3) * h0, r.uniform(-1, 1, 3) * h0])
        out[e] = (int(r.rand() < 0.6), q)
    return out
def judge(ctx, it, P, e, wet, q, bv, ho, where, limiter=False):
    """what every element must satisfy after a stage"""
    ok = np.all(np.isfinite(q)); ctx.check(ok, "nonfinite", "element %s not finite %s" % (e, where), it)
    if not ok: return
    qv = P.vert(q); h = qv[0] + bv; sc = np.max(np.abs(bv)) + np.max(np.abs(qv[0])); hm = P.mean(q)[0] + np.mean(bv)
    ctx.check(hm >= -1e-12 * sc, "negative-mean", "mean depth %.3g in element %s %s" % (hm, e, where), it)
    if wet == 0: ctx.check(np.all(q[1:] == 0) or np.max(np.abs(q[1:])) < 1e-14 * sc, "dry-momentum", "dry element %s carries momentum %.3g %s" % (e, np.max(np.abs(q[1:])), where), it); ctx.obs("dry states")
    elif not limiter:
        hv = (P.coef_lin(q)[0] + bv); ctx.check(np.all(hv > 0), "wet-depth", "element %s marked wet, depth %.3g at a vertex %s" % (e, hv.min(), where), it); ctx.obs("wet states"); ctx.mx("-(lowest wet vertex depth)/h_o", -hv.min() / ho)
def coef_lin(self, q):
    """vertex values of the linear part"""
    if not hasattr(self, "_lv"):
        Pd = core.duffy_points(); lam = np.stack([-(Pd[:, 0] + Pd[:, 1]) / 2, (1 + Pd[:, 0]) / 2, (1 + Pd[:, 1]) / 2]); w = core.duffy()
        self._lv = (self.phi[:, core.NREF:] * w) @ lam.T @ np.linalg.inv((lam * w) @ lam.T)
    return q @ self._lv
probe.Probe.coef_lin = core.Rec.coef_lin = coef_lin
def run(ctx):
    T = {p: build.probe(p).submit() for p in ("rkdg", "ehdg")}
    n = ctx.n(24, 240); m = ctx.n(24, 160)
    items = [(p, "op", k) for p in T for k in range(n)] + [(p, kd, k) for p in T for kd in ("run", "lim") for k in range(m if kd == "run" else m // 3)]
    D = {p: build.rec_ompi(p).submit() for p in T}; part = build.partitioner().submit(); items = [(p, kd, k) for p in D for kd in ("dist", "distlim") for k in range(ctx.n(10, 80) if kd == "dist" else ctx.n(3, 30))] + items
    exe = {p: T[p].path() for p in T}; dexe = {p: D[p].path() for p in D}; part = part.path()
    def setup(rng, d, prob, p, **kw):
        c = S.make(rng, d, prob, p=p, bath="slope", amp_b=rng.uniform(1.2, 3), func=False, forcing=False, nmax=4, **kw)
        ho = 0.01 * c.h0 * rng.choice([1, 1, 5]); c.problem["wetting_drying"] = {"h_o": ho}
        c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}
        return c, ho
    def op_case(it):
        prob, _, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it); p = rng.choice([1, 1, 2, 3])
        c, ho = setup(rng, d, prob, p); c.write(); thr = THR * ho
        r, P0 = probe.run(ctx, exe[prob], d, ["GEO"], env=c.env)
        if P0 is None or not P0.end: ctx.bad("probe-fails", r.err[-300:], it); return
        # the same mesh with every element's vertices rotated
        rot = {e: rng.randrange(3) for e in c.mesh.elts}
        m2 = c.mesh.copy(); m2.elts = {e: tuple(ns[rot[e]:] + ns[:rot[e]]) for e, ns in c.mesh.elts.items()}
        m2.write(d + "/rot.14")
        txt = open(d + "/in.15").read().replace("mesh.14", "rot.14"); open(d + "/in2.15", "w").write(txt)
        if __import__("os").path.exists(d + "/mesh.bcis"): __import__("shutil").copy(d + "/mesh.bcis", d + "/rot.bcis")
        bathv = {e: np.array([c.mesh.nodes[x][2] for x in P0.elt[e]["N"]]) for e in P0.elt}
        sets = []; nops = 6
        for j in range(nops): sets.append(vertex_states(rng, P0, ho, c.h0, bathv))
        hi = [{e: (np.zeros(0) if P0.ndof == 3 or rng.random() < 0.5 else np.array([P0.project(np.random.RandomState(rng.randrange(2 ** 31)).uniform(-1, 1, (1, 64)))[0] * s for s in (0.1 * ho, c.h0 * 0.1, c.h0 * 0.1)])) for e in s} for s in sets]
        scr = []
        for s, hh in zip(sets, hi):
            st = {}
            for e, (w, q) in s.items():
                cf = P0.coef_of_linear(q)
                if hh[e].size: cf = cf + hh[e] - P0.coef_of_linear(P0.coef_lin(hh[e]))
                st[e] = (w, cf)
            scr += probe.sets(st) + ["WD"]
        r, P = probe.run(ctx, exe[prob], d, ["GEO"] + scr, env=c.env)
        scr2 = []
        for s in sets: scr2 += probe.sets({e: (w, P0.coef_of_linear(np.hstack([q[:, rot[e]:], q[:, :rot[e]]]))) for e, (w, q) in s.items()}) + ["WD"]
        r2, P2 = probe.run(ctx, exe[prob], d, ["GEO"] + scr2, env=c.env, name="rot", input="in2.15")
        if P is None or not P.end or P2 is None or not P2.end: ctx.bad("probe-fails", "wetting/drying of a prescribed state failed: %s %s" % (r.err[-200:], r2.err[-200:]), it); return
        for j, (op, op2) in enumerate(zip(P.ops, P2.ops)):
            for e in P.elt:
                w0, q0 = op["B"][e]; w1, q1 = op["N"][e]; bv = bathv[e]; v0 = P.coef_lin(q0); h = v0[0] + bv; sc = np.max(np.abs(bv)) + np.max(np.abs(h)); hm0 = P.mean(q0)[0] + bv.mean()
                ctx.obs("treatments"); judge(ctx, it, P, e, w1, q1, bv, ho, "after treatment")
                cls = "%d%s" % (int(np.sum(h <= ho + thr)), "w" if w0 else "d"); ctx.obs("class " + cls)
                near = np.any(np.abs(h - ho - thr) < 1e-12 * sc)
                hm1 = P.mean(q1)[0] + bv.mean()
                if hm0 > thr + 1e-13 * sc: ctx.check(abs(hm1 - hm0) <= 1e-12 * sc, "volume", "treatment changed the volume of element %d: mean depth %.17g -> %.17g (h_o=%g, depths %s)" % (e, hm0, hm1, ho, h), it)
                elif hm0 < thr - 1e-13 * sc: ctx.check(abs(hm1 - thr) <= 1e-12 * sc, "volume-floor", "element %d of mean depth %g treated to %g, not to the floor %g" % (e, hm0, hm1, thr), it)
                if np.all(h > ho + thr) and w0 and not near: ctx.check(np.array_equal(q0, q1) and w1, "untouched", "element %d deeper than the threshold everywhere was changed" % e, it)
                if w1: # wet elements keep their momentum content
                    m0, m1 = P.mean(q0)[1:], P.mean(q1)[1:]; ctx.check(np.all(np.abs(m1 - m0) <= 1e-12 * (np.abs(v0[1:]).max() + 1e-300)) or (hm0 <= ho + thr and np.all(m1 == 0)), "momentum", "treatment changed the momentum of a wet element: %s -> %s" % (m0, m1), it)
                # a shallow element is dry, a deep one is wet
                if np.all(h <= ho + thr) and not near: ctx.check(w1 == 0, "dry-flag", "every vertex at or below the threshold, but marked wet (depths %s, h_o %g)" % (h, ho), it)
                if not near and hm0 > thr + 1e-13 * sc:
                    hv1 = P.coef_lin(q1)[0] + bv; i = int(np.argmax(hv1)); crit = hv1[i] - bv[i] - (ho - bv.min())
                    if not np.all(h <= ho + thr) and not (np.all(h > ho + thr) and w0) and abs(crit) > 1e-11 * sc and np.sum(np.abs(hv1 - hv1.max()) < 1e-11 * sc) == 1:
                        ctx.check(w1 == int(crit > 0), "wet-rule", "level at the deepest vertex %s the highest ground plus h_o, but the element is marked %s" % ("above" if crit > 0 else "below", "wet" if w1 else "dry"), it)
                # vertex order
                if P.ndof == 3 or not hi[j][e].size:
                    a, bb = P.coef_lin(q1), P2.coef_lin(op2["N"][e][1]); bb = np.hstack([bb[:, 3 - rot[e]:], bb[:, :3 - rot[e]]]) if rot[e] else bb
                    tie = np.sum(np.abs(np.subtract.outer(h, h)) < 1e-12 * sc) > 3
                    if not near and not tie:      # equal depths over different ground leave the choice of the deepest vertex open
                        dv = np.max(np.abs(a - bb), axis=1) / np.array([sc, np.abs(v0[1:]).max() + 1e-300, np.abs(v0[1:]).max() + 1e-300])
                        ctx.check(dv.max() < 1e-10 and w1 == op2["N"][e][0], "vertex-order", "treatment depends on the vertex order: %.3g, depths %s h_o %g" % (dv.max(), h, ho), it); ctx.obs("rotations compared")
        ctx.case(it, sample=dict(c.desc(), treatments=len(P.ops) * len(P.elt)))
    def run_case(it):
        prob, kd, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it); p = rng.choice([1, 1, 1, 2]) if kd == "run" else 1
        c, ho = setup(rng, d, prob, p)
        if kd == "lim": c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": 1e-8, "nu": 1.5}
        if kd == "run" and k % 4 == 0: c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": 0.01}
        if kd == "lim" and rng.random() < 0.5: c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": 0.01}
        c.waves(rng.uniform(0.2, 0.9), rng.uniform(0.0, 0.4)); c.dt *= 0.5; c.write()
        nst = c.kw["nstages"] * ctx.n(25, 80)
        r, P = probe.run(ctx, exe[prob], d, ["GEO"] + ["STAGE"] * nst, env=c.env)
        if P is None: ctx.bad("probe-fails", r.err[-300:], it); return
        if not P.end:
            ctx.check(r.sig == 6 and "NaN" in r.err, "ends", "run ended rc=%s sig=%s %s" % (r.rc, r.sig, r.err[-200:]), it); ctx.obs("runs that became non-finite"); ctx.obs("nonfinite %s p=%d %s stage %d" % (prob, p, kd, len(P.ops)));
            if len(P.ops) < 3: return
        O = S.Oracle(P, c); bathv = {e: np.array([c.mesh.nodes[x][2] for x in P.elt[e]["N"]]) for e in P.elt}; mixed = 0; flips = 0
        for op in P.ops:
            wets = {e: op["B"][e][0] for e in P.elt}; m_ = 0 < sum(wets.values()) < len(wets); mixed += m_
            for e in P.elt:
                w1, q1 = op["N"][e]; flips += w1 != wets[e]
                judge(ctx, it, P, e, w1, q1, bathv[e], ho, "after stage %d at t=%g" % (op["stage"], op["t"]), kd == "lim")
            if not m_: continue
            for t in P.ints:
                _, e, b, f, cc = t
                if wets[e] == wets[f]: continue
                g = P.gs[e, b]; gi, gx = op["F"][e, b][2][0], op["F"][f, cc][2][0][::-1]; ctx.obs("wet/dry edge points", len(gi))
                fs = np.max(np.abs(gi)) + np.max(np.abs(gx)) + 1e-12; cons = np.max(np.abs(gi + gx)); dry_out = (gi if not wets[e] else gx)
                ctx.check(cons <= 1e-11 * fs + 3e-12, "shore-conserve", "mass fluxes of the two sides of a wet/dry edge do not cancel: %.3g of %.3g" % (cons, fs), it)
                ctx.check(dry_out.max() <= 2e-12 + 1e-13 * fs, "leaves-dry", "water leaves a dry element: mass flux %.3g" % dry_out.max(), it)
            wetn = {e: False for e in P.elt}
            for t in P.ints: wetn[t[1]] |= bool(wets[t[3]]); wetn[t[3]] |= bool(wets[t[1]])
            for e in P.elt:
                if wets[e] or wetn[e]: continue
                b0, b1 = P.mean(op["B"][e][1]), P.mean(op["N"][e][1]); sc = np.max(np.abs(bathv[e])) + abs(b0[0]); ctx.obs("dry elements among dry ones")
                if op["stage"] == 0: ctx.check(abs(b1[0] - b0[0]) <= 1e-12 * sc and np.all(b1[1:] == 0), "dry-changes", "dry element %d without wet neighbours changed: %s -> %s" % (e, b0, b1), it)
        ctx.obs("mixed stages", mixed); ctx.obs("wet/dry changes", flips)
        ctx.case(it, nontrivial=mixed > 0, sample=dict(c.desc(), stages=len(P.ops), mixed=mixed, flips=flips))
    def dist_case(it):
        """the same over several ranks: the states between the stages of a distributed run are those after its last stage, at every step"""
        prob, kd, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it); lim = kd == "distlim"; p = 1 if lim else rng.choice([1, 1, 1, 2])
        c, ho = setup(rng, d, prob, p)
        if lim: c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": 1e-8, "nu": 1.5}
        c.waves(rng.uniform(0.2, 0.9), rng.uniform(0.0, 0.4)); c.dt *= 0.5; inp = c.write()
        r, M, desc, A = dist.sim(ctx, it, rng, c, inp, part, dexe[prob]); desc = dict(c.desc(), **desc)
        if M is None:
            ctx.check(not r.timeout and (p > 1 or lim or r.rc not in (0, 66)), "dist-ends", "distributed run ended rc=%s sig=%s timeout=%s %s %s" % (r.rc, r.sig, r.timeout, r.err[-300:], desc), it); ctx.obs("distributed runs that became non-finite"); return
        sc = float(np.sum(M.areas() * np.mean(np.abs(M.at(M.q[0][:, 0] + M.bath)), axis=1))); v0 = M.vol(0); shore = 0
        bv = {e: M.vert(M.bath[i][None, :])[0] for e, i in M.pos.items()}
        for s in range(1, len(M.q)):
            if not np.all(np.isfinite(M.q[s])) or np.max(np.abs(M.q[s][:, 0])) > 1e3 * c.h0: ctx.obs("blown up"); break
            for e, i in M.pos.items(): judge(ctx, it, M, e, M.wet[s][i], M.q[s][i], bv[e], ho, "after step %d of a distributed run" % s, lim)
            dv = abs(M.vol(s) - v0) / sc; ctx.mx("relative volume drift (distributed)", dv)
            if not ctx.check(dv <= 1e-12 * (10 + len(M.q)), "dist-volume", "the volume of a closed basin changed by %.3g (relative) up to step %d of a distributed run %s" % (dv, s, desc), it): break
            shore += sum(1 for e, i in M.pos.items() for g in M.elt[e]["G"] if e < g and g in M.pos and A[e] != A[g] and M.wet[s][i] != M.wet[s][M.pos[g]])
        ctx.obs("wet-dry distributed edges", shore); ctx.case(it, nontrivial=shore > 0, sample=dict(desc, shore=shore))
    ctx.par(lambda it: op_case(it) if it[1] == "op" else dist_case(it) if it[1].startswith("dist") else run_case(it), items)
    return {"rule": "op: random vertex depths around the threshold (ties, negative depths, all classes), both flags, orders 1-3, treated once and again with rotated vertex order; run: every stage of runs over a sloping bed reaching above the water; dist: every step of such runs over several ranks, submeshes and threads",
            "assumptions": ["runs with slope limiting are not judged on vertex depth, which the limiter changes after the treatment"]}
