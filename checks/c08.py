"""C08: real elements, boundaries, interfaces and skeleton edges over generated triangles, compared with exact plane geometry and independent quadrature."""
import math, os
import numpy as np
import build, core, c06
def duffy(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return np.array([((1 + x[i]) * (1 - x[j]) / 2 - 1, x[j]) for i in range(n) for j in range(n)]), np.array([w[i] * w[j] * (1 - x[j]) / 2 for i in range(n) for j in range(n)])
NQ = 12; RP, RW = duffy(NQ); EX, EW = np.polynomial.legendre.leggauss(14)
EDGE = [np.array([(-z, z) for z in EX]), np.array([(-1.0, -z) for z in EX]), np.array([(z, -1.0) for z in EX])]
R = np.vstack([RP] + EDGE); NR = len(RP); ESL = [slice(NR + k * 14, NR + (k + 1) * 14) for k in range(3)]
def lam(P): return np.stack([-(P[:, 0] + P[:, 1]) / 2, (1 + P[:, 0]) / 2, (1 + P[:, 1]) / 2])
def monos(D): return [(d - i, i) for d in range(D + 1) for i in range(d + 1)]
def evalm(D, A): return np.array([A[:, 0] ** a * A[:, 1] ** b for a, b in monos(D)])
def dmono(D, A, k): return np.array([(a * A[:, 0] ** max(a - 1, 0) * A[:, 1] ** b if k == 0 else b * A[:, 0] ** a * A[:, 1] ** max(b - 1, 0)) for a, b in monos(D)])
def dofdeg(p): return np.array([d for d in range(p + 1) for _ in range(d + 1)])
def run(ctx):
    exe = build.harness("h_geom").path(); pairs = [(p, k) for p, n in ((0, 4), (1, 10), (2, 10), (3, 6), (4, 2), (5, 1)) for k in range(n * ctx.n(2, 14))]
    def triangle(rng):
        kind = rng.random(); s = 10.0 ** rng.uniform(-2, 5); th = rng.uniform(0, 6.28)
        if kind < .5: P = [(rng.uniform(0, 1), rng.uniform(0, 1)) for _ in range(3)]
        elif kind < .75: P = [(0, 0), (1, 0), (rng.uniform(-.2, 1.2), 10.0 ** -rng.uniform(0, 3))]     # slivers
        else: P = [(0, 0), (1, 0), (rng.choice([0, 0.5, 1]), 1)]
        P = np.array(P, float) * s
        if kind < .75: c, q = math.cos(th), math.sin(th); P = P @ np.array([[c, q], [-q, c]])
        off = rng.choice([0, 0, 1, 100.0, 1e4]) * s; return P + np.array([rng.uniform(-off, off), rng.uniform(-off, off)]), s
    def area(P): return 0.5 * ((P[1, 0] - P[0, 0]) * (P[2, 1] - P[0, 1]) - (P[2, 0] - P[0, 0]) * (P[1, 1] - P[0, 1]))
    def one(it):
        p, k = it; rng = ctx.rng(*it)
        while True:
            P, s = triangle(rng); a = area(P); L = max(np.linalg.norm(P[i] - P[i - 1]) for i in range(3))
            if abs(a) > 1e-4 * L * L: break
        if a < 0: P = P[[0, 2, 1]]
        cw = k % 5 == 4; bin_ = rng.randrange(3); bex = rng.randrange(3)
        T = [np.column_stack([P, [rng.uniform(-5, 50) for _ in range(3)]])]
        if cw: T = [T[0][[0, 2, 1]]]
        else:
            A, B = T[0][(bin_ + 1) % 3], T[0][(bin_ + 2) % 3]; t = rng.uniform(0.1, 0.9); h = rng.uniform(0.3, 2) * abs(a) * 2 / np.linalg.norm(B[:2] - A[:2])
            d = (B - A)[:2]; nrm = np.array([d[1], -d[0]]) / np.linalg.norm(d); C = np.append(A[:2] + t * d + h * nrm, rng.uniform(-5, 50))
            N = [None] * 3; N[bex] = C; N[(bex + 1) % 3] = B; N[(bex + 2) % 3] = A; T.append(np.array(N))
        allp = np.vstack([t[:, :2] for t in T]); x0 = P.mean(0); sc = float(np.max(np.abs(allp - x0))); D = 2 * p + 1
        G = []
        for _ in range(24):
            l = [rng.uniform(-.6, 1.3), rng.uniform(-.6, 1.3)]; l.append(1 - sum(l))
            if min(abs(v) for v in l) > 1e-3: G.append(l)
        GP_ = np.array([np.array(l) @ T[0][:, :2] for l in G])
        txt = "%d %d %d %d %d\n%.17g %.17g %.17g\n" % (p, D, len(T), bin_, bex, x0[0], x0[1], sc) + "\n".join(" ".join("%.17g" % v for v in t.ravel()) for t in T)
        txt += "\n%d %s\n%d %s\n" % (len(R), " ".join("%.17g" % v for v in R.ravel()), len(GP_), " ".join("%.17g" % v for v in GP_.ravel()))
        r = c06.feed(ctx, exe, txt, "g%d_%d" % it)
        if not ctx.check(r.rc == 0 and "\nEND" in r.out, "run", "rc=%s %s" % (r.rc, r.err[-300:]), it): return
        O = {}
        for line in r.out.splitlines():
            f = line.split(" ")
            if len(f) > 2: O[f[0]] = np.array(f[3:], float).reshape(int(f[1]), int(f[2]))
        hmin = min(2 * abs(area(t[:, :2])) / max(np.linalg.norm(t[i, :2] - t[i - 1, :2]) for i in range(3)) for t in T)
        cond = (np.max(np.abs(allp)) + sc) / hmin; tol = 4e-15 * cond * (1 + p) ** 2 + 1e-12
        ctx.mx("condition", cond); deg = np.array([a + b for a, b in monos(D)]); dd = dofdeg(p); nd = len(dd); worst = [0.0]
        def cmp(tag, got, ref, scale=None, rows=None, key=None, fac=1.0):
            if tag not in O: ctx.bad("missing-" + (key or tag), "no output", it); return
            g = got; rr = np.asarray(ref, float)
            if g.shape != rr.shape: ctx.bad("shape-" + (key or tag), "%s instead of %s" % (g.shape, rr.shape), it); return
            if rows is not None: g, rr = g[rows], rr[rows]
            if g.size == 0: return
            S = scale if scale is not None else max(float(np.max(np.abs(rr))), 1e-300); e = float(np.max(np.abs(g - rr))) / S / fac; worst[0] = max(worst[0], e / tol)
            ctx.obs("quantities compared", g.size)
            if not e <= tol: ctx.bad(key or tag, "deviates by %.3g (relative to %.3g, tolerance %.2g)" % (e, S, tol), it)
        PHI, D0, D1 = O["PHI"], O["DPHI0"], O["DPHI1"]
        for e, tt in enumerate(T):
            g = lambda t: O.get("e%d.%s" % (e, t)); K = lambda t: "e%d.%s" % (e, t); N = g("NODES").reshape(3, 3)
            if sorted(map(tuple, N)) != sorted(map(tuple, tt)): ctx.bad("element-nodes", "element nodes are not the given ones", it)
            if not cw and not np.array_equal(N, tt): ctx.bad("element-node-order", "counter-clockwise nodes were reordered", it)
            V = N[:, :2]; Vc = (V - x0) / sc; A = abs(area((V - V[0]))); J = np.array([[V[1, 0] - V[0, 0], V[2, 0] - V[0, 0]], [V[1, 1] - V[0, 1], V[2, 1] - V[0, 1]]]) / 2; Ji = np.linalg.inv(J)
            ln = [np.linalg.norm(V[(b + 2) % 3] - V[(b + 1) % 3]) for b in range(3)]; one_ = lambda v: np.array([v], float)
            cmp(K("META"), g("META"), one_([3, 3, 3, nd, g("GP").shape[0]])); cmp(K("AREA"), g("AREA"), one_([A]), key="area"); cmp(K("RADIUS"), g("RADIUS"), one_([ln[0] * ln[1] * ln[2] / 4 / A]), key="circumradius")
            cmp(K("PERIM"), g("PERIM"), one_([sum(ln)]), key="perimeter"); cmp(K("LEN"), g("LEN"), one_(ln), key="lengths"); cmp(K("BARY"), g("BARY"), one_(V.mean(0)), scale=np.max(np.abs(V)) + sc, key="barycentre")
            cmp(K("MID"), g("MID"), np.array([(V[(b + 1) % 3] + V[(b + 2) % 3]) / 2 for b in range(3)]), scale=np.max(np.abs(V)) + sc, key="midpoints")
            cmp(K("JDET"), g("JDET"), one_([A / 2]), key="jacobian-det"); cmp(K("JINV"), g("JINV"), Ji, key="jacobian-inverse"); cmp(K("PSI"), g("PSI"), lam(R), key="psi")
            dl = np.array([[-.5, .5, 0], [-.5, 0, .5]]); gl_ = Ji.T @ dl
            cmp(K("DPSI0"), g("DPSI0"), np.repeat(gl_[0][:, None], len(R), 1), key="dpsi"); cmp(K("DPSI1"), g("DPSI1"), np.repeat(gl_[1][:, None], len(R), 1), key="dpsi")
            XR = lam(R).T @ V; cmp(K("L2G"), g("L2G"), XR, scale=np.max(np.abs(V)) + sc, key="local-to-global"); cmp(K("G2L"), g("G2L"), R, scale=1, fac=4, key="global-to-local")
            if e == 0:
                want = np.array([[1.0 if min(l) > 0 else 0.0 for l in G]]); ctx.check(np.array_equal(g("CONT"), want) if cond < 1e9 else True, "contains-point", "ContainsPoint wrong", it); ctx.obs("points located", len(G))
            XC = lam(R).T @ Vc; F = evalm(D, XC); FI = F[:, :NR] * RW; dphi = [Ji[0, 0] * D0 + Ji[1, 0] * D1, Ji[0, 1] * D0 + Ji[1, 1] * D1]; gs = max(np.max(np.abs(Ji)), 1e-300)
            cmp(K("INT"), g("INT"), (FI.sum(1) * A / 2)[:, None], rows=deg <= 2 * p, scale=A, key="element-integral")
            IP = FI @ PHI[:, :NR].T * A / 2; ps = np.max(np.abs(PHI)); ds = [np.max(np.abs(dphi[0])), np.max(np.abs(dphi[1]))]; gsc = max(ds + [1e-300]) if nd > 1 else 1.0
            m = lambda k: (deg[:, None] + dd[None, :] <= 2 * p + k)
            def cmpm(tag, got, ref, mask, scale, key):
                if got is None or got.shape != ref.shape: ctx.bad("shape-" + key, tag, it); return
                e_ = float(np.max(np.abs(got - ref) * mask)) / scale; ctx.obs("quantities compared", int(mask.sum())); worst[0] = max(worst[0], e_ / tol)
                if not e_ <= tol: ctx.bad(key, "deviates by %.3g (tolerance %.2g)" % (e_, tol), it)
            cmpm(K("INTPHI"), g("INTPHI"), IP, m(0), A * ps, "element-integral-phi")
            for d in range(2):
                ID = FI @ dphi[d][:, :NR].T * A / 2; cmpm(K("INTD"), g("INTD%d" % d), ID, m(1), A * gsc, "element-integral-dphi")
                got = np.hstack([g("INTD1.%d.%d" % (d, i)) for i in range(nd)]); cmpm("", got, ID, m(1), A * gsc, "element-integral-dphi-dof")
                for i in range(nd):
                    got = np.hstack([g("PD%d.%d.%d" % (d, i, j)) for j in range(nd)]); ref = (FI * PHI[i, :NR]) @ dphi[d][:, :NR].T * A / 2
                    cmpm("", got, ref, deg[:, None] + dd[i] + dd[None, :] <= 2 * p + 1, A * gsc * ps, "element-integral-phi-dphi")
            got = np.hstack([g("INTPHI1.%d" % i) for i in range(nd)]); cmpm("", got, IP, m(0), A * ps, "element-integral-phi-dof")
            for i in range(nd):
                got = np.hstack([g("PP.%d.%d" % (i, j)) for j in range(nd)]); ref = (FI * PHI[i, :NR]) @ PHI[:, :NR].T * A / 2
                cmpm("", got, ref, deg[:, None] + dd[i] + dd[None, :] <= 2 * p, A * ps * ps, "element-integral-phi-phi")
            lo = deg <= p
            for nm in ("PROJ", "PROJ2", "MINV"): cmp(K(nm), g(nm) @ PHI, F, rows=lo, scale=1, fac=10, key="projection-" + nm)
            XG = (g("GP") - x0) / sc; FG = evalm(D, XG); cmp(K("UGP"), g("UGP"), FG, rows=lo, scale=1, fac=10, key="values-at-gp")
            for d in range(2): cmp(K("DU%d" % d), g("DU%d" % d), dmono(D, XG, d) / sc, rows=lo, scale=gs * (1 + p) ** 2, fac=10, key="gradient-at-gp")
            if p:
                nod = np.array([tt[:, 2], [1.0, 2.0, 5.0]]); ns = np.max(np.abs(nod)); lg = np.linalg.solve(np.vstack([V.T - V[0][:, None], np.ones(3)]), np.vstack([(g("GP") - V[0]).T, np.ones(len(XG))]))
                cmp(K("NPROJ"), g("NPROJ") @ PHI, nod @ lam(R), scale=ns, fac=10, key="nodal-projection")
                for nm in ("NGP", "LGP"): cmp(K(nm), g(nm), nod @ lg, scale=ns, fac=4, key="nodal-values-" + nm)
                for d in range(2):
                    for nm in ("ND", "LD"): cmp(K(nm + str(d)), g(nm + str(d)), np.repeat((nod @ gl_[d])[:, None], len(XG), 1), scale=ns * gs, key="nodal-gradient-" + nm)
                    cmp(K("LDB%d" % d), g("LDB%d" % d), (nod @ gl_[d])[:, None], scale=ns * gs, key="linear-gradient-baryctr")
                cmp(K("LB"), g("LB"), nod.mean(1)[:, None], scale=ns, key="linear-baryctr"); cmp(K("LM"), g("LM"), np.stack([(nod[:, (b + 1) % 3] + nod[:, (b + 2) % 3]) / 2 for b in range(3)], 1), scale=ns, key="linear-midpoints"); cmp(K("LV"), g("LV"), nod, scale=ns, key="linear-vertices")
                cmp(K("L2B"), g("L2B") @ PHI, nod @ lam(R), scale=ns, key="linear-to-basis"); cmp(K("B2L"), g("B2L"), nod, scale=ns, key="basis-to-linear"); cmp(K("U2L"), g("U2L"), evalm(D, Vc), rows=deg <= 1, scale=1, fac=10, key="basis-to-linear-projection")
            VP = g("VTKP"); C = g("VTKC").astype(int); VPc = (VP - x0) / sc; cmp(K("VTKPD"), g("VTKPD"), evalm(D, VPc), rows=lo, scale=1, fac=10, key="vtk-point-data"); cmp(K("VTKCD"), g("VTKCD"), evalm(D, VPc[C].mean(1)), rows=lo, scale=1, fac=10, key="vtk-cell-data")
            ca = [abs(area(VP[c] - V[0])) for c in C]; ctx.check(abs(sum(ca) - A) < 1e3 * tol * A and min(ca) > 0.5 * A / len(C) - tol * A * 1e3, "vtk-cells", "VTK cells do not tile the element", it)
            lv = np.linalg.solve(np.vstack([V.T - V[0][:, None], np.ones(3)]), np.vstack([(VP - V[0]).T, np.ones(len(VP))])); ctx.check(np.min(lv) > -10 * tol, "vtk-points", "VTK point outside the element", it)
            cmp(K("SURV"), g("SURV"), F, rows=lo, scale=1, fac=10, key="survey-values"); cmp(K("RESL2"), g("RESL2"), one_([float(np.sum((F[:10, :NR] ** 2) @ RW) * A / 2)]), key="residual-l2", fac=10)
            # boundaries
            green = [np.zeros((len(F), nd)) for _ in range(2)]
            for b in range(3):
                h = lambda t: O.get("b%d%d.%s" % (e, b, t)); kb = lambda t: "b%d%d.%s" % (e, b, t); a_, b_ = V[(b + 1) % 3], V[(b + 2) % 3]; tan = (b_ - a_) / ln[b]; n = np.array([tan[1], -tan[0]])
                if np.dot(n, V[b] - a_) > 0: n = -n
                ng = h("NRM").shape[1]; cmp(kb("NRM"), h("NRM"), np.repeat(n[:, None], ng, 1), scale=1, key="boundary-normal"); cmp(kb("SJ"), h("SJ"), one_([ln[b] / 2]), key="surface-jacobian")
                ctx.check(h("NODE").ravel().tolist() == [10 * e + (b + 1) % 3, 10 * e + (b + 2) % 3], "boundary-nodes", "boundary node ids %s" % h("NODE"), it); ctx.check(h("NB")[0, 0] == ng, "boundary-ngp", "ngp", it)
                gx = np.polynomial.legendre.leggauss(ng)[0]; cmp(kb("GP"), h("GP"), (1 - gx)[:, None] / 2 * a_ + (1 + gx)[:, None] / 2 * b_, scale=np.max(np.abs(V)) + sc, key="boundary-points")
                Xb = (h("GP") - x0) / sc; Fg = evalm(D, Xb); Fe = F[:, ESL[b]]; Pe = PHI[:, ESL[b]]; w = EW * ln[b] / 2
                cmp(kb("F"), h("F"), Fg, scale=1, fac=4, key="boundary-function"); cmp(kb("U"), h("U"), Fg, rows=lo, scale=1, fac=10, key="boundary-trace"); cmp(kb("INT"), h("INT"), (Fe @ w)[:, None], rows=deg <= 2 * p + 1, scale=ln[b], key="boundary-integral")
                IB = (Fe * w) @ Pe.T; cmpm("", h("INTPHI"), IB, m(1), ln[b] * ps, "boundary-integral-phi"); cmpm("", np.hstack([h("INTPHI1.%d" % i) for i in range(nd)]), IB, m(1), ln[b] * ps, "boundary-integral-phi-dof")
                for d in range(2): green[d] += h("INTPHI") * h("NRM")[d, 0]
                for i in range(nd):
                    cmpm("", np.hstack([h("PP.%d.%d" % (i, j)) for j in range(nd)]), (Fe * w * Pe[i]) @ Pe.T, deg[:, None] + dd[i] + dd[None, :] <= 2 * p + 1, ln[b] * ps * ps, "boundary-integral-phi-phi")
                z = tt[:, 2] if not cw else None
                if not cw:
                    lin = (1 - gx) / 2 * tt[(b + 1) % 3, 2] + (1 + gx) / 2 * tt[(b + 2) % 3, 2]; zs = np.max(np.abs(tt[:, 2])); cmp(kb("NGP"), h("NGP"), lin[None], scale=zs, key="boundary-nodal"); cmp(kb("BNGP"), h("BNGP"), lin[None], scale=zs, key="boundary-nodal-own")
                for q, sg in (("e", 1), ("c", -1)):
                    hq = lambda t: O.get("b%d%d.%s%s" % (e, b, q, t)); LAM = np.polynomial.legendre.legvander(sg * gx, p).T; LE = np.polynomial.legendre.legvander(sg * EX, p).T; kq = "b%d%d.%s" % (e, b, q)
                    cmp(kq + "LAM", hq("LAM"), LAM, scale=1, key="edge-basis"); cmp(kq + "LU", hq("LU"), Fg, rows=lo, scale=1, fac=10, key="edge-projection"); cmp(kq + "ML", hq("ML"), hq("L"), scale=1, fac=10, key="edge-minv")
                    ld = np.arange(p + 1); cmpm("", hq("IL"), (Fe * w) @ LE.T, deg[:, None] + ld[None] <= 2 * p + 1, ln[b], "edge-integral-lambda")
                    for i in range(p + 1): cmpm("", np.hstack([hq("LL.%d.%d" % (i, j)) for j in range(p + 1)]), (Fe * w * LE[i]) @ LE.T, deg[:, None] + i + ld[None] <= 2 * p + 1, ln[b], "edge-integral-lambda-lambda")
                    for i in range(nd): cmpm("", np.hstack([hq("PL.%d.%d" % (i, j)) for j in range(p + 1)]), (Fe * w * Pe[i]) @ LE.T, deg[:, None] + dd[i] + ld[None] <= 2 * p + 1, ln[b] * ps, "edge-integral-phi-lambda")
            # Green's theorem from the code's own outputs
            mo = monos(D); idx = {t: i for i, t in enumerate(mo)}
            for d in range(2):
                lhs = g("INTD%d" % d).copy()
                for i, (a, b) in enumerate(mo):
                    t = (a - 1, b) if d == 0 else (a, b - 1); c = a if d == 0 else b
                    if c: lhs[i] += c / sc * g("INTPHI")[idx[t]]
                e_ = np.max(np.abs(lhs - green[d]) * m(1)) / (sum(ln) * ps); ctx.obs("Green identities", int(m(1).sum()))
                if not e_ <= tol * 10: ctx.bad("green", "integral of the gradient differs from the boundary integral by %.3g" % e_, it)
        if len(T) == 2:
            i_ = lambda t: O.get("i." + t); V0, V1 = T[0][:, :2], T[1][:, :2]; a_, b_ = V0[(bin_ + 1) % 3], V0[(bin_ + 2) % 3]; L = np.linalg.norm(b_ - a_); tan = (b_ - a_) / L; n = np.array([[tan[1]], [-tan[0]]]); ng = i_("NIN").shape[1]; gx = np.polynomial.legendre.leggauss(ng)[0]
            GI = (1 - gx)[:, None] / 2 * a_ + (1 + gx)[:, None] / 2 * b_; S = np.max(np.abs(allp)) + sc
            cmp("i.NIN", i_("NIN"), np.repeat(n, ng, 1), scale=1, key="interface-normal-in"); cmp("i.NEX", i_("NEX"), -np.repeat(n, ng, 1), scale=1, key="interface-normal-ex"); cmp("i.GIN", i_("GIN"), GI, scale=S, key="interface-points-in"); cmp("i.GEX", i_("GEX"), GI[::-1], scale=S, key="interface-points-ex")
            FI_ = evalm(D, (GI - x0) / sc); lo = deg <= p; w = EW * L / 2; PX = {}
            for side, bb, sgn in (("IN", bin_, 1), ("EX", bex, -1)):
                Vs = V0 if side == "IN" else V1; Fs = FI_ if side == "IN" else FI_[:, ::-1]; Fe = evalm(D, (lam(R[ESL[bb]]).T @ Vs - x0) / sc); Pe = PHI[:, ESL[bb]]; ps = np.max(np.abs(PHI))
                cmp("i.U" + side, i_("U" + side), Fs, rows=lo, scale=1, fac=10, key="interface-trace"); cmp("i.F" + side, i_("F" + side), Fs, scale=1, fac=10, key="interface-function"); cmp("i.INT" + side, i_("INT" + side), (Fe @ w)[:, None], scale=L, key="interface-integral")
                IB = (Fe * w) @ Pe.T; msk = deg[:, None] + dd[None, :] <= 2 * p + 1
                for nm, got in (("phi", i_("IP" + side)), ("phi-dof", np.hstack([i_("IP1%s.%d" % (side, j)) for j in range(nd)]))):
                    e_ = np.max(np.abs(got - IB) * msk) / (L * ps)
                    if not e_ <= tol: ctx.bad("interface-integral-" + nm, "side %s deviates by %.3g" % (side, e_), it)
                for i in range(nd):
                    got = np.hstack([i_("PP%s.%d.%d" % (side, i, j)) for j in range(nd)]); e_ = np.max(np.abs(got - (Fe * w * Pe[i]) @ Pe.T) * (deg[:, None] + dd[i] + dd[None] <= 2 * p + 1)) / (L * ps * ps)
                    if not e_ <= tol: ctx.bad("interface-integral-phi-phi", "side %s deviates by %.3g" % (side, e_), it)
                zz = T[0 if side == "IN" else 1][:, 2]; lin = (1 - gx) / 2 * zz[(bb + 1) % 3] + (1 + gx) / 2 * zz[(bb + 2) % 3]
                for nm in ("NU", "BN"): cmp("i." + nm + side, i_(nm + side), lin[None], scale=np.max(np.abs(zz)), key="interface-nodal-" + nm)
                for q, sg in (("e", 1), ("c", -1)):
                    LE = np.polynomial.legendre.legvander(sg * sgn * EX, p).T; ld = np.arange(p + 1)
                    for i in range(nd):
                        got = np.hstack([O["i.%sPL%s.%d.%d" % (q, side, i, j)] for j in range(p + 1)]); e_ = np.max(np.abs(got - (Fe * w * Pe[i]) @ LE.T) * (deg[:, None] + dd[i] + ld[None] <= 2 * p + 1)) / (L * ps)
                        if not e_ <= tol: ctx.bad("skeleton-phi-lambda-" + side, "deviates by %.3g" % e_, it)
                    if side == "IN":
                        cmp("i.%sLAM" % q, O["i.%sLAM" % q], np.polynomial.legendre.legvander(sg * gx, p).T, scale=1, key="skeleton-basis"); cmp("i.%sLU" % q, O["i.%sLU" % q], FI_, rows=lo, scale=1, fac=10, key="skeleton-projection"); cmp("i.%sML" % q, O["i.%sML" % q], O["i.%sL" % q], scale=1, fac=10, key="skeleton-minv")
                        e_ = np.max(np.abs(O["i.%sIL" % q] - (Fe * w) @ LE.T) * (deg[:, None] + ld[None] <= 2 * p + 1)) / L; ctx.check(e_ <= tol, "skeleton-integral-lambda", "deviates by %.3g" % e_, it)
                        for i in range(p + 1):
                            e_ = np.max(np.abs(np.hstack([O["i.%sLL.%d.%d" % (q, i, j)] for j in range(p + 1)]) - (Fe * w * LE[i]) @ LE.T) * (deg[:, None] + i + ld[None] <= 2 * p + 1)) / L; ctx.check(e_ <= tol, "skeleton-integral-lambda-lambda", "deviates by %.3g" % e_, it)
            ctx.obs("interfaces"); 
        ctx.mx("deviation/tolerance p%d" % p, worst[0]); ctx.case(it, sample={"order": p, "clockwise": cw, "condition": cond, "edges": [bin_, bex], "deviation/tolerance": worst[0]})
    ctx.par(one, pairs)
    return {"rule": "random, axis-aligned and sliver triangles (aspect to 1e3, offsets to 1e4 sizes, both orientations, all edge pairings), orders 0..5, every monomial up to degree 2p+1"}
