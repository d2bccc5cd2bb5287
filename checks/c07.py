"""C07: bases evaluated at many points (vertices, edges, interior, near-singular) and judged by fits in an independent polynomial basis and exact quadrature."""
import math, os
import numpy as np
import build, core, c06
def gl(n): return np.polynomial.legendre.leggauss(n)
def duffy(n):
    x, w = gl(n); P = np.array([((1 + x[i]) * (1 - x[j]) / 2 - 1, x[j]) for i in range(n) for j in range(n)]); W = np.array([w[i] * w[j] * (1 - x[j]) / 2 for i in range(n) for j in range(n)])
    return P, W
def parse(out):
    r = []
    for line in out.splitlines():
        t = line.split()
        if len(t) > 3 and t[0] in ("PHI", "D1", "D2", "MINV", "BL", "LB"): r.append((t[0], np.array(t[3:], float).reshape(int(t[1]), int(t[2]))))
    return r
def cheb(P, p):
    """Independent 2-D polynomial basis of total degree p: products of Chebyshev polynomials; values and derivatives."""
    V = []; DX = []; DY = []
    for a in range(p + 1):
        for b in range(p + 1 - a):
            ca = np.zeros(a + 1); ca[a] = 1; cb = np.zeros(b + 1); cb[b] = 1
            f = lambda c, x: np.polynomial.chebyshev.chebval(x, c); d = lambda c: np.polynomial.chebyshev.chebder(c) if len(c) > 1 else np.zeros(1)
            fx, fy = f(ca, P[:, 0]), f(cb, P[:, 1]); V.append(fx * fy); DX.append(f(d(ca), P[:, 0]) * fy); DY.append(fx * f(d(cb), P[:, 1]))
    return np.array(V), np.array(DX), np.array(DY)
def run(ctx):
    exe = build.harness("h_basis").submit(); san = build.harness("h_basis", san="asan").submit(); exe = exe.path(); san = san.path()
    PM = 10
    def tri(p):
        rng = ctx.rng("tri", p); Q, W = duffy(16); S = [(-1, -1), (1, -1), (-1, 1), (0, -1), (-1, 0), (0, 0), (-1 / 3, -1 / 3)]
        for _ in range(ctx.n(40, 400)):
            k = rng.random(); l = sorted([rng.random(), rng.random()]); l = [l[0], l[1] - l[0], 1 - l[1]]
            if k < .3: l[rng.randrange(3)] = 0.0
            if k > .9: l[2] = 1 - 10.0 ** -rng.uniform(1, 5); l[0] = (1 - l[2]) * rng.random(); l[1] = 1 - l[2] - l[0]
            s = sum(l); l = [v / s for v in l]
            S.append((-l[0] + l[1] - l[2], -l[0] - l[1] + l[2]))
        S = np.array(S); A = np.vstack([Q, S]); nq = len(Q)
        txt = "b2 %d %d %d %s\n" % (p, len(A), 1 if p else 0, " ".join("%.17g %.17g" % tuple(x) for x in A))
        out = None
        for e, tag in ((exe, "plain"), (san, "asan")):
            r = c06.feed(ctx, e, txt, "t%d_%s" % (p, tag)); ctx.check(r.rc == 0, "run-tri-%d" % p, "basis of order %d: rc=%s %s" % (p, r.rc, r.err[:400])); out = out or r.out
        d = dict(parse(out)); nd = (p + 1) * (p + 2) // 2; phi = d.get("PHI"); k = "tri-%d" % p
        if phi is None or not ctx.check(phi.shape == (nd, len(A)), "shape-" + k, "shape %s" % (phi.shape,)): return
        V, DX, DY = cheb(A, p); fit = np.linalg.lstsq(V.T, phi.T, rcond=1e-15)[0].T
        sc = np.max(np.abs(phi), axis=1)[:, None]; e1 = float(np.max(np.abs(fit @ V - phi) / sc)); ctx.mx("not polynomial of the order (triangle)", e1)
        ctx.check(e1 < (1e-10 if p < 7 else 1e-7), "poly-" + k, "basis is not a polynomial of degree %d: deviation %.3g (also at vertices/edges)" % (p, e1))
        G = (phi[:, :nq] * W) @ phi[:, :nq].T; dg = np.sqrt(np.abs(np.diag(G))); off = float(np.max(np.abs(G / dg[:, None] / dg[None, :] - np.eye(nd)))) if np.all(dg > 1e-12) else 9.0
        ctx.mx("non-orthogonality (triangle)", off); ctx.check(off < 1e-11, "orth-" + k, "non-orthogonality %.3g" % off)
        ctx.check(np.linalg.matrix_rank(fit) == nd, "span-" + k, "basis does not span the polynomials")
        e2 = float(np.max(np.abs(d["MINV"] @ G - np.eye(nd)))); ctx.mx("Minv*M-I (triangle)", e2); ctx.check(e2 < 1e-10, "minv-" + k, "Minv M - I = %.3g" % e2)
        for nm, DV in (("D1", DX), ("D2", DY)):
            ref = fit @ DV; e3 = float(np.max(np.abs(ref - d[nm]) / (np.max(np.abs(ref)) + 1e-30))) if nd > 1 else float(np.max(np.abs(d[nm]))); ctx.mx("gradient error (triangle)", e3)
            ctx.check(e3 < (1e-9 if p < 7 else 1e-7), "grad-%s-%s" % (nm, k), "gradient differs from the derivative of the basis by %.3g (relative)" % e3)
        if p:
            BL, LB = d["BL"], d["LB"]
            ctx.check(BL.shape == (nd, 3) and LB.shape == (3, nd), "linshape-" + k, "shapes %s %s" % (BL.shape, LB.shape))
            ctx.check(np.max(np.abs(LB @ BL - np.eye(3))) < 1e-14, "lin-inv-" + k, "linear->basis->linear is not the identity")
            # nodal values of a linear function -> basis coefficients reproduce it everywhere
            lam = np.stack([-(A[:, 0] + A[:, 1]) / 2, (1 + A[:, 0]) / 2, (1 + A[:, 1]) / 2]); e4 = float(np.max(np.abs(LB @ phi - lam))); ctx.mx("linear reproduction", e4)
            ctx.check(e4 < 1e-12, "lin-rep-" + k, "linear functions are not reproduced: %.3g" % e4)
            # basis->linear: vertex values of the L2-best linear fit (exact for linear data), mean preserved
            C = np.random.default_rng(p).normal(size=nd); f = C @ phi[:, :nq]; L = lam[:, :nq]; ML = (L * W) @ L.T; best = np.linalg.solve(ML, (L * W) @ f)
            e5 = float(np.max(np.abs(C @ BL - best)) / np.max(np.abs(best))); ctx.mx("linear projection", e5); ctx.check(e5 < 1e-11, "lin-proj-" + k, "projection to linear is not the L2 projection: %.3g" % e5)
        if p:   # hierarchy: the basis of order p-1 is a prefix
            r = c06.feed(ctx, exe, "b2 %d %d 0 %s\n" % (p - 1, len(A), " ".join("%.17g %.17g" % tuple(x) for x in A)), "h%d" % p); lo = dict(parse(r.out))["PHI"]
            ctx.check(lo.shape[0] == p * (p + 1) // 2 and np.max(np.abs(lo - phi[:lo.shape[0]])) == 0, "prefix-" + k, "coefficients of order %d do not keep their meaning in order %d" % (p - 1, p))
        ctx.obs("basis values", phi.size); ctx.obs("gradient values", 2 * phi.size); ctx.case(("tri", p), sample={"order": p, "points": len(A), "orthogonality": off, "gradient": e3})
    def seg(p):
        rng = ctx.rng("seg", p); x, w = gl(p + 3); A = np.concatenate([x, [-1, 1, 0], [rng.uniform(-1, 1) for _ in range(40)]]); nq = len(x)
        r = c06.feed(ctx, exe, "b1 %d %d %s\n" % (p, len(A), " ".join("%.17g" % v for v in A)), "s%d" % p); d = dict(parse(r.out)); phi = d.get("PHI"); k = "seg-%d" % p
        if phi is None or not ctx.check(phi.shape == (p + 1, len(A)), "shape-" + k, "shape"): return
        V = np.polynomial.legendre.legvander(A, p).T; fit = np.linalg.lstsq(V[:, :nq].T, phi[:, :nq].T, rcond=None)[0].T; e1 = float(np.max(np.abs(fit @ V - phi)))
        ctx.check(e1 < 1e-11, "poly-" + k, "not a polynomial of degree %d (%.3g)" % (p, e1))
        G = (phi[:, :nq] * w) @ phi[:, :nq].T; dg = np.sqrt(np.diag(G)); off = float(np.max(np.abs(G / dg[:, None] / dg[None, :] - np.eye(p + 1)))); ctx.mx("non-orthogonality (segment)", off)
        ctx.check(off < 1e-12, "orth-" + k, "non-orthogonality %.3g" % off); ctx.check(np.linalg.matrix_rank(fit) == p + 1, "span-" + k, "span")
        e2 = float(np.max(np.abs(d["MINV"] @ G - np.eye(p + 1)))); ctx.check(e2 < 1e-11, "minv-" + k, "Minv M - I = %.3g" % e2)
        D = np.array([fit[i] @ np.array([np.polynomial.legendre.legval(A, np.polynomial.legendre.legder(np.eye(p + 1)[j])) if j else 0 * A for j in range(p + 1)]) for i in range(p + 1)])
        e3 = float(np.max(np.abs(D - d["D1"])) / max(1, np.max(np.abs(D)))); ctx.mx("gradient error (segment)", e3); ctx.check(e3 < 1e-10, "grad-" + k, "derivative error %.3g" % e3)
        ctx.obs("basis values", phi.size); ctx.case(("seg", p))
    ctx.par(tri, range(PM + 1)); ctx.par(seg, range(16))
    return {"rule": "triangle orders 0..10, segment orders 0..15: values and gradients at vertices, edges, interior and near-singular points against an independently fitted polynomial"}
