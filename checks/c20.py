"""C20: real runs with generated smooth exact solutions: error decay under refinement, exactness for steady polynomial solutions, agreement with the exact solution in size."""
import math, os, random
import numpy as np
import build, cases as C, core, gen
def refine(m):
    """every triangle into four; segments follow"""
    r = m.copy(); r.elts = {}; mid = {}; nn = max(m.nodes) + 1; ne = 0
    for e, t in m.elts.items():
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            k = frozenset((a, b))
            if k not in mid: mid[k] = nn; r.nodes[nn] = tuple((u + v) / 2 for u, v in zip(m.nodes[a], m.nodes[b])); nn += 1
        a, b, c = t; ab, bc, ca = (mid[frozenset(x)] for x in ((a, b), (b, c), (c, a)))
        for q in ((a, ab, ca), (ab, b, bc), (ca, bc, c), (bc, ca, ab)): r.elts[ne] = q; ne += 1
    def seg(s):
        o = [s[0]]
        for a, b in zip(s, s[1:]): o += [mid[frozenset((a, b))], b]
        return o
    for s in r.land: s["nodes"] = seg(s["nodes"])
    assert not r.open
    return r
def exact(R, s, terms, bath, vel=False):
    """exact values at the integration points of every element, (element, variable, point)"""
    X = R.coords(); t = R.steps[s][2]; sh = X[..., 0].shape
    v = C.eval_fn(terms, t, X[..., 0].ravel(), X[..., 1].ravel(), bath=bath, vel=vel)
    return np.stack([np.broadcast_to(v[i], X[..., 0].size).reshape(sh) for i in range(3)], axis=1)
def error(R, s, terms, bath, vel, sc):
    """L2 errors of the three variables over the domain, relative to the scales sc, and their maxima"""
    D = R.at(R.q[s]) - exact(R, s, terms, bath, vel); A = R.areas(); w = R.w / 2
    return np.sqrt(np.einsum("e,evp,p->v", A, D * D, w) / A.sum()) / sc, np.max(np.abs(D), axis=(0, 2)) / sc
def setup(rng, d, prob, p, n, walls=""):
    h0 = math.exp(rng.uniform(math.log(0.5), math.log(20))); c0 = math.sqrt(9.81 * h0); T = rng.randint(1, 4)
    travel = 0.12 if prob == "ihdg" else 0.25; L = c0 * T / travel; o = rng.choice([0, 0, 1]) * L
    m = C.grid_mesh(rng, n, n, box=(o, o + L, -o, -o + L), jitter=rng.choice([0, 0.12, 0.2]), sides={s: "land" if s in walls else "func" for s in "brtl"}, diag=rng.choice(["random", "zig", "a"]))
    sl = rng.uniform(0, 0.35) * h0 / L * rng.choice([0, 1, 1]); th = rng.uniform(0, 6.28); bx, by = sl * math.cos(th), sl * math.sin(th); b0 = h0 - bx * (o + L / 2) - by * (-o + L / 2)
    for k, (x, y, z) in list(m.nodes.items()): m.nodes[k] = (x, y, b0 + bx * x + by * y)
    return h0, c0, T, L, o, m, (b0, bx, by)
def run(ctx):
    T = {p: build.rec_serial(p).submit() for p in ("ihdg", "ehdg", "rkdg")}; E = {p: t.path() for p, t in T.items()}
    def go(it, d, prob, p, m, Tm, steps, terms, bath, cf, order, ns=None):
        os.makedirs(d + "/out", exist_ok=True); m.write(d + "/mesh.14"); C.write_fn(d + "/fn.txt", terms, bath=bath, cf=cf)
        pr = {"initial_conditions": {"type": "Function"}, "function_source": "Enable"}
        if cf: pr["bottom_friction"] = {"type": "Chezy", "coefficient": cf}
        C.write_input(d + "/in.15", "mesh.14", prob=gen.NAMES[prob], p=p, dt=Tm / steps, T=Tm, order=order, nstages=ns, problem=pr, out="out/", modal=Tm / steps * (1 - 1e-9))
        r, R = core.sim(ctx, E[prob], d, ["in.15"], env={"VERIF_FN": d + "/fn.txt"}, timeout=300)
        if not R or not R.end: ctx.bad("abort-%s" % prob, "%s p=%d: a smooth, stable problem ends early: %s" % (prob, p, R.exc if R else r.err[-300:]), it); return None
        return R
    def rate(it):
        _, prob, p, k = it; rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); n = {("ihdg", 1): 4, ("ihdg", 2): 3}.get((prob, p), {0: 8, 1: 8, 2: 5, 3: 3}[p])
        walls = "" if p == 0 else rng.choice(["", "", "lr", "bt", "brtl", "l", "t"])
        h0, c0, Tm, L, o, m, bath = setup(rng, d, prob, p, n, walls); kk = 2 * math.pi / L; terms = []
        still = [1 if "l" in walls or "r" in walls else 0, 2 if "b" in walls or "t" in walls else 0]
        terms += [(v, 0, rng.uniform(-0.2, 0.2) * h0 * c0) for v in (1, 2) if v not in still]
        for v, a in ((0, 0.08 * h0), (1, 0.12 * h0 * c0), (2, 0.12 * h0 * c0)):
            for _ in range(2):
                th = rng.uniform(0, 6.28); q = kk * rng.uniform(0.4, 0.8); am = a * rng.uniform(0.4, 1) / 2; w = rng.choice([-1, 1]) * c0 * q * rng.uniform(0.5, 1); ph = rng.uniform(0, 6.28)
                if v == 0 or v not in still: terms.append((v, 1, am, q * math.cos(th), q * math.sin(th), w, ph)); continue
                # no flow through the walls: sin(k s) cos(e t + w time + ph), s the distance from a wall, e the other direction, k = pi / L when the opposite side is a wall as well
                lo, hi = (("l", "r") if v == 1 else ("b", "t")); k = math.pi / L if lo in walls and hi in walls else rng.uniform(0.25, 0.6) * math.pi / L; e = q * math.sin(th); x0 = (o if v == 1 else -o) + (0 if lo in walls else L)
                for sg in (1, -1):
                    # sin A cos B = (cos(B - A) - cos(B + A)) / 2 with the sine terms of the harness
                    kx, ky = (-sg * k, e) if v == 1 else (e, -sg * k)
                    terms.append((v, 1, sg * am / 2, kx, ky, w, ph + sg * k * x0 + math.pi / 2))
        cf = rng.choice([0, 0, 0.02 * rng.random()]) * h0 / L * 3; order = 2 if prob == "ihdg" else None
        lm = m.lmin(); base = max(4, math.ceil(Tm * 1.6 * c0 * (2 * p + 1) / (0.55 * lm))); steps0 = base if prob != "ihdg" else max(4, base // 3); sc = np.array([0.08 * h0, 0.12 * h0 * c0, 0.12 * h0 * c0]); er = []
        tq = 2.0 if prob != "ihdg" else 2.0 ** ((p + 1) / order)
        for lev in range(3):
            R = go(it, d + "/%d" % lev, prob, p, m, Tm, math.ceil(steps0 * tq ** lev), terms, bath, cf, order)
            if R is None: return
            er.append(error(R, len(R.q) - 1, terms, bath, False, sc)[0]); rec = math.sqrt(np.sum((er[-1] * sc) ** 2) * R.areas().sum())
            ctx.check(abs(math.sqrt(max(R.l2sq, 0)) / rec - 1) < 1e-3, "reported-error", "%s p=%d: reported L2 error %.6g, recomputed %.6g" % (prob, p, math.sqrt(max(R.l2sq, 0)), rec), it)
            ctx.mx("reported error off", abs(math.sqrt(max(R.l2sq, 0)) / rec - 1)); tot = [math.sqrt(np.sum(e ** 2)) for e in er]
            if lev and math.log2(tot[-2] / tot[-1]) > p + 0.5: break
            if lev == 2: ctx.obs("third level")
            m = refine(m)
        rt = math.log2(tot[-2] / tot[-1]); ctx.obs("rates %s p=%d" % (prob, p)); ctx.mx("-rate %s p=%d" % (prob, p), -rt); ctx.mx("coarse error %s p=%d" % (prob, p), tot[0]); ctx.obs("walls " + ("all" if len(walls) == 4 else "some" if walls else "none"))
        if len(tot) == 3: ctx.mx("-(rate-p) third level", -(rt - p))
        ctx.check(rt > p + 0.4, "rate-%s" % prob, "%s p=%d: error falls at rate %.2f only (%s), walls %s" % (prob, p, rt, ", ".join("%.3g" % x for x in tot), walls), it)
        ctx.case(it, sample="%s p=%d order %s walls %s: %s, rate %.2f" % (prob, p, order, walls or "none", ", ".join("%.3g" % x for x in tot), rt))
    def poly(it):
        _, prob, p, k = it; rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); n = 2 if prob == "ihdg" else 4
        h0, c0, Tm, L, o, m, bath = setup(rng, d, prob, p, n); xc, yc = o + L / 2, -o + L / 2; terms = []; uni = p == 0 or k % 3 == 0
        if uni: bath = (h0, 0.0, 0.0); [m.nodes.__setitem__(i, (x, y, h0)) for i, (x, y, z) in list(m.nodes.items())]; terms.append((0, 0, rng.uniform(-0.2, 0.2) * h0))
        else: terms += [(0, 0, -bath[0] + h0), (0, 2, -bath[1], 1, 0, 0), (0, 2, -bath[2], 0, 1, 0)]       # constant depth over a plane bed
        for v in (1, 2):
            a = rng.uniform(-0.3, 0.3) * h0 * c0; gx, gy = (0, 0) if uni else [rng.uniform(-0.3, 0.3) * h0 * c0 / L for _ in range(2)]
            terms += [(v, 0, a - gx * xc - gy * yc)] + ([] if uni else [(v, 2, gx, 1, 0, 0), (v, 2, gy, 0, 1, 0)])
        cf = 0; lm = m.lmin(); steps = max(4, math.ceil(Tm * 1.6 * c0 * (2 * p + 1) / (0.55 * lm))); order = rng.choice([1, 2]) if prob == "ihdg" else None
        if prob == "ihdg": steps = max(3, steps // 4)
        R = go(it, d, prob, p, m, Tm, steps, terms, bath, cf, order)
        if R is None: return
        sc = np.array([h0, h0 * c0, h0 * c0]); w = max(max(error(R, s, terms, bath, False, sc)[1]) for s in range(len(R.q)))
        ctx.mx("steady %s" % prob, w); ctx.obs("steady %s %s steps" % ("uniform" if uni else "polynomial", prob), len(R.q) - 1)
        ctx.check(w < 1e-11, "steady-%s" % prob, "%s p=%d: a steady %s solution inside the space drifts by %.3g of its scale in %d steps" % (prob, p, "uniform" if uni else "polynomial", w, len(R.q) - 1), it); ctx.case(it)
    def clock(it):
        """solutions that are uniform in space: only the time stepping errs"""
        _, prob, p, k = it; rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); n = 2; implicit = prob == "ihdg"; order = 1 + k % 2 if implicit else None
        h0, c0, Tm, L, o, m, bath = setup(rng, d, prob, p, n); f = 40.0; o *= f
        bath = (h0, 0.0, 0.0); m.nodes = {i: (x * f, y * f, h0) for i, (x, y, z) in m.nodes.items()}; terms = []
        for v, a in ((0, 0.15 * h0), (1, 0.15 * h0 * c0), (2, 0.15 * h0 * c0)):
            terms += [(v, 0, a * rng.uniform(-0.5, 0.5)), (v, 1, a * rng.uniform(0.5, 1), 0, 0, rng.uniform(1.5, 3) / Tm * rng.choice([-1, 1]), rng.uniform(0, 6.28))]
        cf = rng.choice([0, 0.1 * rng.random()]) * h0 / (c0 * Tm); sc = np.array([0.15 * h0, 0.15 * h0 * c0, 0.15 * h0 * c0]); er = []; so, ns = (order, 1) if implicit else rng.choice([(2, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (4, 5), (4, 6), (4, 7), (4, 8)]); want = so if prob != "ehdg" else min(so, 2)
        for lev in (0, 1, 2):
            R = go(it, d + "/%d" % lev, prob, p, m, Tm, 4 * 2 ** lev, terms, bath, cf, so, ns=ns)
            if R is None: return
            er.append(max(math.sqrt(np.sum(error(R, s, terms, bath, False, sc)[0] ** 2)) for s in range(len(R.q))))
        rt = math.log2(er[1] / er[2]) if er[2] > (5e-6 if prob == "ehdg" else 1e-8) else 99.0; nm = "%s %s" % (prob, "%d/%d" % (so, ns)); ctx.mx("-time rate %s %s" % (prob, so), -rt); ctx.mx("time error %d" % so, er[0]); ctx.obs("time rates %s %d/%d" % (prob, so, ns))
        ctx.check(rt > want - 0.25, "time-rate-%s" % prob, "%s: error of a spatially uniform solution falls at rate %.2f in the time step (%s)" % (nm, rt, ", ".join("%.3g" % x for x in er)), it)
        ctx.case(it)
    def along(it):
        """water flowing along an open boundary whose normal discharge is zero: the implicit scheme's trace there (fixed cases, the same for every seed)"""
        _, prob, p, k = it; rng = random.Random("along %d %d" % (p, k)); d = ctx.dir("_".join(map(str, it))); h0, c0, Tm, L, o, m, bath = setup(rng, d, prob, p, 5); kk = math.pi / L
        terms = [(1, 0, -0.25 * h0 * c0), (0, 1, 0.05 * h0, kk * 0.7, -kk * 1.1, -c0 * kk * 0.8, 1.0), (1, 1, 0.05 * h0 * c0, kk * 0.9, 0.5 * kk, c0 * kk * 0.6, 0.4)]
        terms += [(2, 1, s_ * 0.02 * h0 * c0, 0.8 * kk, -s_ * kk, 0.7 * c0 * kk, 2.0 - s_ * kk * o + math.pi / 2) for s_ in (1, -1)]
        R = go(it, d, prob, p, m, Tm, 24, terms, bath, 0, 2 if prob == "ihdg" else None)
        if R is None: return
        sc = np.array([0.05 * h0, 0.05 * h0 * c0, 0.05 * h0 * c0]); e = [np.max(error(R, s, terms, bath, False, sc)[1]) for s in range(len(R.q))]
        ctx.mx("along %s" % prob, max(e)); ctx.obs("flow along an open boundary")
        ctx.check(max(e) < 0.2, "along-%s-%d" % (prob, k), "%s p=%d: flow along an open boundary without normal discharge: local error %.3g of the wave (%.3g at the start)" % (prob, p, max(e), e[0]), it); ctx.case(it)
    J = [("rate", pr, p, k) for k in range(ctx.n(2, 12)) for pr, ps in (("ihdg", (1, 2)), ("rkdg", (0, 1, 2, 3)), ("ehdg", (1, 2, 3))) for p in ps]
    J += [("poly", pr, p, k) for k in range(ctx.n(3, 30)) for pr, ps in (("ihdg", (1, 2)), ("rkdg", (0, 1, 2, 3, 4)), ("ehdg", (1, 2, 3))) for p in ps]
    J += [("clock", pr, p, k) for k in range(ctx.n(4, 24)) for pr, ps in (("ihdg", (1, 2)), ("rkdg", (0, 1, 2, 3)), ("ehdg", (1, 2, 3))) for p in ps]
    J += [("along", "ihdg", 2, k) for k in (4, 8)] + [("along", "ehdg", 2, k) for k in range(2)]
    ctx.par(lambda j: {"along": along, "rate": rate, "poly": poly, "clock": clock}[j[0]](j), J)
    return {"rule": "random smooth space- and time-dependent exact solutions over plane beds (with friction in a third of the cases), exterior data and source from the exact solution, random meshes and their uniform refinement with matched time steps: the error integrated independently must fall faster than h^(p+1/2); steady uniform and linear solutions must be kept to 1e-11 of their scale at every step",
            "assumptions": ["two refinement levels per solution", "implicit runs use at most 2 levels of 3 to 8 cells per side"]}
