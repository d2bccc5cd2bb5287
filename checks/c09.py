"""C09: inventory of the mesh (and HDG skeleton) that the real simulation assembles, for every problem type, compared with the grid: every edge exactly once, with the prescribed kind and the right two sides."""
import os, struct
import numpy as np
import build, core, cases as C, gen, grids as G
NONE = 2 ** 32 - 1; KIND = {0: "Land", 1: "Tide", 2: "Flow", 3: "Function"}
def short(s): return s.split("::")[-1]
def expected(m):
    """per element: (ccw corner cycle, neighbour by edge, type by edge)"""
    T, P = G.classify(m); E = m.edges(); out = {}
    for e, t in m.elts.items():
        c = t if m.area(e) > 0 else t[::-1]; r = {}
        for j in range(3):
            ed = frozenset((c[(j + 1) % 3], c[(j + 2) % 3])); own = E[ed]
            if len(own) == 2: r[ed] = ([o for o, _ in own if o != e][0], G.INTERNAL, ed)
            elif T[ed] == G.LEVEE: r[ed] = (E[P[ed]][0][0], G.LEVEE, P[ed])
            else: r[ed] = (NONE, T[ed], None)
        out[e] = (c, r)
    return out
def write_meta(path, m, exp, tweak=None):
    """Meta-format mesh file of the internal representation; tweak(e, j, neighbour, type) may change entries"""
    with open(path, "wb") as f:
        f.write(b"vm\n%d = number of elements\n" % len(m.elts))
        for e, (c, r) in exp.items():
            nb = []; ty = []
            for j in range(3):
                x, t, _ = r[frozenset((c[(j + 1) % 3], c[(j + 2) % 3]))]
                if tweak: x, t = tweak(e, j, x, t)
                nb.append(x); ty.append(t)
            f.write(b"%d 3 " % e + b" ".join(b"%d" % v for v in list(c) + nb) + b" " + b" ".join(bytes([t]) for t in ty) + b"\n")
        f.write(b"%d = number of nodes\n" % len(m.nodes)); f.write(b"".join(b"%d %.17g %.17g %.17g\n" % ((i,) + tuple(c)) for i, c in m.nodes.items()))
def bcis(rng, m, drop=None):
    def group(nodes): return {"nodes": list(dict.fromkeys(nodes)) if nodes[0] != nodes[-1] else list(nodes), "con": [(1e-4, 1.0, 0.0, {n: (0.1, 10.0) for n in nodes})]}
    tide = [group(s) for s in m.open if len(s) > 1]; flow = [group(d["nodes"]) for d in m.land if d["ib"] % 10 == 2 and d["ib"] != 77]; lev = [list(zip(d["nodes"], d["conn"], d["H"], d["cs"], d["cp"])) for d in m.land if "conn" in d]
    rng.shuffle(tide); rng.shuffle(flow); rng.shuffle(lev)
    if drop == "tide": tide.pop()
    if drop == "flow": flow.pop()
    if drop == "levee": lev[-1] = lev[-1][1:]
    return tide, flow, lev
def run(ctx):
    T = {p: build.rec_serial(p) for p in ("gn", "ihdg", "ehdg", "rkdg")}
    for t in T.values(): t.submit()
    EXE = {p: t.path() for p, t in T.items()}
    def sim(d, prob, m, rng, fmt, drop=None, tweak=None, p=1):
        exp = expected(m) if fmt == "Meta" else None
        if fmt == "Meta": write_meta(d + "/a.meta", m, exp, tweak); mf = "a.meta"
        else: m.write(d + "/a.14"); mf = "a.14"
        tide, flow, lev = bcis(rng, m, drop); C.write_bcis(d + "/a.bcis", tide, flow, lev)
        C.write_input(d + "/in.15", mf, prob=gen.NAMES[prob], p=p, dt=0.5, T=1, fmt=fmt, order=1 if prob == "ihdg" else None, problem={"initial_conditions": {"type": "Constant", "initial_surface_height": 0.0, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}}, out="out/")
        os.makedirs(d + "/out", exist_ok=True); return core.sim(ctx, EXE[prob], d, ["in.15"], env={"REC_NORUN": "1"})
    def one(it):
        prob, k = it; rng = ctx.rng("m", *it); d = ctx.dir("m%s%d" % it)
        while True:
            m = G.rand_grid(rng, 8 if k % 10 == 0 else 5)
            ty = {t for t in G.classify(m)[0].values()}
            if k % 8 and (G.OUT in ty or (prob != "rkdg" and G.LEVEE in ty)): continue
            break
        # overlapping segments are resolved in the grid's own order
        must = "refused" if any(t == G.OUT for c, r in expected(m).values() for _, t, _ in r.values()) or (prob != "rkdg" and any("conn" in x for x in m.land)) else "run"
        fmt = "Meta" if k % 3 == 2 else "Adcirc"; p = rng.choice([1, 1, 2, 3]) if prob != "gn" else rng.choice([1, 2])
        r, rec = sim(d, prob, m, rng, fmt, p=p); det = "%s %s: %r %s" % (prob, fmt, r, rec and rec.exc)
        if must == "refused": ctx.check(r.rc == 66, "outflow-accepted-" + prob, "a boundary without treatment was accepted: " + det, it); ctx.obs("untreatable grids refused"); ctx.case(it); return
        if not ctx.check(r.rc == 0 and rec and rec.end, "assemble-" + prob, "valid mesh not assembled: " + det, it): return
        exp = expected(m); ctx.check("dup" not in rec.extra and set(rec.elt) == set(m.elts) and int(rec.mesh[rec.mesh.index("nelt") + 1]) == len(m.elts), "elements-" + prob, "elements: %s" % sorted(set(rec.elt) ^ set(m.elts))[:5], it)
        if set(rec.elt) != set(m.elts): return
        face = {}
        for e, x in rec.elt.items():
            c, rr = exp[e]; N = x["N"]
            if not ctx.check(sorted(N) == sorted(c), "corners-" + prob, "element %d has nodes %s instead of %s" % (e, N, c), it): return
            for j in range(3):
                ed = frozenset((N[(j + 1) % 3], N[(j + 2) % 3])); face[e, j] = ed; nb, ty, _ = rr[ed]
                ctx.check(x["G"][j] == nb and x["T"][j] == ty, "adjacency-" + prob, "element %d face %d: neighbour %d type %d instead of %d, %d" % (e, j, x["G"][j], x["T"][j], nb, ty), it)
            X = np.array([m.nodes[n] for n in N]); Y = x["X"]
            ctx.check(any(np.allclose(np.roll(X, s, 0), Y, rtol=2e-15, atol=0) for s in range(3)), "coordinates-" + prob, "element %d: %s instead of %s" % (e, Y.tolist(), X.tolist()), it)
            ctx.check(np.allclose(X, Y, rtol=2e-15, atol=0), "node-order-" + prob, "element %d: nodes %s do not belong to its corners" % (e, N), it)
        want = {}
        for e, (c, rr) in exp.items():
            for ed, (nb, ty, other) in rr.items():
                if nb == NONE: want[frozenset([(e, ed)])] = KIND[ty]
                else: want[frozenset([(e, ed), (nb, other)])] = "Internal" if ty == G.INTERNAL else "Levee"
        def inventory(ints, bnds, what):
            seen = {}
            for t in ints:
                a, b = (t[1], t[2]), (t[3], t[4])
                if a[0] not in rec.elt or b[0] not in rec.elt or not (a[1] < 3 and b[1] < 3): ctx.bad(what + "-dangling-" + prob, "%s" % (t,), it); continue
                seen.setdefault(frozenset([(a[0], face[a]), (b[0], face[b])]), []).append(short(t[0]))
            for t in bnds:
                a = (t[1], t[2])
                if a[0] not in rec.elt or a[1] > 2: ctx.bad(what + "-dangling-" + prob, "%s" % (t,), it); continue
                seen.setdefault(frozenset([(a[0], face[a])]), []).append(short(t[0]))
            for q, ty in want.items():
                g = seen.get(q, [])
                ctx.check(len(g) == 1, what + ("-missing-" if not g else "-twice-") + prob, "edge %s (%s) occurs %d times" % ([(e, sorted(x)) for e, x in q], ty, len(g)), it)
                if g: ctx.check(g[0] == ty, what + "-kind-" + prob, "edge %s is %s instead of %s" % ([(e, sorted(x)) for e, x in q], g[0], ty), it)
                ctx.obs("%s %s" % (what, ty))
            x = [q for q in seen if q not in want]; ctx.check(not x, what + "-extra-" + prob, "%s" % [[(e, sorted(v)) for e, v in q] for q in x[:3]], it)
        inventory(rec.ints, rec.bnds, "edge"); ctx.check(not rec.dsts and not rec.ed, "distributed-" + prob, "distributed boundaries in a serial run", it)
        if prob != "rkdg": inventory(rec.ei, rec.eb, "skeleton")
        ctx.obs("meshes " + prob); ctx.case(it, sample={"problem": prob, "format": fmt, "elements": len(m.elts), "interfaces": len(rec.ints), "boundaries": len(rec.bnds)})
    ctx.par(one, [(p, k) for p in EXE for k in range(ctx.n(180 if p == "rkdg" else 60, 700))])
    def broken(it):
        prob, k = it; rng = ctx.rng("x", *it); d = ctx.dir("x%s%d" % it); kind = ("asym", "type", "self", "ghost", "tide", "flow", "levee", "twin", "island")[k % 9]; tweak = drop = None; fmt = "Meta"
        if kind in ("tide", "flow", "levee"): fmt = "Adcirc"
        for _ in range(400):
            m = G.rand_grid(rng, 5, coords=False); ty = [t for c, r in expected(m).values() for _, t, _ in r.values()]
            if G.OUT in ty or (G.LEVEE in ty) != (kind == "levee") or not {"tide": m.open, "flow": [x for x in m.land if x["ib"] % 10 == 2 and x["ib"] != 77]}.get(kind, True) or any(len(s) < 2 for s in m.open): continue
            break
        else: return
        if kind == "levee" and prob != "rkdg": return
        if kind in ("tide", "flow", "levee"): drop = kind
        e0 = rng.choice(list(m.elts)); j0 = rng.randrange(3); ids = list(m.elts); c0, r0 = expected(m)[e0]; nb0, ty0, _ = r0[frozenset((c0[(j0 + 1) % 3], c0[(j0 + 2) % 3]))]
        if kind == "asym": o = rng.choice([x for x in ids if x != e0 and x not in [v[0] for v in r0.values()]] or [e0]); tweak = lambda e, j, x, t: (o, 128) if (e, j) == (e0, j0) else (x, t)
        if kind == "type":
            if ty0 != 128: return
            tweak = lambda e, j, x, t: (NONE, 0) if (e, j) == (e0, j0) else (x, t)
        if kind == "self": tweak = lambda e, j, x, t: (e0, 128) if (e, j) == (e0, j0) else (x, t)
        if kind == "ghost": tweak = lambda e, j, x, t: (max(ids) + 9, 128) if (e, j) == (e0, j0) else (x, t)
        if kind == "twin":         # two faces towards the same neighbour
            o = [v[0] for v in r0.values() if v[1] == 128]
            if not o or len(o) == 3: return
            tweak = lambda e, j, x, t: (o[0], 128) if e == e0 else (x, t)
        if kind == "island": tweak = lambda e, j, x, t: (x, 5 if (e, j) == (e0, j0) else t)
        r, rec = sim(d, prob, m, rng, fmt, drop, tweak); ctx.check(r.rc == 66, "broken-%s" % kind, "%s: an inconsistent mesh (%s) was assembled: %r" % (prob, kind, r), it); ctx.obs("inconsistent meshes refused"); ctx.case(("x",) + it)
    ctx.par(broken, [(p, k) for p in ("rkdg", "ehdg", "ihdg", "gn") for k in range(ctx.n(27, 270))])
    return {"rule": "random grids (all segment kinds, islands, levees, generic, clockwise elements, sparse ids, Adcirc and Meta formats) through the real constructor of each of the four problems: elements, interfaces, boundaries and skeleton edges compared as sets of (element, edge) with the grid; meshes without a consistent assembly must be refused"}
