"""C25: the real quad_mesh_generator over generated requests: tiling, conformity, orientation, patterns, boundary segments, forcing files; the emitted files are then simulated (ASan/UBSan)."""
import math, os
import numpy as np
import build, core, cases as C, gen, grids as G
SIDES = ["land", "tide", "flow", "function", "outflow"]; CODE = {"land": 0, "flow": 2, "function": 77, "outflow": 88}; KIND = {"land": "Land", "tide": "Tide", "flow": "Flow", "function": "Function"}
ENV = {"ASAN_OPTIONS": "detect_leaks=0"}
def write(path, q, drop=None):
    L = []
    for k in ("x1", "y1", "x2", "y2", "x3", "y3", "x4", "y4"):
        if k != drop: L.append("%s: %s" % (k, repr(q[k])))
    for k in ("num_x_subdivisions", "num_y_subdivisions", "pattern"):
        if k != drop: L.append("%s: %s" % (k, q[k]))
    if drop != "boundary":
        L.append("boundary:")
        for b in q["boundary"]:
            L.append("  - type: %s" % b["type"])
            for k in ("frequency", "forcing_factor", "equilibrium_argument"):
                if k in b and k != drop: L.append("    %s: %s" % (k, repr(b[k])))
    if q.get("mesh_name"): L.append("mesh_name: %s" % q["mesh_name"])
    open(path, "w").write("\n".join(L) + "\n")
def request(rng, k, sim):
    m, n = rng.randint(1, 9), rng.randint(1, 9)
    if k % 12 == 0: m, n = rng.choice([(1, 1), (1, rng.randint(10, 60)), (rng.randint(10, 60), 1), (40, 25)])
    if sim: w, h = 60.0 * m * rng.uniform(1, 3), 60.0 * n * rng.uniform(1, 3); x0, y0 = rng.uniform(-1e4, 1e4), rng.uniform(-1e4, 1e4)
    else: s = 10.0 ** rng.uniform(-8, 6); w, h = s * rng.uniform(.1, 3), s * rng.uniform(.1, 3); x0, y0 = (rng.choice([0, 0, 1, -1, 100]) * s * rng.uniform(0, 2) for _ in range(2))
    if k % 4 == 1: x0, y0, w, h = [round(v) if v > 2 else v for v in (x0, y0, w, h)]
    P = [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]; rect = k % 3 != 2
    if not rect:
        P = [(x + rng.uniform(-.2, .2) * w, y + rng.uniform(-.2, .2) * h) for x, y in P]; t = rng.uniform(0, 6.28); c, s = math.cos(t), math.sin(t); P = [(c * x - s * y, s * x + c * y) for x, y in P]
    q = {"num_x_subdivisions": m, "num_y_subdivisions": n, "pattern": rng.randrange(3), "boundary": []}
    for i, p in enumerate(P): q["x%d" % (i + 1)], q["y%d" % (i + 1)] = p
    for _ in range(4):
        b = {"type": rng.choice(SIDES[:4] if sim else SIDES)}
        if b["type"] in ("tide", "flow"): b.update(frequency=rng.choice([0.0, 1.4051890250e-4 * rng.uniform(.5, 2)]), forcing_factor=rng.uniform(.5, 1.5), equilibrium_argument=rng.uniform(0, 360))
        q["boundary"].append(b)
    return q, P, rect
def run(ctx):
    T = build.generator("asan"), build.rec_serial("rkdg")
    for t in T: t.submit()
    exe, rec_exe = T[0].path(), T[1].path()
    def call(d, name):
        for attempt in (0, 1):
            r = core.run_proc([exe, name], cwd=d, env=ENV, timeout=60)
            if not core.again(r, attempt): break
        return r
    def one(k):
        rng = ctx.rng("g", k); d = ctx.dir("g%d" % k); sim = k % 3 == 0; q, P, rect = request(rng, k, sim); nm = rng.choice([None, "mesh_a", "sub/m1"]); q["mesh_name"] = nm
        os.makedirs(d + "/sub", exist_ok=True); write(d + "/g.yml", q); r = call(d, "g.yml"); nm = nm or "quad_mesh"
        if not ctx.check(r.rc == 0 and "Sanitizer" not in r.err and "runtime error" not in r.err and os.path.exists("%s/%s.14" % (d, nm)) and os.path.exists("%s/%s.bcis" % (d, nm)), "run", "%r" % r, k): return
        try: g = G.parse14(open("%s/%s.14" % (d, nm)).read())
        except G.Bad as e: ctx.bad("format", "not a grid file: %s" % e, k); return
        m, n = q["num_x_subdivisions"], q["num_y_subdivisions"]; A = np.array(P); size = max(np.max(A, 0) - np.min(A, 0)); eps = 8e-16 * (np.max(np.abs(A)) + size)
        ctx.check(len(g["N"]) == (m + 1) * (n + 1) and len(g["E"]) == 2 * m * n, "count", "%d nodes, %d elements for %d x %d cells" % (len(g["N"]), len(g["E"]), m, n), k)
        # every requested grid point is there exactly once
        ids = {}; X = np.array([c[:2] for c in g["N"].values()]); key = list(g["N"]); used = set()
        for j in range(n + 1):
            for i in range(m + 1):
                s, t = i / m, j / n; p = (1 - s) * (1 - t) * A[0] + s * (1 - t) * A[1] + s * t * A[2] + (1 - s) * t * A[3]
                dist = np.max(np.abs(X - p), 1); w = int(np.argmin(dist)); ctx.mx("position error / eps", dist[w] / eps)
                if not ctx.check(dist[w] <= 4 * eps, "position", "no node at grid point (%d, %d): nearest is off by %.3g of extent %.3g" % (i, j, dist[w], size), k): return
                ids[key[w]] = (i, j); used.add(w)
        ctx.check(len(used) == len(key), "position-twice", "grid points are not distinct nodes", k)
        ctx.check(all(math.isfinite(c[2]) for c in g["N"].values()), "depth", "depth is not finite", k)
        cell = {}; E = {}; area = 0.0
        for e, t in g["E"].items():
            if not ctx.check(t[0] == 3 and all(v in ids for v in t[1:]) and len(set(t[1:])) == 3, "element", "element %d: %s" % (e, t), k): return
            I = np.array([ids[v] for v in t[1:]]); lo = tuple(I.min(0)); ctx.check(tuple(I.max(0) - I.min(0)) == (1, 1), "cell", "element %d spans %s" % (e, I.tolist()), k)
            Q = np.array([g["N"][v][:2] for v in t[1:]]); a = 0.5 * ((Q[1, 0] - Q[0, 0]) * (Q[2, 1] - Q[0, 1]) - (Q[2, 0] - Q[0, 0]) * (Q[1, 1] - Q[0, 1])); area += a
            ctx.check(a > 0, "orientation", "element %d is clockwise or degenerate (%.3g)" % (e, a), k); miss = [v for v in ((0, 0), (1, 0), (0, 1), (1, 1)) if (lo[0] + v[0], lo[1] + v[1]) not in {tuple(x) for x in I.tolist()}][0]
            cell.setdefault(lo, []).append(miss)
            for j in range(3): E.setdefault(frozenset((t[1 + j], t[1 + (j + 1) % 3])), []).append((t[1 + j], t[1 + (j + 1) % 3]))
        ctx.check(len(cell) == m * n and all(len(v) == 2 and (v[0][0] + v[1][0], v[0][1] + v[1][1]) == (1, 1) for v in cell.values()), "tiling", "cells are not covered by two complementary triangles: %s" % [c for c, v in cell.items() if len(v) != 2][:4], k)
        shoe = 0.5 * abs(sum(P[i][0] * P[(i + 1) % 4][1] - P[(i + 1) % 4][0] * P[i][1] for i in range(4))); ctx.check(abs(area - shoe) <= 20 * eps * size * (m + n), "area", "area %.17g instead of %.17g" % (area, shoe), k)
        ctx.check(all(len(v) == 1 or (len(v) == 2 and v[0] == v[1][::-1]) for v in E.values()), "conformity", "edge not shared by two opposite elements", k)
        diag = {c: sum(v[0]) % 2 for c, v in cell.items()}       # which of the two diagonals
        for (i, j), v in diag.items():
            for o, rel in (((i + 1, j), {0: 0, 1: 0, 2: 1}[q["pattern"]]), ((i, j + 1), {0: 0, 1: 1, 2: 1}[q["pattern"]])):
                if o in diag: ctx.check((v ^ diag[o]) == rel, "pattern-%d" % q["pattern"], "diagonals of cells %s and %s" % ((i, j), o), k)
        S = [[(i, 0) for i in range(m + 1)], [(m, j) for j in range(n + 1)], [(i, n) for i in range(m + 1)], [(0, j) for j in range(n + 1)]]
        segs = [("tide", s) for s in g["open"]] + [({0: "land", 2: "flow", 77: "function", 88: "outflow"}.get(x["ib"], "?%d" % x["ib"]), x["nodes"]) for x in g["land"]]; tm = {}
        ctx.check(len(segs) == 4 and not g["gen"], "segments", "%d segments" % len(segs), k)
        for side in range(4):
            f = [ty for ty, s in segs if [ids.get(v) for v in s] in (S[side], S[side][::-1])]; want = q["boundary"][side]["type"]
            ctx.check(want in f and (len(f) == 1 or (m == 1 or n == 1)), "side-%s" % want, "side %d: %s instead of %s" % (side, f, want), k); ctx.obs("side " + want)
        c = g["counts"]; no = sum(len(s) for s in g["open"]); nl = sum(len(x["nodes"]) for x in g["land"]); ctx.check(c[:4] == [len(g["open"]), no, len(g["land"]), nl], "totals", "%s" % c, k)
        # forcing file
        tok = [l.split() for l in open("%s/%s.bcis" % (d, nm)).read().splitlines() if l.split()]; got = []; i = 0
        while i < len(tok):
            ty, nn, nc = int(tok[i][0]), int(tok[i][1]), int(tok[i + 1][0]); con = []; i += 2
            for _ in range(nc): con.append((tuple(map(float, tok[i])), [(int(a), float(b), float(z)) for a, b, z in tok[i + 1:i + 1 + nn]])); i += 1 + nn
            got.append((ty, con))
        want = [(1 if b["type"] == "tide" else 2, (b["frequency"], b["forcing_factor"], b["equilibrium_argument"]), side) for side, b in enumerate(q["boundary"]) if b["type"] in ("tide", "flow")]
        ok = len(got) == len(want)
        for ty, vals, side in want:
            f = [x for x in got if x[0] == ty and len(x[1]) == 1 and x[1][0][0] == vals and [ids.get(v[0]) for v in x[1][0][1]] in (S[side], S[side][::-1])]
            ctx.check(len(f) >= 1, "forcing", "side %d: forcing %s not in the boundary file (%s)" % (side, vals, [(x[0], x[1][0][0]) for x in got]), k); ctx.obs("forced sides")
        ctx.check(ok, "forcing-count", "%d forced sides instead of %d" % (len(got), len(want)), k)
        if sim:
            C.write_fn(d + "/fn.txt", [(0, 0, 0.05), (1, 0, 0.0), (2, 0, 0.0)]); os.makedirs(d + "/out", exist_ok=True)
            C.write_input(d + "/in.15", nm + ".14", prob="rkdg_swe", p=1, dt=0.25, T=1, problem={"initial_conditions": {"type": "Constant", "initial_surface_height": 0.1, "initial_momentum_x": 0.0, "initial_momentum_y": 0.0}}, out="out/", modal=0.25)
            r, rec = core.sim(ctx, rec_exe, d, ["in.15"], env={"VERIF_FN": d + "/fn.txt"})
            if ctx.check(r.rc == 0 and rec and rec.end, "simulate", "the generated mesh does not run: %r %s" % (r, rec and rec.exc), k):
                ctx.check(len(rec.elt) == 2 * m * n and len(rec.ints) == 3 * m * n - m - n and len(rec.bnds) == 2 * (m + n), "simulate-size", "%d elements, %d interfaces, %d boundaries" % (len(rec.elt), len(rec.ints), len(rec.bnds)), k); cnt = {}
                for b in rec.bnds: cnt[b[0].split("::")[-1]] = cnt.get(b[0].split("::")[-1], 0) + 1
                exp = {}
                for s in range(4): t = KIND[q["boundary"][s]["type"]]; exp[t] = exp.get(t, 0) + (m if s % 2 == 0 else n)
                ctx.check(cnt == exp, "simulate-kind", "%s instead of %s" % (cnt, exp), k); ctx.check(np.all(np.isfinite(rec.q[-1])), "simulate-finite", "", k); ctx.obs("meshes simulated")
        ctx.obs("meshes"); ctx.obs("pattern %d" % q["pattern"]); ctx.case(("g", k), sample={"cells": [m, n], "pattern": q["pattern"], "rectangle": rect, "extent": size, "sides": [b["type"] for b in q["boundary"]]})
    ctx.par(one, range(ctx.n(180, 2400)))
    def invalid(k):
        rng = ctx.rng("i", k); d = ctx.dir("i%d" % k); q, P, rect = request(rng, k, False); kind = ["x1", "y3", "num_x_subdivisions", "pattern", "boundary", "pattern3", "pattern256", "sides3", "sides5", "type", "frequency", "zero_x", "zero_y", "text", "outdir", "nofile"][k % 16]; drop = kind if kind in q or kind in ("frequency",) else None
        if kind == "pattern3": q["pattern"] = rng.choice([3, 4, 17, 255])
        if kind == "pattern256": q["pattern"] = rng.choice([256, 257, 2 ** 16, 2 ** 32, -1])
        if kind == "sides3": q["boundary"].pop()
        if kind == "sides5": q["boundary"].append({"type": "land"})
        if kind == "type": q["boundary"][rng.randrange(4)] = {"type": rng.choice(["wall", "Land", "levee", "internal"])}
        if kind == "frequency": q["boundary"][rng.randrange(4)] = {"type": rng.choice(["tide", "flow"]), "forcing_factor": 1.0, "equilibrium_argument": 0.0}
        if kind == "zero_x": q["num_x_subdivisions"] = 0
        if kind == "zero_y": q["num_y_subdivisions"] = 0
        if kind == "text": q["num_x_subdivisions"] = rng.choice(["many", "-3", "2.5"])
        q["mesh_name"] = "nodir/m" if kind == "outdir" else "m"; write(d + "/g.yml", q, drop); r = call(d, "g.yml" if kind != "nofile" else "none.yml")
        ctx.check(not r.timeout and (r.rc not in (0, None) or r.sig == 6) and "Sanitizer" not in r.err, "accepted-" + kind, "an invalid request (%s) was not refused: %r" % (kind, r), k); ctx.obs("invalid requests refused"); ctx.case(("i", k))
    ctx.par(invalid, range(ctx.n(64, 480)))
    return {"rule": "random rectangles and convex quadrilaterals (extent 1e-8..1e6, offsets), 1..60 cells a side, all patterns and side types: node positions, complementary triangles per cell, orientation, conformity, diagonal pattern, four connected segments of the requested type, forcing values bit for bit; a third of the meshes is simulated; invalid requests are refused; ASan/UBSan clean"}
