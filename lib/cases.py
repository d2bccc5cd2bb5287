"""Generated inputs: conforming triangulations, ADCIRC files, YAML inputs, boundary data, parametric functions."""
import math, os, random, copy
import numpy as np

class Mesh:
    def __init__(self):
        self.name = "vmesh"; self.nodes = {}; self.elts = {}; self.open = []; self.land = []; self.gen = []
        # land: list of dict(ib=int, nodes=[...], conn=[...], H=[...], cs=[...], cp=[...])
    def area(self, e):
        (ax, ay, _), (bx, by, _), (cx, cy, _) = [self.nodes[n] for n in self.elts[e]]
        return 0.5 * ((bx - ax) * (cy - ay) - (cx - ax) * (by - ay))
    def edges(self):
        d = {}
        for e, ns in self.elts.items():
            for k in range(3):
                a, b = ns[(k + 1) % 3], ns[(k + 2) % 3]
                d.setdefault(frozenset((a, b)), []).append((e, k))
        return d
    def boundary_edges(self): return {k: v[0] for k, v in self.edges().items() if len(v) == 1}
    def copy(self): return copy.deepcopy(self)
    def write(self, path, prec=17):
        f = lambda v: ("%.*g" % (prec, v))
        L = [self.name, "%d %d" % (len(self.elts), len(self.nodes))]
        L += ["%d %s %s %s" % (i, f(c[0]), f(c[1]), f(c[2])) for i, c in self.nodes.items()]
        L += ["%d 3 %d %d %d" % ((e,) + tuple(n)) for e, n in self.elts.items()]
        L += ["%d = Number of open boundaries" % len(self.open), "%d = Total number of open boundary nodes" % sum(map(len, self.open))]
        for i, s in enumerate(self.open):
            L += ["%d = Number of nodes for open boundary %d" % (len(s), i + 1)] + [str(n) for n in s]
        L += ["%d = Number of land boundaries" % len(self.land), "%d = Total number of land boundary nodes" % sum(len(s["nodes"]) for s in self.land)]
        for i, s in enumerate(self.land):
            L += ["%d %d = Number of nodes for land boundary %d" % (len(s["nodes"]), s["ib"], i + 1)]
            if "conn" in s:
                L += ["%d %d %s %s %s" % (a, b, f(h), f(c), f(d)) for a, b, h, c, d in zip(s["nodes"], s["conn"], s["H"], s["cs"], s["cp"])]
            else: L += [str(n) for n in s["nodes"]]
        L += ["%d = Number of generic boundaries" % len(self.gen), "%d = Total number of generic boundary nodes" % sum(map(len, self.gen))]
        for i, s in enumerate(self.gen):
            L += ["%d = Number of nodes for generic boundary %d" % (len(s), i + 1)] + [str(n) for n in s]
        with open(path, "w") as o: o.write("\n".join(L) + "\n")
    def lmin(self):
        return min(2 * abs(self.area(e)) / max(math.dist(self.nodes[n[i]][:2], self.nodes[n[(i + 1) % 3]][:2]) for i in range(3)) for e, n in self.elts.items())

def perm_ids(rng, ids, lo=0, sparse=False):
    ids = list(ids)
    if sparse: new = rng.sample(range(lo, lo + 4 * len(ids) + 10), len(ids))
    else: new = list(range(lo, lo + len(ids))); rng.shuffle(new)
    return dict(zip(ids, new))

def grid_mesh(rng, nx=4, ny=3, box=(0., 1., 0., 1.), jitter=0.2, diag="random", bath=lambda x, y: 1.0, sides=None, shuffle=True,
              sparse=False, spin=True, hole=None, levee=None, split=True, lo=0, gap=0.0):
    """sides: dict side->'land'|'tide'|'flow'|'func' for 'b','r','t','l'. levee: dict(col, H, cs, cp) full-height wall."""
    x0, x1, y0, y1 = box
    sides = dict({"b": "land", "r": "land", "t": "land", "l": "land"}, **(sides or {}))
    m = Mesh()
    idx = lambda i, j: j * (nx + 1) + i
    pts = {}
    for j in range(ny + 1):
        for i in range(nx + 1):
            x = x0 + (x1 - x0) * i / nx; y = y0 + (y1 - y0) * j / ny
            if 0 < i < nx and not (levee and i == levee["col"]): x += jitter * (x1 - x0) / nx * rng.uniform(-1, 1)
            if 0 < j < ny and not (levee and i == levee["col"]): y += jitter * (y1 - y0) / ny * rng.uniform(-1, 1)
            pts[idx(i, j)] = (x, y)
    hole = set(hole or [])
    tri = []
    for j in range(ny):
        for i in range(nx):
            if (i, j) in hole: continue
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
            dg = {"random": rng.random() < 0.5, "a": True, "b": False, "zig": (i + j) % 2 == 0}[diag]
            # keep both triangles positively oriented
            def ar(p, q, r):
                (px, py), (qx, qy), (rx, ry) = pts[p], pts[q], pts[r]
                return (qx - px) * (ry - py) - (rx - px) * (qy - py)
            cell = (x1 - x0) / nx * (y1 - y0) / ny
            opts = [((a, b, c), (a, c, d)), ((a, b, d), (b, c, d))]
            o = opts[0 if dg else 1]
            if min(ar(*o[0]), ar(*o[1])) < 0.05 * cell: o = opts[1 if dg else 0]
            tri += [(t, i) for t in o]
    extra = {}
    if levee:
        col = levee["col"]; n0 = (nx + 1) * (ny + 1)
        for j in range(ny + 1):
            extra[idx(col, j)] = n0 + j
            x, y = pts[idx(col, j)]
            pts[n0 + j] = (x + gap, y)
        tri = [(tuple(extra.get(n, n) if ci >= col else n for n in t), ci) for t, ci in tri]
    used = sorted({n for t, _ in tri for n in t})
    nid = perm_ids(rng, used, lo, sparse) if shuffle else {n: n + lo for n in used}
    order = list(used)
    if shuffle: rng.shuffle(order)
    for n in order:
        x, y = pts[n]; m.nodes[nid[n]] = (x, y, float(bath(x, y)))
    eid = perm_ids(rng, range(len(tri)), lo, sparse) if shuffle else {i: i + lo for i in range(len(tri))}
    eo = list(range(len(tri)))
    if shuffle: rng.shuffle(eo)
    for i in eo:
        t = [nid[n] for n in tri[i][0]]
        if spin:
            s = rng.randrange(3); t = t[s:] + t[:s]
        m.elts[eid[i]] = tuple(t)
    # boundary segments
    ex = lambda n: extra.get(n, n)
    def side_nodes(s):
        if s == "b": raw = [[idx(i, 0) for i in range(nx + 1)]]
        if s == "t": raw = [[idx(i, ny) for i in range(nx, -1, -1)]]
        if s == "r": raw = [[idx(nx, j) for j in range(ny + 1)]]
        if s == "l": raw = [[idx(0, j) for j in range(ny, -1, -1)]]
        if levee and s in "bt":
            r = raw[0]; k = r.index(idx(levee["col"], 0 if s == "b" else ny))
            left = r[:k + 1] if s == "b" else r[k:]
            right = r[k:] if s == "b" else r[:k + 1]
            raw = [left, [ex(n) for n in right]]
        # drop sides broken by holes at the border: keep consecutive existing edges only
        E = {frozenset(p) for t, _ in tri for p in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))}
        out = []
        for r in raw:
            cur = [r[0]]
            for a, b in zip(r, r[1:]):
                if frozenset((a, b)) in E: cur.append(b)
                else:
                    if len(cur) > 1: out.append(cur)
                    cur = [b]
            if len(cur) > 1: out.append(cur)
        return out
    segs = []
    for s in "brtl":
        for r in side_nodes(s):
            parts = [r]
            if split and len(r) > 2 and rng.random() < 0.5:
                k = rng.randrange(1, len(r) - 1); parts = [r[:k + 1], r[k:]]
            for p in parts:
                if split and rng.random() < 0.5: p = p[::-1]
                segs.append((sides[s], [nid[n] for n in p]))
    if hole:
        be = {k: v for k, v in m.edges().items() if len(v) == 1}
        have = {frozenset(p) for _, s in segs for p in zip(s, s[1:])}
        if levee: raise ValueError
        rest = [k for k in be if k not in have]
        adj = {}
        for k in rest:
            a, b = tuple(k); adj.setdefault(a, []).append(b); adj.setdefault(b, []).append(a)
        while rest:
            a, b = tuple(rest[0]); loop = [a, b]; rest.remove(frozenset((a, b)))
            while True:
                nx_ = [c for c in adj[loop[-1]] if frozenset((loop[-1], c)) in rest]
                if not nx_: break
                rest.remove(frozenset((loop[-1], nx_[0]))); loop.append(nx_[0])
            segs.append(("land", loop))
    if split: rng.shuffle(segs)
    for kind, s in segs:
        if kind == "tide": m.open.append(s)
        elif kind == "land": m.land.append({"ib": rng.choice([0, 10, 20]) if split else 0, "nodes": s})
        elif kind == "flow": m.land.append({"ib": rng.choice([2, 12, 22]) if split else 2, "nodes": s})
        elif kind == "func": m.land.append({"ib": 77, "nodes": s})
        elif kind == "generic": m.gen.append(s)
    if levee:
        fr = [nid[idx(levee["col"], j)] for j in range(ny + 1)]; bk = [nid[extra[idx(levee["col"], j)]] for j in range(ny + 1)]
        if split and rng.random() < 0.5: fr, bk = bk, fr
        if split and rng.random() < 0.5: fr, bk = fr[::-1], bk[::-1]
        v = lambda q: [q(m.nodes[n][0], m.nodes[n][1]) if callable(q) else q for n in fr]
        m.land.insert(rng.randrange(len(m.land) + 1) if split else len(m.land),
                      {"ib": rng.choice([4, 24]) if split else 24, "nodes": fr, "conn": bk, "H": v(levee["H"]), "cs": v(levee["cs"]), "cp": v(levee["cp"])})
    return m

def write_bcis(path, tide=(), flow=(), levee=()):
    """tide/flow: list of dict(nodes=[..], con=[(freq,ff,eq,{node:(amp,phase_deg)})]); levee: list of (front, back, H, cs, cp) lists."""
    L = []
    for typ, items in ((1, tide), (2, flow)):
        for b in items:
            L.append("%d %d" % (typ, len(b["nodes"]))); L.append(str(len(b["con"])))
            for fq, ff, eq, d in b["con"]:
                L.append("%.17g %.17g %.17g" % (fq, ff, eq))
                L += ["%d %.17g %.17g" % (n, d[n][0], d[n][1]) for n in b["nodes"]]
    for rows in levee:
        L.append("%d %d" % (LEVEE_TYPE, len(rows)))
        L += ["%d %d %.17g %.17g %.17g" % r for r in rows]
    with open(path, "w") as f: f.write("\n".join(L) + ("\n" if L else ""))
LEVEE_TYPE = 129  # SWE::BoundaryTypes::levee = internal (1<<7) + 1

def tmpl(t):
    s = int(round(t)); d, r = divmod(s, 86400)
    return "%02d-01-2020 %02d:%02d:%02d" % (1 + d, r // 3600, r % 3600 // 60, r % 60)

def write_input(path, mesh_file, prob="rkdg_swe", p=1, dt=0.01, T=1, order=None, nstages=None, ramp=None, fmt="Adcirc", coord="cartesian",
                problem=None, out=None, modal=None, vtk=None, vtu=None, log=None, start=0):
    if order is None: order = {1: 2, 2: 3, 3: 4}.get(p, 4)
    if nstages is None: nstages = {1: 1, 2: 2, 3: 3, 4: 5}[order]
    L = ["mesh:", "  format: %s" % fmt, "  file_name: %s" % mesh_file, "  coordinate_system: %s" % coord, "timestepping:",
         "  start_time: %s" % tmpl(start), "  end_time: %s" % tmpl(start + T), "  dt: %.17g" % dt, "  order: %d" % order, "  nstages: %d" % nstages]
    if ramp is not None: L.append("  ramp_duration: %.17g" % ramp)
    L += ["polynomial_order: %d" % p, "problem:", "  name: %s" % prob]
    def emit(d, ind):
        for k, v in d.items():
            if isinstance(v, dict): L.append(" " * ind + k + ":"); emit(v, ind + 2)
            elif isinstance(v, float): L.append(" " * ind + "%s: %.17g" % (k, v))
            else: L.append(" " * ind + "%s: %s" % (k, v))
    emit(problem or {}, 2)
    if out is not None:
        L += ["output:", "  path: %s" % out]
        if log: L += ["  logfile:", "    name: %s" % log[0], "    verbose: %s" % log[1]]
        for k, v in (("modal", modal), ("vtk", vtk), ("vtu", vtu)):
            if v is not None: L += ["  %s:" % k, "    frequency: %.17g" % v]
    with open(path, "w") as f: f.write("\n".join(L) + "\n")

def write_fn(path, terms, mode="f", g=9.81, bath=(0, 0, 0), cf=0.0, vel=False):
    """terms: list of (var, kind, a, p...)"""
    with open(path, "w") as f:
        f.write("%s %.17g %.17g %.17g %.17g %.17g %d %d\n" % (mode, g, bath[0], bath[1], bath[2], cf, int(vel), len(terms)))
        for t in terms:
            pp = list(t[3:]) + [0.0] * (6 - len(t[3:]))
            f.write("%d %d %.17g %s\n" % (t[0], t[1], t[2], " ".join("%.17g" % v for v in pp)))

def eval_fn(terms, t, x, y, bath=(0, 0, 0), vel=False):
    """Independent evaluation of the parametric function: arrays (ze,qx,qy)."""
    w = [np.zeros_like(x), np.zeros_like(x), np.zeros_like(x)]
    for k in terms:
        if k[0] > 2: continue
        var, kind, a = k[:3]; p = list(k[3:]) + [0.0] * 6
        if kind == 0: r = a + 0 * x
        elif kind == 1: r = a * np.sin(p[0] * x + p[1] * y + p[2] * t + p[3])
        elif kind == 2: r = a * x ** int(p[0]) * y ** int(p[1]) * t ** int(p[2])
        elif kind == 3: r = a * np.exp(-((x - p[0]) ** 2 + (y - p[1]) ** 2) / p[2] ** 2)
        elif kind == 4: r = np.where((x - p[0]) * p[2] + (y - p[1]) * p[3] > 0, a, 0.0)
        w[var] = w[var] + r
    if vel:
        h = w[0] + bath[0] + bath[1] * x + bath[2] * y
        w[1] = w[1] * h; w[2] = w[2] * h
    return w
