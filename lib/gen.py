"""Simulation cases shared by several checks."""
import copy, math, os, random
import numpy as np
import cases as C
NAMES = {"rkdg": "rkdg_swe", "ehdg": "ehdg_swe", "ihdg": "ihdg_swe", "gn": "ehdg_gn"}

def scale(m, f, off=(0., 0.)):
    for n, (x, y, z) in list(m.nodes.items()): m.nodes[n] = (x * f + off[0], y * f + off[1], z)
    return m

def rand_mesh(rng, nmax=5, hole=None, **kw):
    nx, ny = rng.randint(2, nmax), rng.randint(2, nmax)
    if hole is None: hole = rng.random() < 0.25 and nx >= 4 and ny >= 4
    h = [(rng.randint(1, nx - 2), rng.randint(1, ny - 2))] if hole else None
    ax = rng.uniform(0.5, 2.0)
    return C.grid_mesh(rng, nx, ny, box=(0., float(nx) * ax, 0., float(ny)), jitter=kw.pop("jitter", rng.choice([0, 0.15, 0.3])),
                       diag=rng.choice(["random", "a", "b", "zig"]), hole=h, **kw)

def bbox(m):
    P = np.array([c[:2] for c in m.nodes.values()]); return P.min(0), P.max(0)

def turn(m, a):
    """rotate a mesh by an angle about the centre of its box"""
    lo, hi = bbox(m); cx, cy = (lo + hi) / 2; c, s = math.cos(a), math.sin(a)
    for n, (x, y, z) in list(m.nodes.items()): m.nodes[n] = (float(cx + c * (x - cx) - s * (y - cy)), float(cy + s * (x - cx) + c * (y - cy)), z)
    return m

class SimCase:
    """Random geometry scaled so that the explicit time step is stable; prepared in directory d."""
    def __init__(self, rng, d, prob="rkdg", p=None, steps=None, h0=None, bath="random", mesh=None, cfl=0.25, umax=0.0, offset=None, amp_b=0.5, turned=False):
        self.rng, self.d, self.prob = rng, d, prob
        self.p = p if p is not None else rng.choice([1, 1, 2, 3])
        self.steps = steps or rng.randint(8, 24)
        self.T = rng.randint(1, 40); self.dt = self.T / self.steps
        self.h0 = h0 or math.exp(rng.uniform(math.log(0.5), math.log(20.0)))
        self.mesh = mesh or rand_mesh(rng)
        # sides in any direction (drawn aside, so that the rest of a case does not depend on it)
        r2 = random.Random(repr((self.p, self.T, self.h0))); a = r2.uniform(0, 2 * math.pi)
        if (mesh is None or turned) and r2.random() < 0.7: turn(self.mesh, a)
        c = math.sqrt(9.81 * self.h0 * (1 + amp_b)) + umax
        scale(self.mesh, c * self.dt * (2 * self.p + 1) / (cfl * self.mesh.lmin()))
        if offset is None: offset = rng.choice([0, 0, 1]) * rng.uniform(-3, 3)
        lo, hi = bbox(self.mesh); s = float(max(hi - lo))
        scale(self.mesh, 1.0, (offset * s, -0.7 * offset * s))
        self.lo, self.hi = bbox(self.mesh); self.size = float(max(self.hi - self.lo))
        if bath != "keep": self.set_bath(bath, amp_b)
        self.problem = {}; self.env = {}; self.kw = {}; self.terms = []
    def set_bath(self, kind, amp=0.5):
        rng, h = self.rng, self.h0
        if kind == "flat": f = lambda x, y: h
        elif kind == "random": f = lambda x, y: h * (1 + amp * rng.uniform(-1, 1))
        elif kind == "wavy":
            k = 2 * math.pi / self.size * rng.uniform(0.5, 1.5); a = rng.uniform(0, 6)
            f = lambda x, y: h * (1 + amp * math.sin(k * x + a) * math.cos(k * y - a))
        elif kind == "slope":
            th = rng.uniform(0, 2 * math.pi); cx, cy = (self.lo + self.hi) / 2
            f = lambda x, y: h * (1 + amp * 1.2 * ((x - cx) * math.cos(th) + (y - cy) * math.sin(th)) / self.size)
        else: f = kind
        for n, (x, y, z) in list(self.mesh.nodes.items()): self.mesh.nodes[n] = (x, y, float(f(x, y)))
    def waves(self, amp=0.1, mom=0.1, n=2):
        """random smooth initial state (relative amplitudes)"""
        r = self.rng; T = []
        for v, a in ((0, amp * self.h0), (1, mom * self.h0 ** 1.5 * 3), (2, mom * self.h0 ** 1.5 * 3)):
            for _ in range(n):
                k = 2 * math.pi / self.size
                T.append((v, 1, a * r.uniform(0.3, 1) / n, k * r.uniform(-1.2, 1.2), k * r.uniform(-1.2, 1.2), 0.0, r.uniform(0, 6.28)))
        self.function(T); return T
    def function(self, terms, **kw):
        self.terms = terms
        C.write_fn(os.path.join(self.d, "fn.txt"), terms, **kw)
        self.env["VERIF_FN"] = os.path.join(self.d, "fn.txt")
        self.problem["initial_conditions"] = {"type": "Function"}
    def manning(self, lo=0.01, hi=0.06, cmin=0.001):
        with open(os.path.join(self.d, "manning.dat"), "w") as f:
            self.mann = {n: self.rng.uniform(lo, hi) for n in self.mesh.nodes}
            for n in self.mesh.nodes: f.write("%d %.17g\n" % (n, self.mann[n]))
        self.problem["bottom_friction"] = {"type": "Manning", "coefficient": cmin, "input_file": "manning.dat"}
    def meteo(self, every=2, tau=1.0, p=100.0):
        """wind stress and air pressure files, one per `every` steps; c.met[step] = {node: (tau_x, tau_y, p)}"""
        r = self.rng; self.met_every = every; self.met = {}
        for s in range(0, self.steps + 2 * every, every):
            self.met[s] = {n: (tau * r.uniform(-1, 1), tau * r.uniform(-1, 1), p * r.uniform(-1, 1)) for n in self.mesh.nodes}
            with open(os.path.join(self.d, "wind_%d.txt" % s), "w") as f:
                for n in sorted(self.mesh.nodes, key=lambda _: r.random()): f.write("%d %.17g %.17g %.17g\n" % ((n,) + self.met[s][n]))
        self.problem["meteo_forcing"] = {"type": "Test", "raw_input_file": "raw.txt", "input_file": "wind.txt", "frequency": every * self.dt}
    def meteo_at(self, step, t):
        s = step - step % self.met_every; w = (t - s * self.dt) / (self.met_every * self.dt)
        return {n: np.array(self.met[s][n]) * (1 - w) + np.array(self.met[s + self.met_every][n]) * w for n in self.mesh.nodes}
    def forcing(self, amp=0.05):
        """Write the .bcis data for whatever open/flow/levee segments the mesh has (tide amplitudes relative to depth)."""
        r = self.rng; m = self.mesh; w = 2 * math.pi / (self.T * 1.0)
        def group(nodes, a):
            con = []
            for _ in range(r.randint(1, 3)):
                ph = r.uniform(0, 360); aa = a * r.uniform(0.3, 1)
                con.append((w * r.uniform(0.2, 2), r.uniform(0.7, 1.2), r.uniform(0, 360), {n: (aa * r.uniform(0.8, 1.2), ph + r.uniform(-10, 10)) for n in nodes}))
            return {"nodes": list(nodes), "con": con}
        self.tide = [group(s, amp * self.h0) for s in m.open]
        self.flow = [group(s["nodes"], amp * self.h0 ** 1.5 * 3) for s in m.land if s["ib"] % 10 == 2]
        self.levee = [list(zip(s["nodes"], s["conn"], s["H"], s["cs"], s["cp"])) for s in m.land if "conn" in s]
        return self
    def shift(self, sh):
        """the same problem in a vertical datum sh lower: bed, surface and forcing levels rise by sh (call after function() and forcing())"""
        for n, (x, y, z) in list(self.mesh.nodes.items()): self.mesh.nodes[n] = (x, y, z - sh)
        if getattr(self, "terms", None): self.function(self.terms + [(0, 0, sh)])
        if getattr(self, "tide", None):
            self.kw.pop("ramp", None)
            for g in self.tide: g["con"].append((0.0, 1.0, 0.0, {n: (sh, 0.0) for n in g["nodes"]}))
    def write(self, freq=1, name="mesh.14", inp="in.15", **kw):
        os.makedirs(os.path.join(self.d, "out"), exist_ok=True)
        ll = getattr(self, "lonlat", None)
        if ll:          # the same mesh in degrees of longitude and latitude (cylindrical projection of the manual, inverted)
            m = copy.copy(self.mesh); m.nodes = {n: (math.degrees(x / (ll[2] * math.cos(math.radians(ll[1])))) + ll[0], math.degrees(y / ll[2]), z) for n, (x, y, z) in self.mesh.nodes.items()}
            m.write(os.path.join(self.d, name)); kw = dict(kw, coord="spherical")
        else: self.mesh.write(os.path.join(self.d, name))
        if hasattr(self, "tide"): C.write_bcis(os.path.join(self.d, name.rsplit(".", 1)[0] + ".bcis"), self.tide, self.flow, self.levee)
        k = dict(prob=NAMES[self.prob], p=self.p, dt=self.dt, T=self.T, problem=self.problem, out="out/", modal=freq * self.dt * (1 - 1e-9))
        if self.prob == "ihdg": k["order"] = self.rng.choice([1, 2, 2])
        k.update(self.kw); k.update(kw)
        C.write_input(os.path.join(self.d, inp), name, **k)
        return inp
    def spherical(self):
        """give the mesh in spherical coordinates: with the projection of the case or, if it has none, the default one"""
        sp = self.problem.get("spherical_projection"); self.lonlat = (sp["longitude_o"], sp["latitude_o"], sp["R"]) if sp else (0.0, 0.0, 6378200.0)
    def desc(self):
        return {"prob": self.prob, "p": self.p, "elements": len(self.mesh.elts), "steps": self.steps, "dt": self.dt, "h0": round(self.h0, 4), "problem": self.problem}

KINDS = {"rkdg": ["closed", "open", "friction", "limiter", "wetdry", "levee", "func"], "ehdg": ["closed", "open", "friction", "wetdry", "func"], "ihdg": ["closed", "open", "friction", "func"], "gn": ["closed", "open"]}
def scenario(rng, d, prob, kind, p=None, nmax=4, steps=None, **kw):
    """A complete, generic run: closed basin, tide/flow/function forcing, levee, friction, limiter, wetting and drying."""
    sides = {}
    if kind == "open": sides = dict(zip(rng.sample("brtl", 3), ["tide", "flow", "land"]))
    if kind == "func": sides = dict(zip(rng.sample("brtl", 2), ["func", "land"]))
    wd = kind == "wetdry"
    if p is None: p = 1 if kind in ("limiter", "wetdry") else rng.choice([1, 2]) if prob in ("gn", "ihdg") else rng.choice([1, 2, 3])
    lev = None
    if kind == "levee":
        nx, ny = rng.randint(3, nmax + 1), rng.randint(2, nmax)
        mesh = C.grid_mesh(rng, nx, ny, box=(0., nx, 0., ny), jitter=0.2, levee={"col": rng.randint(1, nx - 1), "H": 0.0, "cs": 1.0, "cp": 1.0}, gap=0.02, **kw)
    else: mesh = rand_mesh(rng, nmax, sides=sides, hole=False if sides else None, **kw)
    c = SimCase(rng, d, prob, p=p, mesh=mesh, turned=True, bath="slope" if wd else rng.choice(["random", "wavy", "slope"]), amp_b=rng.uniform(1.2, 3) if wd else 0.3, umax=1.0,
                steps=steps or (rng.randint(4, 7) if prob in ("ihdg", "gn") else rng.randint(40, 60) if wd else rng.randint(8, 16)), cfl=0.12 if wd else 0.2)
    if wd: c.problem["wetting_drying"] = {"h_o": 0.01 * c.h0}; c.waves(0.4, 0.1)
    elif kind == "func":
        h, th = c.h0, rng.uniform(0, 6.28); k = 2 * math.pi / c.size; om = k * math.sqrt(9.81 * h)
        c.function([(0, 1, 0.05 * h, k * math.cos(th), k * math.sin(th), -om, 0.3), (1, 0, 0.02 * h ** 1.5), (2, 1, 0.03 * h ** 1.5, k, 0.4 * k, om, 1.0)])
    else: c.waves(0.1, 0.1)
    if kind == "friction": c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": rng.uniform(0.002, 0.02)}
    if kind == "limiter": c.problem["slope_limiting"] = {"type": "Cockburn-Shu", "M": 1e-8, "nu": 1.5}
    if kind == "levee":
        for s in c.mesh.land:
            if "conn" in s:
                s["H"] = [-0.02 * c.h0 * rng.uniform(0, 3) for _ in s["nodes"]]; s["cs"] = [rng.uniform(0.5, 1) for _ in s["nodes"]]; s["cp"] = [rng.uniform(0.5, 1) for _ in s["nodes"]]
    c.forcing()
    if rng.random() < 0.5 and (c.tide or c.flow): c.kw["ramp"] = c.T / 86400.0 * rng.uniform(0.5, 2)
    return c
