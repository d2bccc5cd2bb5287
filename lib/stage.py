"""Oracle for one evaluation of the semi-discrete equations: expected edge fluxes, sources and tendencies for prescribed states,
computed from the mesh file, the boundary data and the documented formulas."""
import math
import numpy as np
import build, cases as C, core, gen, probe
G = 9.81
RHO = 1000.0

# ---------------------------------------------------------------- cases
def make(rng, d, prob, p=None, sides=None, nmax=3, levee=None, sphere=False, bath="random", amp_b=0.4, forcing=True, func=True, fnsrc=None, problem=None, order=None, **kw):
    sides = sides or {}
    if levee:
        nx, ny = rng.randint(2, nmax + 1), rng.randint(2, nmax)
        mesh = C.grid_mesh(rng, nx, ny, box=(0., nx, 0., ny), jitter=0.2, sides=sides, levee={"col": rng.randint(1, nx - 1), "H": 0.0, "cs": 1.0, "cp": 1.0}, gap=rng.choice([0.0, 0.03]))
    else: mesh = gen.rand_mesh(rng, nmax, sides=sides, hole=False, jitter=rng.choice([0.1, 0.25, 0.4]))
    c = gen.SimCase(rng, d, prob, p=p if p is not None else rng.choice([1, 1, 2, 3]), mesh=mesh, bath=bath, amp_b=amp_b, steps=rng.randint(4, 20), umax=1.0, turned=True)
    if problem: c.problem.update(problem)
    if levee:
        for s in c.mesh.land:
            if "conn" in s: s["H"] = [levee["H"]() * c.h0 for _ in s["nodes"]]; s["cs"] = [rng.uniform(0.3, 1.2) for _ in s["nodes"]]; s["cp"] = [rng.uniform(0.3, 1.2) for _ in s["nodes"]]
    c.sp = None
    if sphere:
        c.sp = (rng.uniform(-60, 60), rng.uniform(-55, 55), 1.1 * c.size / rng.uniform(0.3, 0.9))   # longitude_o, latitude_o, R (small planet: strong metric)
        c.problem["spherical_projection"] = {"longitude_o": c.sp[0], "latitude_o": c.sp[1], "R": c.sp[2]}
    if func:
        h, k = c.h0, 2 * math.pi / c.size
        terms = [(0, 1, 0.1 * h, k * rng.uniform(-1, 1), k * rng.uniform(-1, 1), rng.uniform(-2, 2), rng.uniform(0, 6))] + \
                [(v, 1, 0.3 * h ** 1.5 * 3, k * rng.uniform(-1, 1), k * rng.uniform(-1, 1), rng.uniform(-2, 2), rng.uniform(0, 6)) for v in (1, 2)]
        c.function(terms, **kw)
    if forcing: c.forcing(0.1)
    if rng.random() < 0.5: c.kw["ramp"] = c.T / 86400.0 * rng.uniform(0.5, 2)
    o = order or rng.choice([2, 3, 4])
    if prob != "ihdg": c.kw.update(order=o, nstages={2: 2, 3: 3, 4: 5}[o])
    return c

def rand_states(rng, P, h0, hlo=0.3, hhi=2.0, mach=1.2, high=0.1, dry=0.0, ze=None, level=0.0):
    """random wet polynomial states: independent in every element (discontinuous at edges). Returns {id: (wet, coef)}."""
    out = {}; r = np.random.RandomState(rng.randrange(2 ** 31)); m0 = h0 * math.sqrt(G * h0)
    for e in P.elt:
        bv = P.vert(P.bath[e])
        hv = h0 * r.uniform(hlo, hhi, 3) if ze is None else bv + level + ze * h0 * r.uniform(-1, 1, 3)
        vv = np.array([hv - bv, hv * math.sqrt(G * h0) * mach * r.uniform(-1, 1, 3), hv * math.sqrt(G * h0) * mach * r.uniform(-1, 1, 3)])
        if r.rand() < 0.3: vv[1:] = vv[1:, :1]       # aligned flows too
        q = P.coef_of_linear(vv)
        if P.ndof > 3 and high > 0:
            for v, s in ((0, hlo * h0 if ze is None else ze * h0), (1, m0), (2, m0)):
                nz = r.uniform(-1, 1, 64); z = P.project(nz[None])[0]
                z[:] = z / max(np.max(np.abs(P.at(z[None]))), 1e-300) * s * high
                q[v] += z
        w = 1
        if r.rand() < dry: w = 0
        out[e] = (w, q)
    return out

# ---------------------------------------------------------------- oracle pieces
class Oracle:
    def __init__(self, P, c):
        self.P, self.c = P, c; m = c.mesh
        self.tri = {}
        for e, d in P.elt.items():
            X = np.array([m.nodes[n] for n in d["N"]]); self.tri[e] = X
        self.ramp_on = "ramp" in c.kw
    def lam(self, e, x, y):
        X = self.tri[e]; M = np.vstack([X[:, 0], X[:, 1], np.ones(3)])
        return np.linalg.solve(M, np.vstack([x, y, np.ones_like(x)]))
    def bath(self, e, x, y): return self.tri[e][:, 2] @ self.lam(e, x, y)
    def dbath(self, e):
        X = self.tri[e]; M = np.hstack([X[:, :2], np.ones((3, 1))]); return np.linalg.solve(M, X[:, 2])[:2]
    def sp(self, y):
        return np.ones_like(y) if self.c.sp is None else math.cos(math.radians(self.c.sp[1])) / np.cos(y / self.c.sp[2])
    def ends(self, e, b):
        N = self.P.elt[e]["N"]; return N[(b + 1) % 3], N[(b + 2) % 3]
    def edge_par(self, e, b, x, y):
        """position along the edge from its first to its second node, from physical coordinates"""
        a, z = self.ends(e, b); A = np.array(self.c.mesh.nodes[a][:2]); Z = np.array(self.c.mesh.nodes[z][:2]); t = Z - A
        return ((x - A[0]) * t[0] + (y - A[1]) * t[1]) / (t @ t)
    def normal(self, e, b):
        a, z = self.ends(e, b); A = np.array(self.c.mesh.nodes[a][:2]); Z = np.array(self.c.mesh.nodes[z][:2]); t = Z - A
        n = np.array([t[1], -t[0]]) / np.hypot(*t); o = np.array(self.c.mesh.nodes[self.P.elt[e]["N"][b]][:2])
        return n if n @ (A - o) > 0 else -n
    def length(self, e, b):
        a, z = self.ends(e, b); return math.dist(self.c.mesh.nodes[a][:2], self.c.mesh.nodes[z][:2])
    def harmonic(self, groups, e, b, x, y, t, ramp):
        a, z = self.ends(e, b); s = self.edge_par(e, b, x, y)
        for gdef in groups:
            if a in gdef["nodes"] and z in gdef["nodes"]:
                r = np.zeros_like(x)
                for fq, ff, eq, dct in gdef["con"]:
                    amp = dct[a][0] * (1 - s) + dct[z][0] * s; ph = dct[a][1] * (1 - s) + dct[z][1] * s
                    r = r + ff * amp * np.cos(fq * t + np.radians(eq - ph))
                return r * ramp
        raise core.Inconclusive("no forcing group for edge %d %d" % (a, z))
    def ramp(self, t):
        return math.tanh(2 * (t / 86400.0) / self.c.kw["ramp"]) if self.ramp_on else 1.0
    def external(self, kind, e, b, q, t, ramp):
        """prescribed exterior state of an open boundary"""
        g = self.P.gs[e, b]; x, y = g["x"], g["y"]; n = self.normal(e, b)
        if kind == "Tide": return np.array([self.harmonic(self.c.tide, e, b, x, y, t, ramp), q[1], q[2]])
        if kind == "Flow":
            qn = self.harmonic(self.c.flow, e, b, x, y, t, ramp); return np.array([q[0], qn * n[0], qn * n[1]])
        if kind == "Function": return np.array(C.eval_fn(self.c.terms, t, x, y, self.c.__dict__.get("fn_bath", (0, 0, 0))))
        raise core.Inconclusive("boundary kind " + kind)
    def q_side(self, op, e, b): return op["B"][e][1] @ self.P.gs[e, b]["phi"]
    # -------- RKDG fluxes
    def wall(self, q, b, n, sp):
        m = np.array([sp * n[0], n[1] * np.ones_like(sp)]); m = m / np.hypot(m[0], m[1])
        qn = q[1] * m[0] + q[2] * m[1]
        return llf(G, q, np.array([q[0], q[1] - 2 * qn * m[0], q[2] - 2 * qn * m[1]]), b, n, sp)
    def levee_data(self, e, b, x, y):
        a, z = self.ends(e, b); s = self.edge_par(e, b, x, y)
        for sgm in self.c.mesh.land:
            if "conn" not in sgm: continue
            for side in ("nodes", "conn"):
                L = sgm[side]
                for i in range(len(L) - 1):
                    if {L[i], L[i + 1]} == {a, z}:
                        ia, iz = (i, i + 1) if L[i] == a else (i + 1, i)
                        return [sgm[k][ia] * (1 - s) + sgm[k][iz] * s for k in ("H", "cs", "cp")]
        raise core.Inconclusive("levee data")

def speed(g, q, b, n, sp):
    h = q[0] + b; spc = (n[0] * sp) ** 2 + n[1] ** 2
    with np.errstate(invalid="ignore"): return np.abs((q[1] * n[0] + q[2] * n[1]) / h) + np.sqrt(g * h * spc)
def fnorm(g, q, b, n, sp):
    ze, qx, qy = q; h = ze + b; pe = g * (ze * ze / 2 + ze * b)
    return np.array([qx, qx * qx / h + pe, qx * qy / h]) * sp * n[0] + np.array([qy, qx * qy / h, qy * qy / h + pe]) * n[1]
def llf(g, qi, qe, b, n, sp):
    return 0.5 * (fnorm(g, qi, b, n, sp) + fnorm(g, qe, b, n, sp) + np.maximum(speed(g, qi, b, n, sp), speed(g, qe, b, n, sp)) * (qi - qe))
def fscale(g, qs, b, n, sp):
    """size of the terms in a flux (per component)"""
    s = 0
    for q in qs:
        h = np.abs(q[0] + b); w = np.abs(speed(g, q, b, n, sp))
        m = np.hypot(q[1], q[2])
        pe = g * (q[0] ** 2 / 2 + np.abs(q[0] * b)) + m * m / h + w * m
        s = s + np.array([m + w * np.abs(q[0]), pe, pe])
    return s

def rkdg_interface(O, op, it):
    """expected (F_in, F_ex, scale) of an interior interface; points of the ex side are in the ex side's own order"""
    _, e, b, f, c = it; P = O.P; gi, gx = P.gs[e, b], P.gs[f, c]
    n = O.normal(e, b); qi = O.q_side(op, e, b); qx = O.q_side(op, f, c)[:, ::-1]
    bi = O.bath(e, gi["x"], gi["y"]); sp = O.sp(gi["y"]); wi, wx = op["B"][e][0], op["B"][f][0]
    F = llf(G, qi, qx, bi, n, sp); Fi, Fx = F.copy(), -F
    cut = np.zeros(F.shape[1], int)
    if not (wi and wx):
        for k in range(F.shape[1]):
            s = slice(k, k + 1); q1, q2, bb, ss = qi[:, s], qx[:, s], bi[s], sp[s]
            if F[0, k] > 1e-12:
                if not wi: Fi[:, k] = 0; Fx[:, s] = O.wall(q2, bb, -n, ss); cut[k] = 1
                else: Fx[:, s] = llf(0.0, q2, q1, bb, -n, ss); Fx[0, k] = -F[0, k]; cut[k] = 2
            elif F[0, k] < -1e-12:
                if not wx: Fx[:, k] = 0; Fi[:, s] = O.wall(q1, bb, n, ss); cut[k] = 1
                else: Fi[:, s] = llf(0.0, q1, q2, bb, n, ss); Fi[0, k] = F[0, k]; cut[k] = 2
            if abs(abs(F[0, k]) - 1e-12) < 1e-14: cut[k] = -1
    return Fi, Fx[:, ::-1], fscale(G, (qi, qx), bi, n, sp), cut

def ehdg_flux(q, qh, b, n):
    one = np.ones_like(b)
    return fnorm(G, qh, b, n, one) + speed(G, qh, b, n, one) * (q - qh)
def ehdg_wall(q, b, n):
    qn = q[1] * n[0] + q[2] * n[1]
    return ehdg_flux(q, np.array([q[0], q[1] - qn * n[0], q[2] - qn * n[1]]), b, n)
def ehdg_interface(O, op, it):
    _, e, b, f, c = it; P = O.P; gi = P.gs[e, b]
    n = O.normal(e, b); qi = O.q_side(op, e, b); qx = O.q_side(op, f, c)[:, ::-1]; bi = O.bath(e, gi["x"], gi["y"]); sp = np.ones_like(bi)
    qh = 0.5 * (qi + qx); wi, wx = op["B"][e][0], op["B"][f][0]
    Fi = ehdg_flux(qi, qh, bi, n); Fx = -Fi; cut = np.zeros(Fi.shape[1], int)
    if not (wi and wx):
        for k in range(Fi.shape[1]):
            s = slice(k, k + 1); F0 = Fi[0, k]; cut[k] = -1 if abs(abs(F0) - 1e-12) < 1e-14 else 0
            def dryside(q, nn):   # momentum flux without gravity; dissipation still with it (code's choice), judged only through its mass component
                return ehdg_flux(q, qh[:, s], bi[s], nn)
            if F0 > 1e-12:
                if not wi: Fi[:, k] = 0; Fx[:, s] = ehdg_wall(qx[:, s], bi[s], -n); cut[k] = 1
                else: cut[k] = 2
            elif F0 < -1e-12:
                if not wx: Fx[:, k] = 0; Fi[:, s] = ehdg_wall(qi[:, s], bi[s], n); cut[k] = 1
                else: cut[k] = 3
    return Fi, Fx[:, ::-1], fscale(G, (qi, qx), bi, n, sp), cut

def split(q, b, n, g=G):
    """A+, A- and their defining normal Jacobian at a state"""
    h = q[0] + b; u, v = q[1] / h, q[2] / h; un = u * n[0] + v * n[1]; c = math.sqrt(g * h)
    R = np.array([[1, 0, 1], [u - c * n[0], -n[1], u + c * n[0]], [v - c * n[1], n[0], v + c * n[1]]], float)
    L = np.linalg.inv(R); lam = np.array([un - c, un, un + c])
    return R @ np.diag(np.maximum(lam, 0)) @ L, R @ np.diag(np.minimum(lam, 0)) @ L, lam

def source(O, op, e):
    """expected source at the element's quadrature points, and the size of its terms"""
    P, c = O.P, O.c; g = P.ge[e]; q = op["B"][e][1] @ g["phi"]; b = O.bath(e, g["x"], g["y"]); db = O.dbath(e); sp = O.sp(g["y"])
    S = np.array([0 * b, G * db[0] * q[0] * sp, G * db[1] * q[0]]); A = np.abs(S)
    if getattr(c, "src_terms", None):
        f = C.eval_fn(c.src_terms, op["t"], g["x"], g["y"]); S = S + f; A = A + np.abs(f)
    fr = c.problem.get("bottom_friction")
    if fr:
        h = q[0] + b; cf = np.full_like(h, fr["coefficient"])
        if fr["type"] == "Manning":
            n = np.mean([c.mann[k] for k in P.elt[e]["N"]]); cf = np.maximum(cf, G * n * n / np.cbrt(h))
        k = cf * np.hypot(q[1], q[2]) / h ** 2; f = -np.array([0 * h, k * q[1], k * q[2]]); S = S + f; A = A + np.abs(f)
    if c.problem.get("coriolis") == "Enable":
        y = np.mean(O.tri[e][:, 1]); R = c.sp[2] if c.sp else 6378200.0
        f0 = 2 * 7.2921e-5 * math.sin(y / R); f = np.array([0 * b, f0 * q[2], -f0 * q[1]]); S = S + f; A = A + np.abs(f)
    if hasattr(c, "met"):
        M = c.meteo_at(op["step"], op["met_t"]); V = np.array([M[n] for n in P.elt[e]["N"]]); X = O.tri[e]
        g2 = np.linalg.solve(np.hstack([X[:, :2], np.ones((3, 1))]), V[:, 2])[:2]; tau = V[:, :2].T @ O.lam(e, g["x"], g["y"]); h = q[0] + b
        f = np.array([0 * b, tau[0] / RHO - sp * h * g2[0] / RHO, tau[1] / RHO - h * g2[1] / RHO]); S = S + f; A = A + np.abs(f) + np.array([0 * b, h * 0 + np.max(np.abs(V[:, 2])) * h / RHO / c.mesh.lmin(), h * 0 + np.max(np.abs(V[:, 2])) * h / RHO / c.mesh.lmin()])
    return S, A, q
