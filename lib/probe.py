"""Reader for drivers/probe.cpp logs and the shallow-water formulas used by the oracles (written from the equations)."""
import os
import numpy as np
import core
G = 9.81
class Probe:
    def __init__(self, path):
        self.elt = {}; self.ints = []; self.bnds = []; self.ge = {}; self.gh = {}; self.gs = {}; self.ops = []; self.bath = {}; self.q0 = {}; self.wet0 = {}; self.end = False; self.phi = None
        op = None; pert = None
        with open(path) as f: lines = f.read().splitlines()
        if not lines or lines[-1] != "END":       # the process ended early: drop the operation that was under way
            k = max([i for i, l in enumerate(lines) if l.startswith("OP ")], default=max(len(lines) - 1, 0)); lines = lines[:k]
        if True:
            for line in lines:
                t = line.split(); k = t[0]
                if k == "ELT":
                    iN, iG, iT, iX = [t.index(s) for s in "NGTX"]
                    self.elt[int(t[1])] = dict(N=list(map(int, t[iN + 1:iG])), G=list(map(int, t[iG + 1:iT])), T=list(map(int, t[iT + 1:iX])), X=np.array(t[iX + 1:], float).reshape(-1, 3))
                elif k == "PHI": self.phi = np.array(t[3:], float).reshape(int(t[1]), int(t[2]))
                elif k == "INT": self.ints.append((t[1], int(t[2]), int(t[3]), int(t[4]), int(t[5])))
                elif k == "BND": self.bnds.append((t[1], int(t[2]), int(t[3])))
                elif k == "A": self.bath[int(t[1])] = np.array(t[2:], float)
                elif k == "E": self.q0[int(t[1])] = np.array(t[3:], float).reshape(3, -1); self.wet0[int(t[1])] = int(t[2])
                elif k == "GE":
                    n, nd = int(t[2]), int(t[3]); v = np.array(t[4:], float).reshape(-1, n)
                    self.ge[int(t[1])] = dict(x=v[0], y=v[1], w=v[2], phi=v[3::3], dx=v[4::3], dy=v[5::3])
                elif k == "GS":
                    n = int(t[3]); v = np.array(t[5:], float).reshape(-1, n)
                    self.gs[int(t[1]), int(t[2])] = dict(x=v[0], y=v[1], w=v[2], n=v[3:5], phi=v[5:])
                elif k == "GH": self.gh[int(t[1]), int(t[2])] = np.array(t[5:], float).reshape(int(t[3]), int(t[4]))
                elif k == "I": op["I"][int(t[1]), int(t[2])] = np.array(t[3:], float).reshape(3, -1)
                elif k == "OP": op = dict(kind=t[1], stage=int(t[2]), t=float(t[3]), ramp=float(t[4]), B={}, N={}, R={}, Q={}, F={}, H={}, I={}, M={}, T={}, D={}, P=[], done=False); self.ops.append(op)
                elif k == "B": op["B"][int(t[1])] = (int(t[2]), np.array(t[3:], float).reshape(3, -1))
                elif k == "N": op["N"][int(t[1])] = (int(t[2]), np.array(t[3:], float).reshape(3, -1))
                elif k == "R": op["R"][int(t[1])] = np.array(t[2:], float).reshape(3, -1)
                elif k == "Q": op["Q"][int(t[1])] = np.array(t[2:], float).reshape(3, -1)
                elif k == "F":
                    v = np.array(t[3:], float).reshape(9, -1); op["F"][int(t[1]), int(t[2])] = (v[:3], v[3:6], v[6:])
                elif k == "H":
                    op["H"][int(t[1]), int(t[2])] = np.array(t[3:], float)   # q_hat at points (3,ngp), aux_hat (3,ngp), coefficients (3,nd)
                elif k in ("NL", "Nl"): op["M"][k, int(t[1])] = np.array(t[2:], float)
                elif k in ("NG", "NH", "NE"): op["M"][k, int(t[1]), int(t[2])] = np.array(t[3:], float)
                elif k in ("U0", "U1"): op["M"][k, int(t[1])] = np.array(t[2:], float).reshape(3, -1)
                elif k in ("V0", "V1"): op["M"][k, int(t[1]), int(t[2])] = np.array(t[3:], float).reshape(3, -1)
                elif k == "P": pert = (t[1], int(t[2]), int(t[3]), int(t[4]), int(t[5]), {}); op["P"].append(pert)
                elif k == "pl": pert[5][int(t[1])] = np.array(t[2:], float)
                elif k == "pe": pert[5][int(t[1]), int(t[2])] = np.array(t[3:], float)
                elif k == "D": op["D"][t[1], int(t[2])] = np.array(t[3:], float)
                elif k == "T": op["T"][int(t[1])] = (float(t[2]), float(t[3]), int(t[4]))
                elif k == "OPEND": op["done"] = True
                elif k == "END": self.end = True
        self.ndof = self.phi.shape[0] if self.phi is not None else 0
    def vert(self, c): return c @ self.phi[:, :3]
    def area(self, e):
        X = self.elt[e]["X"]; return 0.5 * abs((X[1, 0] - X[0, 0]) * (X[2, 1] - X[0, 1]) - (X[2, 0] - X[0, 0]) * (X[1, 1] - X[0, 1]))
    def mean(self, c): return (c @ (self.phi[:, core.NREF:] @ core.duffy())) / 2.0
    def at(self, c): return c @ self.phi[:, core.NREF:]
    def coef_of_linear(self, vv):
        """coefficients of the linear function with vertex values vv (n,3)"""
        P = core.duffy_points(); lam = np.stack([-(P[:, 0] + P[:, 1]) / 2, (1 + P[:, 0]) / 2, (1 + P[:, 1]) / 2])
        if not hasattr(self, "_lin"): self._lin = lam @ np.linalg.pinv(self.phi[:, core.NREF:])
        return np.asarray(vv) @ self._lin
    def project(self, vals):
        """coefficients of the L2 best polynomial through values at the Duffy points (n, npts)"""
        if not hasattr(self, "_prj"):
            F = self.phi[:, core.NREF:]; w = core.duffy(); self._prj = (F * w).T @ np.linalg.inv((F * w) @ F.T)
        return np.asarray(vals) @ self._prj
    def xy(self, e):
        X = self.elt[e]["X"][:, :2]; P = core.duffy_points()
        return (np.stack([-(P[:, 0] + P[:, 1]) / 2, (1 + P[:, 0]) / 2, (1 + P[:, 1]) / 2]).T @ X).T

def sets(states):
    """states: {id: (wet, coef (3,ndof))} -> script lines"""
    return ["SET %d %d %s" % (e, w, " ".join("%.17g" % v for v in np.asarray(q).ravel())) for e, (w, q) in states.items()]

def run(ctx, exe, d, script, name="probe", env=None, timeout=120, input="in.15"):
    sp, lp = os.path.join(d, name + ".scr"), os.path.join(d, name + ".log")
    with open(sp, "w") as f: f.write("\n".join(script) + "\n")
    for attempt in (0, 1):
        r = core.run_proc([exe, input, sp, lp], cwd=d, env=env, timeout=timeout)
        if not core.again(r, attempt): break
    return r, (Probe(lp) if os.path.exists(lp) and os.path.getsize(lp) else None)

# ---- shallow water formulas
def phys_flux(q, b, sp=1.0):
    ze, qx, qy = q; h = ze + b; pe = G * (ze * ze / 2 + ze * b)
    return np.array([qx, qx * qx / h + pe, qx * qy / h]) * sp, np.array([qy, qx * qy / h, qy * qy / h + pe])
def fn(q, b, n, sp=1.0):
    fx, fy = phys_flux(q, b, sp); return fx * n[0] + fy * n[1]
def speed(q, b, n, spc=1.0):
    h = q[0] + b; return np.abs((q[1] * n[0] + q[2] * n[1]) / h) + np.sqrt(G * h * spc)
def llf(qi, qe, b, n, sp=1.0):
    spc = (n[0] * sp) ** 2 + n[1] ** 2
    return 0.5 * (fn(qi, b, n, sp) + fn(qe, b, n, sp) + np.maximum(speed(qi, b, n, spc), speed(qe, b, n, spc)) * (qi - qe))
def mirror(q, n):
    qn = q[1] * n[0] + q[2] * n[1]
    return np.array([q[0], q[1] - 2 * qn * n[0], q[2] - 2 * qn * n[1]])
