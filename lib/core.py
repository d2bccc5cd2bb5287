"""Run context: deterministic cases, violation routing (known findings), evidence, process runner, recorder-log reader."""
import hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import build, cases
VERIF = build.VERIF
REPO = build.REPO

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}

class Inconclusive(Exception): pass     # the sandbox, not the code: no answer
class Fails(Exception): pass            # the code does not do what every case needs (valid input refused, unreadable log): a violation

class Result:
    __slots__ = ("rc", "sig", "out", "err", "wall", "timeout")
    def __repr__(self): return "<rc=%s sig=%s timeout=%s err=%r>" % (self.rc, self.sig, self.timeout, self.err[-300:])

def descendants(pid):
    kids = {}
    for f in os.listdir("/proc"):
        if f.isdigit():
            try: kids.setdefault(int(open("/proc/%s/stat" % f).read().rsplit(")", 1)[1].split()[1]), []).append(int(f))
            except (OSError, ValueError): pass
    r, todo = [], [pid]
    while todo:
        n = kids.get(todo.pop(), []); r += n; todo += n
    return r
HANGS = [0]         # runs that did not end twice: later runs get less time and no second attempt
def again(r, attempt):
    if not r.timeout: return False
    if attempt == 0 and HANGS[0] == 0: return True
    HANGS[0] += 1; return False
def run_proc(cmd, cwd=None, env=None, timeout=120, stdin=None):
    if HANGS[0]: timeout = min(timeout, 45)
    e = dict(os.environ); e.update({"OMP_NUM_THREADS": "1", "LC_ALL": "C"}); e.update(env or {})
    r = Result(); t = time.time(); r.timeout = False
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, start_new_session=True)
        try: p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            for q in descendants(p.pid) + [p.pid]:      # mpirun puts its processes into groups of their own
                try: os.kill(q, signal.SIGKILL)
                except ProcessLookupError: pass
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        fo.seek(0); fe.seek(0)
        r.out = fo.read(64 << 20).decode("utf8", "replace"); r.err = fe.read(4 << 20).decode("utf8", "replace")
    r.rc = p.returncode if p.returncode >= 0 else None
    r.sig = -p.returncode if p.returncode < 0 else 0
    r.wall = time.time() - t
    return r

class Ctx:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.t0 = time.time(); self.lock = threading.Lock()
        self.viol = {}; self.known_hit = {}; self.counts = {}; self.distinct = set(); self.samples = []; self.evals = 0; self.notes = []
        self.maxima = {}
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.known = {k["key"]: k for k in load_known()["known"] if k["property"] == pid}
        self.thorough = tier == "thorough"
    def n(self, quick, thorough): return thorough if self.thorough else quick
    def rng(self, *a): return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, a))))
    def dir(self, name):
        d = os.path.join(self.scratch, name); os.makedirs(d, exist_ok=True); return d
    def obs(self, what, n=1):
        with self.lock: self.counts[what] = self.counts.get(what, 0) + n
    def mx(self, what, v):
        v = float(v)
        with self.lock:
            if not (v <= self.maxima.get(what, -1e308)): self.maxima[what] = v
    def case(self, sig, nontrivial=True, sample=None):
        with self.lock:
            self.evals += 1
            if nontrivial: self.distinct.add(hashlib.md5(repr(sig).encode()).hexdigest())
            if sample is not None and len(self.samples) < 6: self.samples.append(sample)
    def bad(self, key, msg, case=None):
        """key: stable description of the failing site/input class; matched against known findings."""
        with self.lock:
            tgt = self.known_hit if key in self.known else self.viol
            tgt.setdefault(key, []).append({"msg": str(msg)[:1500], "case": case})
    def check(self, ok, key, msg, case=None):
        if not ok: self.bad(key, msg, case)
        return ok
    def par(self, fn, items, workers=None):
        """Run fn(item) for all items on a thread pool; unexpected exceptions are inconclusive."""
        items = list(items)
        if self.only is not None: items = [x for i, x in enumerate(items) if self.only in (str(x), str(i))] or items
        errs = []
        def g(x):
            t = time.time() - self.t0
            if not self.thorough and (HANGS[0] > 2 or t > 720 or (self.viol and t > 300)): self.obs("cases left out after hangs or for lack of time"); return None
            try: return fn(x)
            except Inconclusive as e: errs.append(e)
            except Fails as e: self.bad("cannot-judge", str(e)[:2000], x)
            except (MemoryError, OSError) as e:
                if isinstance(e, FileNotFoundError): self.bad("cannot-judge", "case %r: %s" % (x, traceback.format_exc()[-2000:]), x)
                else: errs.append(Inconclusive("case %r: %s" % (x, traceback.format_exc())))
            except Exception as e: self.bad("cannot-judge", "case %r: %s" % (x, traceback.format_exc()[-2000:]), x)
        with ThreadPoolExecutor(workers or build.JOBS) as ex: r = list(ex.map(g, items))
        if errs and not self.viol: raise errs[0]
        for e in errs[:2]: print("  (inconclusive case) %s" % str(e)[:1500])
        return r
    def finish(self, rule, assumptions=(), extra=None):
        wall = time.time() - self.t0
        rep = []
        rd = os.path.join(VERIF, "evidence", "replay")
        for i, (k, v) in enumerate(sorted(self.viol.items())):
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s_%d.json" % (self.pid, i))
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "key": k, "count": len(v), "instances": v[:5],
                       "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --only %s" % (self.seed, self.tier, self.pid, v[0]["case"])}, open(p, "w"), indent=1, default=str)
            rep.append((k, p, v))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": rule, "samples": self.samples or ["none"],
               "observed": dict(sorted(self.counts.items())), "largest_deviation": {k: v for k, v in sorted(self.maxima.items())}}
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov, "assumptions": list(assumptions),
              "violations": [{"key": k, "replay": p, "msg": v[0]["msg"]} for k, p, v in rep], "known_findings_seen": sorted(self.known_hit), "wall_s": round(wall, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        for k, e in sorted(self.known.items()):
            if k in self.known_hit or e.get("always"): print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        for k, p, v in rep:
            print("  [%s] x%d %s" % (k, len(v), v[0]["msg"][:600]))
        for k, p, v in rep: print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s %s: %d cases, %d distinct, %s, %.1fs, build %s" % (self.pid, "VIOLATED" if rep else "held", self.evals, len(self.distinct),
              dict(sorted(self.counts.items())), wall, {k: round(v, 1) for k, v in build.stats.items()}))
        if self.maxima: print("   max: " + ", ".join("%s=%.3g" % kv for kv in sorted(self.maxima.items())))
        if rep: return 1
        if self.evals == 0 or not self.distinct:
            print("observed nothing"); return 2
        return 0
    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

# ---------------------------------------------------------------- recorder logs
DUFFY = None
def duffy():
    global DUFFY
    if DUFFY is None:
        x, w = np.polynomial.legendre.leggauss(8)
        DUFFY = np.array([w[i] * w[j] * (1 - x[j]) / 2 for i in range(8) for j in range(8)])   # sums to 2
    return DUFFY
def duffy_points():
    x, w = np.polynomial.legendre.leggauss(8)
    return np.array([((1 + x[i]) * (1 - x[j]) / 2 - 1, x[j]) for i in range(8) for j in range(8)])
NREF = 7

class Rec:
    """Parsed recorder log. Arrays are indexed by position in self.ids (sorted element ids)."""
    def __init__(self, path):
        self.ints = []; self.bnds = []; self.dsts = []; self.ei = []; self.eb = []; self.ed = []; self.dried = []; self.troubled = []; self.trouble = []
        self.elt = {}; self.steps = []; self.exc = None; self.end = False; self.nsteps = None; self.l2sq = None; self.phi = None; self.extra = {}
        bath = {}; raw = []; garbled = 0
        with open(path, errors="replace") as f:
            for line in f:
                try: self._line(line, raw, bath)
                except (IndexError, ValueError, StopIteration): garbled += 1
        if garbled and self.end: raise Fails("log %s: %d unreadable lines" % (path, garbled))
        self.ids = sorted(self.elt); self.pos = {e: i for i, e in enumerate(self.ids)}
        self.bath = np.array([bath[i] for i in self.ids]) if bath and set(bath) == set(self.ids) else None
        self.q = []; self.wet = []
        for r in raw:
            if set(r) != set(self.ids):
                if not self.end: break      # truncated by an abort
                raise Fails("log %s: snapshot with wrong element set" % path)
            try: x = np.array([r[i][1] for i in self.ids], float).reshape(len(self.ids), 3, -1)
            except ValueError: break        # truncated by an abort
            self.q.append(x)
            self.wet.append(np.array([r[i][0] for i in self.ids]))
        self.steps = self.steps[:len(self.q)]
        self.ndof = self.phi.shape[0] if self.phi is not None else 0
        self.w = duffy()
    def _line(self, line, raw, bath):
        t = line.split()
        if not t: return
        k = t[0]
        if k == "E": raw[-1][int(t[1])] = (int(t[2]), t[3:])
        elif k == "S":
            self.steps.append((int(t[1]), int(t[2]), float(t[3]), float(t[4]))); raw.append({}); self.dried.append(set()); self.troubled.append(set()); self.trouble.append({})
        elif k == "X":
            self.trouble[-1][int(t[1])] = float(t[3])
            if t[2] == "1": self.troubled[-1].add(int(t[1]))
        elif k == "D": self.dried[-1].add(int(t[1]))
        elif k == "A": bath[int(t[1])] = np.array(t[2:], float)
        elif k == "ELT":
            iN, iG, iT, iX = [t.index(s) for s in "NGTX"]
            d = dict(N=list(map(int, t[iN + 1:iG])), G=list(map(int, t[iG + 1:iT])), T=list(map(int, t[iT + 1:iX])), X=np.array(t[iX + 1:], float).reshape(-1, 3))
            if int(t[1]) in self.elt: self.extra["dup"] = int(t[1])
            self.elt[int(t[1])] = d
        elif k == "MESH": self.mesh = line.split()
        elif k == "PHI": self.phi = np.array(t[3:], float).reshape(int(t[1]), int(t[2]))
        elif k == "INT": self.ints.append((t[1],) + tuple(map(int, t[2:])))
        elif k == "BND": self.bnds.append((t[1],) + tuple(map(int, t[2:])))
        elif k == "DST": self.dsts.append((t[1],) + tuple(map(int, t[2:])))
        elif k == "EI": self.ei.append((t[1],) + tuple(map(int, t[2:])))
        elif k == "EB": self.eb.append((t[1],) + tuple(map(int, t[2:])))
        elif k == "ED": self.ed.append((t[1],) + tuple(map(int, t[2:])))
        elif k == "NSTEPS": self.nsteps = int(t[1])
        elif k == "L2SQ": self.l2sq = float(t[1])
        elif k == "EXC": self.exc = line[4:].strip()
        elif k == "END": self.end = True
    def at(self, coef):          # values at Duffy points
        return coef @ self.phi[:, NREF:]
    def vert(self, coef): return coef @ self.phi[:, :3]
    def mid(self, coef): return coef @ self.phi[:, 3:6]
    def mean(self, coef): return (coef @ (self.phi[:, NREF:] @ self.w)) / 2.0
    def areas(self):
        X = np.array([self.elt[i]["X"] for i in self.ids])
        return 0.5 * np.abs((X[:, 1, 0] - X[:, 0, 0]) * (X[:, 2, 1] - X[:, 0, 1]) - (X[:, 2, 0] - X[:, 0, 0]) * (X[:, 1, 1] - X[:, 0, 1]))
    def coords(self):            # global coordinates of Duffy points, (nelt, npts, 2)
        X = np.array([self.elt[i]["X"][:, :2] for i in self.ids]); P = duffy_points()
        L = np.stack([-(P[:, 0] + P[:, 1]) / 2, (1 + P[:, 0]) / 2, (1 + P[:, 1]) / 2])
        return np.einsum("kp,ekd->epd", L, X)
    def vol(self, s): return float(np.sum(self.areas() * self.mean(self.q[s][:, 0, :] + self.bath)))

def canonical(rec, s, order):
    """State in barycentric monomials about vertices sorted by order[node]: independent of local vertex numbering and orientation.
    Returns {element id: (3, ndof)}."""
    P = duffy_points(); lam = np.stack([-(P[:, 0] + P[:, 1]) / 2, (1 + P[:, 0]) / 2, (1 + P[:, 1]) / 2])
    deg = {3: 1, 6: 2, 10: 3, 15: 4, 1: 0}[rec.ndof]; mono = [(i, j) for i in range(deg + 1) for j in range(deg + 1 - i)]
    cache = rec.extra.setdefault("canon", {}); out = {}
    for i, e in enumerate(rec.ids):
        pm = tuple(sorted(range(3), key=lambda k: order[rec.elt[e]["N"][k]]))
        if pm not in cache:
            M = np.stack([lam[pm[0]] ** a * lam[pm[1]] ** b for a, b in mono], axis=1); cache[pm] = rec.phi[:, NREF:] @ np.linalg.pinv(M).T
        out[e] = rec.q[s][i] @ cache[pm]
    return out

def sim(ctx, exe, d, args, timeout=120, env=None, log="rec.log"):
    """Run a recorder once (again if it timed out); returns (Result, Rec or None)."""
    for attempt in (0, 1):
        lp = os.path.join(d, log)
        r = run_proc([exe] + args + [lp], cwd=d, timeout=timeout, env=env)
        if not again(r, attempt): break
    rec = Rec(lp) if os.path.exists(lp) else None
    return r, rec
