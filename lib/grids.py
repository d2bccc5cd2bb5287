"""Random ADCIRC grids with every boundary kind, an independent tolerant parser, and readers of the mesh harness log."""
import math
import cases as C, gen

class Bad(Exception): pass
class Stream:
    """token stream with the format's line rule: the rest of a line after the wanted tokens is comment"""
    def __init__(self, text): self.s = text; self.i = 0
    def tok(self):
        s, n = self.s, len(self.s)
        while self.i < n and s[self.i].isspace(): self.i += 1
        j = self.i
        while j < n and not s[j].isspace(): j += 1
        if j == self.i: raise Bad("end of file")
        t = s[self.i:j]; self.i = j; return t
    def int(self):
        t = self.tok()
        try: v = int(t)
        except ValueError: raise Bad("not a number: " + t)
        if not 0 <= v < 2 ** 32: raise Bad("range")
        return v
    def float(self):
        t = self.tok()
        try: return float(t)
        except ValueError: raise Bad("not a number: " + t)
    def eol(self):
        j = self.s.find("\n", self.i); self.i = len(self.s) if j < 0 else j + 1
    def line(self):
        j = self.s.find("\n", self.i); e = len(self.s) if j < 0 else j
        t = self.s[self.i:e]; self.i = len(self.s) if j < 0 else j + 1; return t

def parse14(text):
    """Parsed grid as a dict, or Bad. Independent of the reader under test."""
    s = Stream(text); g = {"name": s.tok()}; s.eol()
    ne, nn = s.int(), s.int(); s.eol(); N = {}; E = {}
    for _ in range(nn):
        i = s.int(); c = (s.float(), s.float(), s.float()); s.eol()
        if i in N: raise Bad("node twice")
        N[i] = c
    for _ in range(ne):
        i = s.int(); k = s.int(); t = (s.int(), s.int(), s.int()); s.eol()
        if i in E: raise Bad("element twice")
        E[i] = (k,) + t
    g["N"], g["E"] = N, E
    def block(n): 
        r = []
        for _ in range(n): r.append(s.int()); s.eol()
        return r
    nope = s.int(); s.eol(); neta = s.int(); s.eol(); g["open"] = []
    for _ in range(nope):
        k = s.int(); s.eol(); g["open"].append(block(k))
    nbou = s.int(); s.eol(); nvel = s.int(); s.eol(); g["land"] = []
    for _ in range(nbou):
        k, ib = s.int(), s.int(); s.eol(); d = {"ib": ib}
        if ib in (77, 88) or ib % 10 in (0, 1, 2): d["nodes"] = block(k)
        elif ib % 10 == 4:
            rows = []
            for _ in range(k): rows.append((s.int(), s.int(), s.float(), s.float(), s.float())); s.eol()
            d["nodes"] = [r[0] for r in rows]; d["conn"] = [r[1] for r in rows]; d["H"], d["cs"], d["cp"] = ([r[q] for r in rows] for q in (2, 3, 4))
        else: raise Bad("code %d" % ib)
        g["land"].append(d)
    g["gen"] = []; ngen = nngn = 0; l = s.line()
    if l.strip():
        t = Stream(l); ngen = t.int(); nngn = s.int(); s.eol()
        for _ in range(ngen):
            k = s.int(); s.eol(); g["gen"].append(block(k))
    g["counts"] = [nope, neta, nbou, nvel, ngen, nngn]; return g

def of_mesh(m):
    return {"name": m.name.split()[0], "N": dict(m.nodes), "E": {e: (3,) + tuple(n) for e, n in m.elts.items()}, "open": m.open, "land": m.land, "gen": m.gen,
            "counts": [len(m.open), sum(map(len, m.open)), len(m.land), sum(len(s["nodes"]) for s in m.land), len(m.gen), sum(map(len, m.gen))]}

def read_log(path, tag):
    g = {"N": {}, "E": {}, "open": [], "land": [], "gen": [], "dup": False}; seen = False
    for l in open(path, errors="replace"):
        f = l.split()
        if not f or f[0] != tag: continue
        seen = True; k = f[1]
        if k == "NAME": g["name"] = " ".join(f[2:])
        elif k == "NODE":
            g["dup"] |= int(f[2]) in g["N"]; g["N"][int(f[2])] = tuple(map(float, f[3:6]))
        elif k == "ELT":
            g["dup"] |= int(f[2]) in g["E"]; g["E"][int(f[2])] = tuple(map(int, f[3:]))
        elif k == "COUNTS": g["counts"] = list(map(int, f[2:]))
        elif k == "SIZES": g["sizes"] = list(map(int, f[2:]))
        elif k == "OPEN": g["open"].append(list(map(int, f[3:])))
        elif k == "TYPE": g["land"].append({"ib": int(f[3])})
        elif k == "LAND": g["land"][-1]["nodes"] = list(map(int, f[3:]))
        elif k == "CONN": g["land"][int(f[2])]["conn"] = list(map(int, f[3:]))
        elif k in ("BARH", "BARB", "BARP"): g["land"][int(f[2])][{"BARH": "H", "BARB": "cs", "BARP": "cp"}[k]] = list(map(float, f[3:]))
        elif k == "GEN": g["gen"].append(list(map(int, f[3:])))
    return g if seen else None

def close(a, b, rel): return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= rel * max(abs(a), abs(b))
def differ(ref, got, rel=0.0):
    """first difference between two parsed grids, or None"""
    if got is None: return "nothing was read"
    if got.get("dup"): return "duplicate entry"
    if ref["name"] != got["name"]: return "name %r instead of %r" % (got["name"], ref["name"])
    if got["counts"] != ref["counts"]: return "counts %s instead of %s" % (got["counts"], ref["counts"])
    if set(ref["N"]) != set(got["N"]): return "nodes %s" % sorted(set(ref["N"]) ^ set(got["N"]))[:6]
    for i, c in ref["N"].items():
        if not all(close(a, b, rel) for a, b in zip(c, got["N"][i])): return "node %d is %r instead of %r" % (i, got["N"][i], c)
    if ref["E"] != got["E"]: return "elements differ: %s" % [(e, ref["E"].get(e), got["E"].get(e)) for e in sorted(set(ref["E"]) | set(got["E"])) if ref["E"].get(e) != got["E"].get(e)][:3]
    for k in ("open", "gen"):
        if [list(s) for s in ref[k]] != got[k]: return "%s segments %s instead of %s" % (k, got[k], ref[k])
    if len(ref["land"]) != len(got["land"]): return "%d land segments instead of %d" % (len(got["land"]), len(ref["land"]))
    for i, (a, b) in enumerate(zip(ref["land"], got["land"])):
        if a["ib"] != b["ib"] or list(a["nodes"]) != b.get("nodes") or list(a.get("conn", [])) != b.get("conn", []): return "land segment %d is %s instead of %s" % (i, b, a)
        for k in ("H", "cs", "cp"):
            if not (len(a.get(k, [])) == len(b.get(k, [])) and all(close(x, y, rel) for x, y in zip(a.get(k, []), b.get(k, [])))): return "levee data of segment %d: %s is %s instead of %s" % (i, k, b.get(k), a.get(k))
    return None

LAND, TIDE, FLOW, FUNC, OUT, INTERNAL, LEVEE = 0, 1, 2, 3, 4, 128, 129
def classify(m):
    """boundary type of every boundary edge from the mesh object: {frozenset: type}, and levee partners {frozenset: frozenset}"""
    T = {}; P = {}
    def put(s, t):
        for a, b in zip(s, s[1:]): T.setdefault(frozenset((a, b)), t)
    for s in m.open: put(s, TIDE)
    for d in m.land:
        ib = d["ib"]; s = d["nodes"]
        t = FUNC if ib == 77 else OUT if ib == 88 else {0: LAND, 1: LAND, 2: FLOW, 4: LEVEE}[ib % 10]
        put(s, t)
        if t != LEVEE and ib % 10 == 1: put([s[-1], s[0]], LAND)
        if t == LEVEE:
            c = d["conn"]; put(c, LEVEE)
            for i in range(len(s) - 1): P[frozenset(s[i:i + 2])] = frozenset(c[i:i + 2]); P[frozenset(c[i:i + 2])] = frozenset(s[i:i + 2])
    for s in m.gen: put(s, LAND)
    for d in m.land:
        if d["ib"] % 10 == 4 and d["ib"] not in (77, 88):
            for k in (0, -1): T.setdefault(frozenset((d["nodes"][k], d["conn"][k])), LAND)
    return T, P

NAMES = ["vmesh", "grid1", "Big basin, second try", "x", "mesh_with-long.name_0123456789", "1"]
def rand_grid(rng, nmax=5, big=False, cw=True, coords=True):
    """random conforming mesh with random segmentation of every kind; sides of kind generic, outflow; islands; levee (perhaps two, perhaps across a gap)"""
    kinds = ["land", "tide", "flow", "func", "generic", "outflow"]
    nx, ny = rng.randint(2, nmax), rng.randint(1, nmax)
    lev = rng.random() < .4 and nx >= 2; hole = not lev and rng.random() < .4 and nx >= 4 and ny >= 4
    sd = {s: rng.choice(kinds) for s in "brtl"}; out = {s for s in sd if sd[s] == "outflow"}
    sides = {s: ("land" if s in out else k) for s, k in sd.items()}
    levee = None
    if lev: levee = dict(col=rng.randint(1, nx - 1), H=lambda x, y: rng.uniform(-5, 30), cs=lambda x, y: rng.uniform(0, 1), cp=lambda x, y: rng.uniform(0, 1))
    m = C.grid_mesh(rng, nx, ny, box=(0., float(nx), 0., float(ny)), jitter=0.0 if lev else rng.choice([0, .2, .3]), diag=rng.choice(["random", "a", "b", "zig"]), sides=sides,
                    bath=lambda x, y: rng.uniform(-50, 5000), levee=levee, gap=rng.choice([0.0, 0.4]) if lev else 0.0, hole=[(rng.randint(1, nx - 2), rng.randint(1, ny - 2))] if hole else None,
                    shuffle=rng.random() < .9, sparse=rng.random() < .5, lo=rng.choice([0, 1, 1, 1, 10 ** 6, 4 * 10 ** 9 if big else 7]))
    be = set(m.boundary_edges())
    if lev:
        if rng.random() < .3:       # a levee that stops short of the walls: the cut goes on as a land boundary with its own front and back
            d = next(d for d in m.land if "conn" in d)
            if len(d["nodes"]) >= 4:
                k = rng.randint(1, len(d["nodes"]) - 3); j = rng.randint(k + 2, len(d["nodes"]))
                for q in ("nodes", "conn"):
                    for a, b in ((0, k), (j - 1, len(d[q]) - 1)):
                        s = d[q][a:b + 1]
                        if len(s) > 1: m.land.append({"ib": rng.choice([0, 10, 20]), "nodes": s})
                for q in ("nodes", "conn", "H", "cs", "cp"): d[q] = d[q][k:j]
        elif rng.random() < .4:     # split in two levees
            i = next(i for i, d in enumerate(m.land) if "conn" in d); d = m.land[i]
            if len(d["nodes"]) >= 3:
                k = rng.randint(1, len(d["nodes"]) - 2); e = {"ib": rng.choice([4, 24, 34])}
                for q in ("nodes", "conn", "H", "cs", "cp"): e[q] = d[q][k:]; d[q] = d[q][:k + 1]
                m.land.insert(rng.randrange(len(m.land) + 1), e)
    L = []
    for d in m.land:
        if "conn" in d or d["ib"] % 10 != 0 or d["ib"] in (77, 88): L.append(d); continue
        s = d["nodes"]
        if s[0] == s[-1]:           # hole: island, closed or open, or ordinary land
            ib = rng.choice([0, 1, 11, 21, 88]); L.append({"ib": ib, "nodes": s[:-1] if ib % 10 == 1 and ib != 88 and rng.random() < .5 else s})
        else: L.append(d)
    m.land = L
    if out:
        for d in m.land:
            if d["ib"] % 10 == 0 and "conn" not in d and rng.random() < .7: d["ib"] = 88
    if rng.random() < .3 and len(m.nodes) > 4:     # single-node and empty-free oddities: a one-node land segment carries no edge
        m.land.append({"ib": 0, "nodes": [rng.choice(list(m.nodes))]})
    assert len(be) == len(m.boundary_edges())
    if coords:
        f = 10.0 ** rng.uniform(-6, 7); ox, oy = (rng.choice([0, 0, -1, 1]) * f * 10 ** rng.uniform(0, 3) for _ in range(2)); gen.scale(m, f, (ox, oy))
    if cw and rng.random() < .5:
        for e in m.elts:
            if rng.random() < .5: a, b, c = m.elts[e]; m.elts[e] = (a, c, b)
    m.name = rng.choice(NAMES); return m
