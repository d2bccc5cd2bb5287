"""C17: the files the real programs write (modal, VTK, VTU, log), parsed independently and compared with the states recorded inside a second run of the same input; reported error norm."""
import glob, math, os, re, shutil
import xml.etree.ElementTree as ET
import numpy as np
import build, cases as C, core, dist, gen
VARS = ("ze", "qx", "qy", "bath"); PR = 1.2e-6      # six significant digits, and single precision before that
class Bad(Exception): pass
def modal(d, name):
    """[{time, {id: [values per variable]}}]"""
    R = {}
    for v in VARS:
        p = "%s/%s_modal_%s.txt" % (d, name, v)
        if not os.path.exists(p): raise Bad("no file %s" % os.path.basename(p))
        cur = []
        for n, l in enumerate(open(p)):
            t = l.split()
            try:
                if len(t) == 1: cur.append((float(t[0]), {}, []))
                elif len(t) == 2:
                    if int(t[0]) not in cur[-1][1]: cur[-1][2].append(int(t[0]))
                    cur[-1][1].setdefault(int(t[0]), []).append(float(t[1]))
                else: raise ValueError
            except (ValueError, IndexError): raise Bad("%s line %d: %r" % (os.path.basename(p), n + 1, l[:60]))
        R[v] = cur
    return R
def vtk(p):
    """{'P': points, 'T': cells, 'C': {name: array}, 'D': {name: array}}"""
    L = open(p).read().split("\n"); k = 0
    def nxt():
        nonlocal k
        while k < len(L) and not L[k].strip(): k += 1
        if k == len(L): raise Bad("unexpected end")
        k += 1; return L[k - 1]
    try:
        if not nxt().startswith("# vtk DataFile Version"): raise Bad("no header")
        nxt()
        if nxt().strip() != "ASCII" or nxt().split() != ["DATASET", "UNSTRUCTURED_GRID"]: raise Bad("not an ASCII unstructured grid")
        t = nxt().split(); assert t[0] == "POINTS"; n = int(t[1]); P = np.array([nxt().split() for _ in range(n)], float); assert P.shape == (n, 3)
        t = nxt().split(); assert t[0] == "CELLS"; m, s = int(t[1]), int(t[2]); T = [list(map(int, nxt().split())) for _ in range(m)]; assert sum(map(len, T)) == s and all(len(x) == x[0] + 1 for x in T); T = [x[1:] for x in T]
        t = nxt().split(); assert t == ["CELL_TYPES", str(m)]; assert all(nxt().split() == ["5"] for _ in range(m)) and all(len(x) == 3 for x in T)
        out = {"P": P, "T": np.array(T), "C": {}, "D": {}}; sec = None
        while any(x.strip() for x in L[k:]):
            t = nxt().split()
            if t[0] in ("CELL_DATA", "POINT_DATA"): sec = out["C" if t[0] == "CELL_DATA" else "D"]; cnt = int(t[1]); assert cnt == (m if t[0] == "CELL_DATA" else n), "%s %d" % (t[0], cnt)
            else:
                assert t[0] == "SCALARS" and nxt().split() == ["LOOKUP_TABLE", "default"], t; sec[t[1]] = np.array([float(nxt()) for _ in range(cnt)])
        return out
    except (AssertionError, ValueError, IndexError, TypeError) as e: raise Bad("%s near line %d: %r" % (os.path.basename(p), k, e))
def vtu(p):
    try:
        r = ET.parse(p).getroot(); assert r.tag == "VTKFile" and r.attrib["type"] == "UnstructuredGrid"; g, = r; assert g.tag == "UnstructuredGrid"; q, = g; assert q.tag == "Piece"; n, m = int(q.attrib["NumberOfPoints"]), int(q.attrib["NumberOfCells"])
        def arr(e):
            a = np.array((e.text or "").split(), float); ty = e.attrib["type"]; assert e.attrib["format"] == "ascii"
            if ty.startswith(("Int", "UInt")): assert (a == np.round(a)).all()
            return a
        S = {e.tag: e for e in q}; assert set(S) == {"Points", "Cells", "PointData", "CellData"} and len(list(q)) == 4, [e.tag for e in q]
        P = arr(S["Points"][0]).reshape(n, 3); A = {e.attrib["Name"]: arr(e) for e in S["Cells"]}; assert len(A["offsets"]) == m and (A["offsets"] == 3 * np.arange(1, m + 1)).all() and (A["types"] == 5).all() and len(A["types"]) == m
        T = A["connectivity"].astype(int).reshape(m, 3); out = {"P": P, "T": T, "C": {e.attrib["Name"]: arr(e) for e in S["CellData"]}, "D": {e.attrib["Name"]: arr(e) for e in S["PointData"]}}
        assert all(len(a) == m for a in out["C"].values()) and all(len(a) == n for a in out["D"].values()); return out
    except (AssertionError, ValueError, IndexError, TypeError, KeyError, ET.ParseError) as e: raise Bad("%s: %r" % (os.path.basename(p), e))
def poly(ndof, P): d = {3: 1, 6: 2, 10: 3, 15: 4, 1: 0}[ndof]; return np.stack([P[:, 0] ** i * P[:, 1] ** j for i in range(d + 1) for j in range(d + 1 - i)])
def grid(ctx, it, tag, key, G, ids, X, coef, wet, dried):
    """G parsed file; coef[v] (nelt, nmono) polynomial coefficients in local coordinates; ids the elements expected"""
    T, P = G["T"], G["P"]; pos = {e: i for i, e in enumerate(ids)}
    if not ctx.check(T.min() >= 0 and T.max() < len(P), key, "%s: cells name points that do not exist" % tag, it): return
    need = {"C": {v + "_cell" for v in VARS} | {"ID", "wet_dry", "went_completely_dry"}, "D": {v + "_point" for v in VARS}}
    for s in "CD":
        if not ctx.check(need[s] <= set(G[s]), key, "%s: arrays missing: %s" % (tag, need[s] - set(G[s])), it): return
    E = G["C"]["ID"].astype(int)
    if not ctx.check(sorted(set(E)) == sorted(ids), key, "%s: elements %s instead of %s" % (tag, sorted(set(E))[:8], sorted(ids)[:8]), it): return
    k = np.array([pos[e] for e in E]); pts = P[T][:, :, :2]; big = np.abs(X).max(); tolx = PR * 5 * big; x0 = X[k][:, 0]; J = np.stack([X[k][:, 1] - x0, X[k][:, 2] - x0], 2) / 2; Ji = np.linalg.inv(J); size = np.sqrt(np.abs(np.linalg.det(J))); Z = np.einsum("kij,kpj->kpi", Ji, pts - x0[:, None]) - 1.0
    tz = tolx * np.abs(Ji).sum((1, 2)) + 1e-12; Y = np.round((Z + 1) * 6) / 6 - 1; snap = np.abs(Y - Z).max((1, 2)) <= np.minimum(tz, 0.04); Z[snap] = Y[snap]; prec = np.where(snap, 1e-12, tz)      # coordinates are printed with six digits; cells are regular subdivisions
    ctx.obs("cells on the regular grid", int(snap.sum())); ctx.check((Z >= -1 - tz[:, None, None]).all() and (Z.sum(2) <= tz[:, None]).all(), key, "%s: a cell lies outside its element" % tag, it)
    area = lambda A: 0.5 * np.abs((A[:, 1, 0] - A[:, 0, 0]) * (A[:, 2, 1] - A[:, 0, 1]) - (A[:, 2, 0] - A[:, 0, 0]) * (A[:, 1, 1] - A[:, 0, 1])); a = np.zeros(len(ids)); np.add.at(a, k, area(pts)); full = area(X)
    ctx.check((np.abs(a - full) <= 8 * tolx * np.sqrt(full) * 4 + 1e-12 * full).all(), key, "%s: the cells do not cover their elements" % tag, it); ctx.check((P[:, 2] == 0).all(), key, "%s: z coordinates" % tag, it)
    nd = coef.shape[2]; mono = lambda Q: poly(nd, Q)
    used = np.zeros(len(P), bool); used[T.ravel()] = True; ctx.check(used.all(), key, "%s: points without cell" % tag, it); own = np.zeros(len(P), int); own[T.ravel()] = np.repeat(k, 3); zz = np.zeros((len(P), 2)); zz[T.ravel()] = Z.reshape(-1, 2)
    def compare(name, v, got, el, Q, dz):
        B = mono(Q); val = (coef[v][el] * B.T).sum(1); mag = (np.abs(coef[v][el]) * np.abs(B.T)).sum(1); tol = 5 * PR * np.abs(val) + 1e-9 * mag + mag * 6 * nd * dz + 1e-300; d = np.abs(got - val) / tol
        ctx.check(np.isfinite(got).all() and (d <= 1).all(), key, "%s: %s of element %s is %r, the solution holds %r (tolerance %.2g)" % (tag, name, ids[el[np.argmax(d)]], got[np.argmax(d)], val[np.argmax(d)], tol[np.argmax(d)]), it); ctx.mx("deviation/tolerance", float(d.max())); ctx.obs("values compared", len(d))
    for v, n in enumerate(VARS):
        compare(n + "_cell", v, G["C"][n + "_cell"], k, Z.mean(1), prec); dz = np.zeros(len(P)); dz[T.ravel()] = np.repeat(prec, 3)
        compare(n + "_point", v, G["D"][n + "_point"], own, zz, dz)
    W = np.array([wet[i] for i in k], float); D = np.array([float(ids[i] in dried) for i in k]); ctx.check((G["C"]["wet_dry"] == W).all(), key, "%s: wet/dry flags" % tag, it); ctx.check((G["C"]["went_completely_dry"] == D).all(), key, "%s: flags of elements gone dry" % tag, it); ctx.obs("dry cells", int((W == 0).sum()))
    if "velocity_point" in G["D"]:
        B = mono(zz).T; v = [(coef[i][own] * B).sum(1) for i in range(4)]; m = [(np.abs(coef[i][own]) * np.abs(B)).sum(1) for i in range(4)]; eq = (m[1] + m[2]) * (1e-9 + 6 * nd * dz); h = v[0] + v[3]; eh = (m[0] + m[3]) * (1e-9 + 6 * nd * dz); ok = h > 20 * eh
        u = np.hypot(v[1], v[2])[ok] / h[ok]; tol = 5 * PR * u + 2 * eq[ok] / h[ok] + 2 * u * eh[ok] / h[ok] + 1e-300; ctx.check((np.abs(G["D"]["velocity_point"][ok] - u) <= tol).all(), key, "%s: velocity" % tag, it); ctx.check(np.isfinite(G["D"]["velocity_point"]).all(), key + ":velocity", "%s: velocities %s" % (tag, G["D"]["velocity_point"][~np.isfinite(G["D"]["velocity_point"])][:3]), it)
def steps_of(f, dt, n):
    """steps at which output of frequency f is due: every smallest whole number of steps covering f"""
    r = f / dt; k = round(r) if abs(r - round(r)) < 1e-9 * r and round(r) >= 1 else math.ceil(r); return [s for s in range(n + 1) if s % k == 0]
def run(ctx):
    probs = ["rkdg", "ehdg", "ihdg", "gn"]; T = {p: build.rec_serial(p).submit() for p in probs}; S = build.program("serial").submit(); O = build.program("ompi").submit(); Q = build.partitioner().submit(); T = {p: t.path() for p, t in T.items()}; S, O, Q = S.path(), O.path(), Q.path()
    def expected(r, s):
        """coefficients of state s in local monomials, per variable (ze, qx, qy, bath)"""
        B = poly(r.ndof, core.duffy_points()).T; pin = np.linalg.pinv(B) @ r.phi[:, core.NREF:].T; c = np.concatenate([r.q[s], r.bath[:, None, :] if r.bath.ndim == 2 else r.bath], 1); return np.einsum("md,evd->vem", pin, c)
    def look(it, tag, outs, c, r, freq, name):
        """outs: [(directory, expected element ids)]"""
        X = np.array([r.elt[i]["X"][:, :2] for i in r.ids]); n = c.steps
        for o, ids in outs:
            sel = [r.pos[e] for e in ids]; have = sorted(os.listdir(o)); want = set()
            for k, parse in (("vtk", vtk), ("vtu", vtu)):
                due = steps_of(freq[k], c.dt, n) if freq.get(k) else []; got = sorted(int(m.group(1)) for f in have for m in [re.fullmatch(re.escape(name) + r"_data_(\d+)\.%s" % k, f)] if m)
                if not ctx.check(got == due, "times:" + k, "%s: %s files of steps %s, due %s" % (tag, k, got, due), it): continue
                for s in due:
                    try: G = parse("%s/%s_data_%d.%s" % (o, name, s, k))
                    except Bad as e: ctx.bad("format:" + k, "%s: %s" % (tag, e), it); continue
                    co = expected(r, s)[:, sel]; grid(ctx, it, "%s %s step %d" % (tag, k, s), "values:" + k, G, ids, X[sel], co, [r.wet[s][i] for i in sel], r.dried[s]); ctx.obs("%s files read" % k)
            if not freq.get("modal"): ctx.check(not any("_modal_" in f for f in have), "times:modal", "%s: modal output nobody asked for" % tag, it); continue
            try: M = modal(o, name)
            except Bad as e: ctx.bad("format:modal", "%s: %s" % (tag, e), it); continue
            due = steps_of(freq["modal"], c.dt, n)
            for vi, v in enumerate(VARS):
                if not ctx.check(len(M[v]) == len(due) and all(abs(a[0] - s * c.dt) <= 1e-6 + 1e-9 * s * c.dt for a, s in zip(M[v], due)), "times:modal", "%s: %s at times %s, due %s" % (tag, v, [a[0] for a in M[v]][:9], [s * c.dt for s in due][:9]), it): continue
                for (t, D, order), s in zip(M[v], due):
                    if not ctx.check(sorted(D) == sorted(ids) and all(len(x) == r.ndof for x in D.values()), "values:modal", "%s: %s at %g: elements or numbers of values" % (tag, v, t), it): continue
                    ref = r.bath if v == "bath" else r.q[s][:, vi]; got = np.array([D[e] for e in ids]); w = ref[sel].reshape(got.shape); tol = PR * np.abs(w) + 1e-9 * np.abs(ref).max() * (1 if tag.startswith("serial") else 10); d = np.abs(got - w)
                    if not c.exact: tol = tol + 1e-6 * np.abs(ref).max()
                    ctx.check((d <= tol).all(), "values:modal", "%s: %s at %g off by %.3g" % (tag, v, t, d.max()), it); ctx.obs("values compared", d.size)
                ctx.obs("modal records", len(due))
    def one(it):
        _, prob, k = it; rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); kinds = gen.KINDS[prob] + (["constant", "wetdry", "wetdry"] if prob == "rkdg" else [])
        kind = kinds[k % len(kinds)]; p = 0 if prob == "rkdg" and kind == "closed" and rng.random() < 0.3 else None; c = gen.scenario(rng, d, prob, "closed" if kind == "constant" else kind, p=p, steps=rng.randint(20, 60) if kind == "wetdry" else rng.randint(5, 12), nmax=3); c.exact = prob in ("rkdg", "ehdg", "gn")
        c.mesh.name = name = rng.choice(["grid", "m", "Shelf_2.fine", "a-b", "x_1_2"])
        if kind == "constant": c.problem["initial_conditions"] = {"type": "Constant", "initial_surface_height": 0.1, "initial_momentum_x": 0.2, "initial_momentum_y": -0.1}
        freq = {x: c.dt * rng.choice([1, 1, 2, 3, 0.4, 1.5, 2.5, c.steps, c.steps + 1, c.steps * 0.5]) for x in ("modal", "vtk", "vtu") if rng.random() < 0.75}; freq = freq or {"modal": c.dt}; path, real = rng.choice([("out/", "out"), ("out", "out"), ("new/", "new"), (d + "/abs", "abs"), ("./out/deep", "out/deep"), ("out/", "out")]); log = rng.choice([None, ("log", "true"), ("log", "false")])
        how = "serial" if k % 3 or prob == "gn" else "mpi"; order = rng.choice([1, 2]) if prob == "ihdg" else None; kw = {"order": order} if order else {}
        inp = c.write(out=path, modal=freq.get("modal"), vtk=freq.get("vtk"), vtu=freq.get("vtu"), log=log, **kw); r = core.run_proc([T[prob], inp, d + "/log"], cwd=d, env=c.env, timeout=120); R = core.Rec(d + "/log")
        if r.rc != 0 or not R.end:
            ctx.obs("run refused"); return
        tag = "%s %s p=%d, %s, path %s, frequencies/dt %s" % (how + " " + prob, kind, c.p, "log %s" % (log[1] if log else None), path.replace(d, ""), {a: round(b / c.dt, 3) for a, b in freq.items()}); o = d + "/" + real
        if rng.random() < 0.5 and real != "new":      # leftovers of an earlier run
            os.makedirs(o, exist_ok=True)
            for v in VARS: open("%s/%s_modal_%s.txt" % (o, name, v), "w").write("0.0\n1 1.0\n") if "modal" in freq else None
            tag += ", over older files"
        if how == "serial":
            w = core.run_proc([S, inp], cwd=d, env=c.env, timeout=120)
            if not ctx.check(w.rc == 0, "run", "%s: rc=%s sig=%s %s" % (tag, w.rc, w.sig, w.err[-300:]), it): return
            look(it, tag, [(o, R.ids)], c, R, freq, name)
        else:
            np_ = rng.choice([2, 3]); A = dist.assign(rng, c.mesh, np_); parts = sorted(set(A.values())); nn = min(rng.choice([1, 2]), len(parts)); node = {q: i % nn for i, q in enumerate(parts)}; dist.write_answers(d + "/ans", c.mesh, A, len(parts), nn, node); w = dist.partition(Q, d, inp, len(parts), nn, env=dict(c.env, VERIF_PART=d + "/ans"))
            if w.rc != 0: raise core.Fails("partitioner: %r" % w)
            os.makedirs(d + "/tmp", exist_ok=True); w = core.run_proc(dist.MPI + [d + "/tmp", "-n", str(nn), O, inp[:-3] + "_parallelized.15"], cwd=d, env=dict(c.env, OMP_NUM_THREADS=str(rng.choice([1, 2])), TMPDIR=d + "/tmp", OMPI_MCA_rmaps_base_oversubscribe="1"), timeout=120)
            if not ctx.check(w.rc == 0, "run", "%s: rc=%s sig=%s %s" % (tag, w.rc, w.sig, w.err[-300:]), it): return
            subs = {}
            for f in glob.glob(d + "/mesh_*_*.meta"): subs[re.search(r"mesh_(\d+_\d+)\.meta", f).group(1)] = sorted(dist.read_meta(f)["E"])
            have = sorted(x for x in os.listdir(o) if os.path.isdir(o + "/" + x) and re.fullmatch(r"\d+_\d+", x)); ctx.check(have == sorted(subs), "place", "%s: output of submeshes %s, run with %s" % (tag, have, sorted(subs)), it); ctx.check(sorted(sum(subs.values(), [])) == R.ids, "place", "%s: elements of the submeshes" % tag, it)
            nm = {q: open("%s/mesh_%s.meta" % (d, q), errors="replace").readline().split()[0] for q in subs}
            for q in sorted(set(have) & set(subs)): look(it, tag, [("%s/%s" % (o, q), subs[q])], c, R, freq, nm[q])
        ctx.check(log is None or any(re.match(r"log", f) and os.path.getsize(o + "/" + f) > 0 for f in os.listdir(o) if os.path.isfile(o + "/" + f)) or how == "mpi" and any(f.startswith("log") for _, _, F in os.walk(o) for f in F), "log", "%s: no log file" % tag, it)
        ctx.case(it, sample=tag); ctx.obs("%s %s" % (how, prob))
        # what is written does not change what is computed
        if how == "serial" and "modal" in freq:
            F2 = {"modal": freq["modal"]}; inp = c.write(out="alone/", modal=freq["modal"], inp="in2.15", **kw); os.makedirs(d + "/alone"); w = core.run_proc([S, inp], cwd=d, env=c.env, timeout=120)
            if ctx.check(w.rc == 0, "run", "%s: rc=%s" % (tag, w.rc), it):
                for v in VARS: ctx.check(open("%s/%s_modal_%s.txt" % (o, name, v)).read() == open("%s/alone/%s_modal_%s.txt" % (d, name, v)).read(), "alters", "%s: %s differs when only modal output is written" % (tag, v), it)
                ctx.obs("output settings compared")
    def norm(it):
        """the reported error is the distance from the stated true solution"""
        _, prob, k = it; rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); c = gen.scenario(rng, d, prob, "func" if prob != "gn" else "closed", steps=4, nmax=3); t = list(c.terms)
        if k % 2: t += [(v, 2, c.h0 * 0.01 / c.size ** 2 / c.T, a, 2 - a, 1) for v, a in ((0, 1), (1, 2), (2, 0))]; c.function(t)
        inp = c.write(); r = core.run_proc([T[prob], inp, d + "/log"], cwd=d, env=c.env, timeout=120); R = core.Rec(d + "/log")
        if r.rc != 0 or not R.end: ctx.obs("run refused"); return
        xy = R.coords(); tr = eval_(t, c.T, xy); s = len(R.q) - 1; tot = 0.0; A = R.areas()
        for v in range(3): tot += float((A / 2 * ((R.at(R.q[s][:, v]) - tr[v]) ** 2 @ R.w)).sum())
        m = re.search(r"L2 error:\s*(\S+)", r.out)
        if not ctx.check(m is not None, "norm", "no error norm printed", it): return
        got = float(m.group(1)); scale = math.sqrt(float(sum((A / 2 * (tr[v] ** 2 @ R.w)).sum() for v in range(3)))); ctx.check(abs(got - math.sqrt(tot)) <= 1e-7 * got + 1e-11 * scale, "norm", "%s: error norm %.12g, distance %.12g (norm of the solution %.3g)" % (prob, got, math.sqrt(tot), scale), it); ctx.case(it, sample="%s error norm %.6g" % (prob, got)); ctx.obs("error norms")
    def eval_(t, T_, xy): return C.eval_fn(t, T_, xy[..., 0], xy[..., 1])
    J = [("one", p, k) for k in range(ctx.n(10, 120)) for p in probs] + [("norm", p, k) for k in range(ctx.n(2, 20)) for p in probs]
    ctx.par(lambda j: (one if j[0] == "one" else norm)(j), J, workers=6)
    return {"rule": "modal, VTK and VTU files of the real serial and distributed programs over random meshes, orders, frequencies, paths and option combinations: parsed by independent readers; times, places, coverage, coordinates, values at points and cell centres, wet/dry flags against the states recorded inside a second run; modal files byte-identical with and without the other outputs; error norm against an independent quadrature",
            "assumptions": ["values are compared to the printed precision (six digits, single precision in VTK/VTU, and the effect of six-digit coordinates)", "cell values are those at the cell centre"]}
