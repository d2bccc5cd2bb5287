"""C24: the real programs (serial and distributed) under injected faults: non-finite sources, unstable steps, missing/truncated/unusable files, unwritable output; exit status, message, output and completion judged."""
import glob, math, os, re, shutil, struct
import numpy as np
import build, cases as C, core, dist, gen
CRASH = (11, 8, 4, 7)      # memory, arithmetic, illegal instruction, bus
def modal(d):
    """{variable: [(time, values)]} of one output directory; raises ValueError on anything unreadable"""
    R = {}
    for v in ("ze", "qx", "qy", "bath"):
        g = glob.glob(d + "/*_modal_%s.txt" % v)
        if not g: continue
        cur = []; 
        for l in open(g[0]):
            t = l.split()
            if len(t) == 1: cur.append((float(t[0]), []))
            elif len(t) == 2: cur[-1][1].append(float(t[1]))
            else: raise ValueError("line %r" % l)
        R[v] = cur
    return R
def serial(exe, d, inp, env=None, timeout=40):
    for attempt in (0, 1):
        r = core.run_proc([exe, inp], cwd=d, env=env, timeout=timeout)
        if not core.again(r, attempt): break
    return r
def distributed(exe, d, inp, ranks, threads, env=None, timeout=40):
    for attempt in (0, 1):
        t = "%s/mpi%d" % (d, attempt); os.makedirs(t, exist_ok=True)
        r = core.run_proc(dist.MPI + [t, "-n", str(ranks), exe, inp], cwd=d, env=dict({"OMP_NUM_THREADS": str(threads), "TMPDIR": t, "OMPI_MCA_rmaps_base_oversubscribe": "1"}, **(env or {})), timeout=timeout)
        if not core.again(r, attempt): break
    return r
def said(r):
    """something about the failure that does not come from mpirun itself"""
    t = re.sub(r"-{20,}.*?-{20,}", "", r.err, flags=re.S); t = re.sub(r"(?m)^.*(mpirun|prterun|PMIX|ORTE|orte).*$", "", t)
    return len(re.sub(r"[\s\-\[\]:*]", "", t)) > 8
def crashed(r):
    s = r.sig or ((r.rc - 128) if r.rc and 128 < r.rc < 160 else 0)
    return abs(s) in CRASH or re.search(r"Segmentation fault|Signal: (Bus|Floating|Illegal)|free\(\): |malloc\(\)|corrupted|double free", r.err)
def run(ctx):
    S, O, P = build.program("serial").submit(), build.program("ompi").submit(), build.partitioner().submit(); S, O, P = S.path(), O.path(), P.path(); probs = ["rkdg", "ehdg", "ihdg", "gn"]
    def outs(d): return [d + "/out"] + [x for x in glob.glob(d + "/out/*") if os.path.isdir(x)]
    def complete(d, c, it, tag):
        """an exit status of zero promises all requested output, finite, up to the end"""
        n = 0
        for o in outs(d):
            try: M = modal(o)
            except (ValueError, IndexError) as e: ctx.bad("output", "%s: unreadable output: %s" % (tag, e), it); continue
            if not M: continue
            n += 1
            for v, L in M.items():
                T = [t for t, _ in L]; E = [i * c.dt for i in range(c.steps + 1)]
                ctx.check(len(T) == len(E) and all(abs(a - b) <= 2e-6 + 1e-9 * b for a, b in zip(T, E)), "incomplete", "%s: exit status 0, but %s of %s holds %d records up to %s instead of %d up to %g" % (tag, v, o[len(d):], len(T), T[-1:], len(E), E[-1]), it)
                ctx.check(all(np.isfinite(x).all() for _, x in L), "nonfinite-result", "%s: exit status 0, but %s holds non-finite values" % (tag, v), it)
        ctx.check(n > 0, "incomplete", "%s: exit status 0 without any output" % tag, it); ctx.obs("complete outputs", n)
    def failed(r, it, tag, must=True, key=None):
        key = key or re.sub(r"[^a-z]+", "-", tag.lower())[:40]
        if not ctx.check(not r.timeout, "hang:" + key, "%s: the program does not end" % tag, it): return
        if r.rc == 0: ctx.check(not must, "accepted:" + key, "%s: exit status 0" % tag, it); return
        ctx.obs("failures reported"); ctx.check(said(r), "silent:" + key, "%s: ends with rc=%s sig=%s without a message: %r" % (tag, r.rc, r.sig, r.err[-300:]), it)
        ctx.check(not crashed(r), "crash:" + key, "%s: crash: rc=%s sig=%s %s" % (tag, r.rc, r.sig, r.err[-300:]), it)
    def setup(rng, it, prob, kind=None, steps=None, parts=None, p=None):
        d = ctx.dir("_".join(map(str, it))); k = kind or rng.choice(["closed", "friction"] if prob in ("ihdg", "gn") else ["closed", "friction", "limiter", "wetdry"]); c = gen.scenario(rng, d, prob, "closed" if k == "deep" else k, steps=steps or rng.randint(3, 6), nmax=3, p=p)
        if k == "wetdry": c.set_bath("wavy", 0.2); c.problem["wetting_drying"] = {"h_o": 0.001 * c.h0}; c.waves(0.05, 0.02)
        return d, c
    def split(rng, d, c, inp, np_=None, nn=None, keep=False):
        if not keep:
            for f in glob.glob(d + '/mesh_*_*.*') + glob.glob(d + '/mesh_*_*'): 
                if os.path.exists(f): os.remove(f)
        np_ = np_ or rng.choice([2, 3, 4]); A = dist.assign(rng, c.mesh, np_); parts = sorted(set(A.values())); nn = nn or rng.choice([1, 2]); nn = min(nn, len(parts)); order = rng.sample(parts, len(parts)); node = {q: i % nn for i, q in enumerate(order)}
        dist.write_answers(d + "/ans", c.mesh, A, len(parts), nn, node); r = dist.partition(P, d, inp, len(parts), nn, env=dict(c.env, VERIF_PART=d + "/ans"))
        if r.rc != 0: raise core.Fails("partitioner: %r" % r)
        return inp[:-3] + "_parallelized.15", nn
    def go(rng, d, c, inp, how): 
        if how == "serial": return serial(S, d, inp, env=c.env)
        q, nn = split(rng, d, c, inp); return distributed(O, d, q, nn, rng.choice([1, 2, 3]), env=c.env)
    # --- non-finite solutions
    def nonfinite(it):
        _, prob, how, k = it; rng = ctx.rng(*it); pure = k == "const"; d, c = setup(rng, it, prob, **({"kind": "closed", "p": 0} if pure else {})); inp = c.write()      # order 0: infinite values do not turn into NaN
        r = go(rng, d, c, inp, how); tag = "%s %s control" % (prob, how)
        if not ctx.check(r.rc == 0, "control", "%s: a run without fault ends with rc=%s sig=%s timeout=%s %s" % (tag, r.rc, r.sig, r.timeout, r.err[-300:]), it): return
        complete(d, c, it, tag); first = rng.choice([0, 1, c.steps - 1, c.steps - 1, rng.randrange(c.steps)]) if not pure else c.steps - 1; t0 = (first - 0.5) * c.dt if first else -1.0
        for v in range(3):
            what = rng.choice([float("inf"), -float("inf")]) if pure else rng.choice([float("nan"), float("inf"), -float("inf")] if v or "wetting_drying" not in c.problem else [float("nan"), float("inf")]); e = rng.choice(sorted(c.mesh.elts)); X = np.array([c.mesh.nodes[n][:2] for n in c.mesh.elts[e]]); o = X.mean(0); R = max(np.hypot(*(X - o).T)) * 1.0001
            def holds(o_):
                q = o_.split("/")[-1]; return e in dist.read_meta("%s/mesh_%s.meta" % (d, q))["E"]
            shutil.rmtree(d + "/out"); os.makedirs(d + "/out"); T = list(c.terms); c.function(T + [(3 + v, 6, what, t0, o[0], o[1], R)], mode="s"); c.terms = T; c.problem["function_source"] = "Enable"; order = (1, 1) if pure else rng.choice([None, None, (1, 1)]) if prob != "ihdg" else None
            inp = c.write(**({"order": 1, "nstages": 1} if order else {})); r = go(rng, d, c, inp, how); tag = "%s %s, %s in %s from step %d of %d on%s%s" % (prob, how, what, ("ze", "qx", "qy")[v], first + 1, c.steps, ", one stage" if order else "", "".join(", " + x for x in ("wetting_drying", "slope_limiting") if x in c.problem))
            failed(r, it, tag, key="nonfinite:%s:%s" % (prob, how)); ctx.obs("non-finite values injected"); ctx.obs("injected: %s" % what); ctx.case(it + (v,), sample=tag)
            nsub = len([o_ for o_ in outs(d)]) - 1
            for o_ in outs(d):
                # submeshes that do not hold the element may be ahead by the distance to it, but never with non-finite values
                late = 0 if how == "serial" or o_.endswith("/out") or holds(o_) else nsub
                try: M = modal(o_)
                except (ValueError, IndexError): continue      # the last record may be cut off
                for v_, L in M.items():
                    ctx.check(all(np.isfinite(x).all() for _, x in L), "nonfinite-written:%s:%s" % (prob, how), "%s: non-finite %s written" % (tag, v_), it); ctx.check(all(t <= (first + 0.01 + late) * c.dt + 2e-6 for t, _ in L), "goes-on:%s:%s" % (prob, how), "%s: output up to %g" % (tag, L[-1][0]), it)
    def unstable(it):
        _, prob, how, k = it; rng = ctx.rng(*it); d, c = setup(rng, it, prob, kind="closed"); f = rng.choice([30, 100, 300, 1000]); c.dt *= f; c.T = max(1, math.ceil(c.T * f)); c.steps = rng.randint(20, 40); c.dt = c.T / c.steps
        inp = c.write(); r = go(rng, d, c, inp, how); tag = "%s %s unstable by %d" % (prob, how, f); failed(r, it, tag, must=False, key="unstable:%s:%s" % (prob, how)); ctx.case(it, sample=tag)
        if r.rc == 0: complete(d, c, it, tag)
        else: ctx.obs("unstable runs stopped: %s" % how)
    # --- files
    def files(it):
        _, how, k = it; rng = ctx.rng(*it); prob = rng.choice(probs if how == "serial" else ["rkdg", "ehdg"]); d = ctx.dir("_".join(map(str, it))); c = gen.scenario(rng, d, prob, "open", steps=4, nmax=3); c.manning(); c.meteo(every=rng.choice([1, 2]))
        inp = c.write(); ranks = 1
        if how != "serial": inp, ranks = split(rng, d, c, inp, nn=2)
        def start(): return serial(S, d, inp, env=c.env) if how == "serial" else distributed(O, d, inp, ranks, 2, env=c.env)
        r = start()
        if not ctx.check(r.rc == 0, "control", "%s %s: intact files, rc=%s %s" % (prob, how, r.rc, r.err[-300:]), it): return
        complete(d, c, it, "intact"); L = sorted(f for f in os.listdir(d) if os.path.isfile(d + "/" + f) and f not in ("fn.txt", "ans", "raw.txt", "in.15" if how != "serial" else "") and not (how != "serial" and f in ("mesh.14", "mesh.bcis")))
        # files of later meteorological times than the run needs do not count
        need = set(range(0, (c.steps // c.met_every + 1) * c.met_every + 1, c.met_every)); L = [f for f in L if not re.fullmatch(r"wind_\d+\.txt", f) or int(f[5:-4]) in need - {max(need)}]
        ops = [(f, o) for f in L for o in (("missing", "empty", "cut", "directory") if not f.startswith("wind") else ("missing",))]
        if not ctx.thorough: ops = rng.sample(ops, min(7, len(ops)))
        for f, o in ops:
            if f.endswith(".bcis") and o in ("missing", "empty") or f.endswith(".dbmd") and o == "empty" and os.path.getsize(d + "/" + f) == 0: ctx.obs("bc file " + o)
            p = d + "/" + f; b = open(p, "rb").read(); Ls = b.split(b"\n")
            if o == "cut" and (len(Ls) < 4 or f.endswith(".15")): continue
            shutil.rmtree(d + "/out"); os.makedirs(d + "/out"); os.remove(p)
            if o == "empty": open(p, "w").close()
            elif o == "directory": os.mkdir(p)
            elif o == "cut":
                # a mesh file cut between its parts or inside a row; a cut partition description
                if f.endswith(".14"): n = int(Ls[1].split()[0]) + int(Ls[1].split()[1]); cut = rng.choice([1, 2, rng.randrange(2, n + 2), n + 2, n + 1])
                elif f.endswith(".meta"): cut = rng.choice([1, 2, rng.randrange(1, len(Ls) - 1), len(Ls) - 2])
                else: cut = rng.randrange(1, len(Ls) - 1)
                if f.endswith((".bcis", ".dbmd")) and cut in blocks(f, Ls): os.rename(p, p) if False else open(p, "wb").write(b); continue
                open(p, "wb").write(b"\n".join(Ls[:cut]) + b"\n")
            r = start(); kind = re.sub(r"_?\d+", "", f); tag = "%s %s: %s %s" % (prob, how, f, o); failed(r, it, tag, key="file:%s:%s:%s" % (how, kind, o)); ctx.obs("file faults: %s %s" % (kind, o)); ctx.case(it + (f, o), sample=tag)
            if o == "directory": os.rmdir(p)
            open(p, "wb").write(b)
    def blocks(f, Ls):
        k, out = 0, []
        while k < len(Ls) - 1:
            out.append(k); t = Ls[k].split()
            k += 1 + (int(t[4]) if f.endswith(".dbmd") else int(t[1]) if int(t[0]) == C.LEVEE_TYPE else 1 + int(Ls[k + 1]) * (1 + int(t[1])))
        return out + [k]
    # --- output that cannot be written
    def unwritable(it):
        _, how, k = it; rng = ctx.rng(*it); prob = rng.choice(probs if how == "serial" else ["rkdg", "ehdg"]); d, c = setup(rng, it, prob, kind="closed", steps=3); inp = c.write(vtk=c.dt * (1 - 1e-9), vtu=c.dt * (1 - 1e-9)); ranks = 1
        if how != "serial": inp, ranks = split(rng, d, c, inp, nn=2)
        def start(): return serial(S, d, inp, env=c.env) if how == "serial" else distributed(O, d, inp, ranks, 1, env=c.env)
        r = start()
        if not ctx.check(r.rc == 0, "control", "%s %s: rc=%s %s" % (prob, how, r.rc, r.err[-300:]), it): return
        complete(d, c, it, "writable"); W = sorted(os.path.join(a, f) for a, _, fs in os.walk(d + "/out") for f in fs if "raw" not in f)
        for f in rng.sample(W, 3) + [None]:
            shutil.rmtree(d + "/out")
            if f is None: open(d + "/out", "w").close(); tag = "output path is a file"
            else: os.makedirs(os.path.dirname(f)); os.symlink("/dev/full", f); tag = "%s on a full device" % os.path.basename(f)
            r = start(); failed(r, it, "%s %s: %s" % (prob, how, tag), key="unwritable:%s" % how); ctx.obs("unwritable outputs"); ctx.case(it + (str(f)[len(d):],), sample=tag)
            if f is None: os.remove(d + "/out"); os.makedirs(d + "/out")
    # --- processes and partitions that do not fit
    def misfit(it):
        _, k = it; rng = ctx.rng(*it); prob = rng.choice(["rkdg", "ehdg"]); d, c = setup(rng, it, prob, kind="closed", steps=3); inp = c.write(); q, nn = split(rng, d, c, inp, np_=3, nn=2)
        for n in (1, 2, 3, 4):
            shutil.rmtree(d + "/out"); os.makedirs(d + "/out"); r = distributed(O, d, q, n, 1, env=c.env); tag = "%s: files for %d processes, %d started" % (prob, nn, n); failed(r, it, tag, must=n < nn, key="processes"); ctx.case(it + (n,), sample=tag)
            if r.rc == 0: complete(d, c, it, tag)
        # a second partitioning into fewer parts next to the files of the first
        for n, m in rng.sample([(4, 2), (3, 2), (4, 3), (4, 4), (3, 3)], 2):
            split(rng, d, c, inp, np_=n, nn=rng.choice([1, 2])); q, nn = split(rng, d, c, inp, np_=m, nn=rng.choice([1, 2]), keep=True); shutil.rmtree(d + "/out"); os.makedirs(d + "/out")
            r = distributed(O, d, q, nn, 1, env=c.env); tag = "%s: %d parts after %d parts" % (prob, m, n); failed(r, it, tag, must=False, key="stale"); ctx.obs("stale partitions %s" % ("refused" if r.rc else "run")); ctx.case(it + (n, m), sample=tag)
            if r.rc == 0:
                complete(d, c, it, tag); k = sum(len(modal(o)["ze"][-1][1]) for o in outs(d) if o != d + "/out"); ctx.check(k == len(c.mesh.elts) * (c.p + 1) * (c.p + 2) // 2, "stale-mixed", "%s: exit status 0 with %d values for %d elements of order %d" % (tag, k, len(c.mesh.elts), c.p), it)
    J = [("nonfinite", p, h, k) for h, n in (("mpi", ctx.n(2, 30)), ("serial", ctx.n(4, 60))) for p in probs for k in range(n)] + [("nonfinite", p, h, "const") for h in ("serial", "mpi") for p in ("rkdg", "ehdg")] + [("files", h, k) for h, n in (("mpi", ctx.n(4, 30)), ("serial", ctx.n(6, 40))) for k in range(n)]
    J += [("unstable", p, h, k) for p in probs for h, n in (("mpi", ctx.n(1, 10)), ("serial", ctx.n(3, 40))) for k in range(n)] + [("unwritable", h, k) for h in ("mpi", "serial") for k in range(ctx.n(2, 15))] + [("misfit", k) for k in range(ctx.n(1, 10))]
    F = {"nonfinite": nonfinite, "files": files, "unstable": unstable, "unwritable": unwritable, "misfit": misfit}
    ctx.par(lambda j: F[j[0]](j), J, workers=6)
    return {"rule": "the real serial and distributed programs: NaN/inf sources in one element of one variable from a chosen step on, unstable time steps, every input file missing, empty, cut or replaced by a directory, output on a full device, wrong numbers of processes; each next to an intact control run",
            "assumptions": ["a missing boundary-data file is refused only when the mesh has boundaries that need one"]}
