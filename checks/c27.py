"""C27: the real serial and distributed programs and the partitioner under AddressSanitizer + UndefinedBehaviorSanitizer (+ library assertions), and the serial program under memcheck, over accepted inputs of every kind and malformed variants of every input file."""
import glob, os, re, shutil
import build, cases as C, core, dist, gen
ENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:max_allocation_size_mb=2000:detect_stack_use_after_return=1:strict_init_order=1:hard_rss_limit_mb=5000:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98"}
def report(r):
    """(kind, where) of undefined behaviour seen by the instrumentation, None when there is none"""
    e = r.err
    m = re.search(r"(?:ERROR: AddressSanitizer|AddressSanitizer): (?!hard rss|requested alloc|out-of-memory|allocation-size-too-big|calloc-overflow)([\w-]+)", e)
    if m and not re.search(r"AddressSanitizer: (failed to allocate|hard rss limit|out of memory)", e): return m.group(1), where(e)
    m = re.search(r"([^\s:]+):(\d+):\d+: runtime error: (.*)", e)
    if m: return "undefined: " + re.sub(r"0x\w+|-?\d[\w.+-]*", "N", m.group(3))[:70], os.path.basename(m.group(1))
    m = re.search(r"(\S+):\d+: .*Assertion [`'](.{0,80})", e)
    if m and "/c++/" in m.group(1) or m and "/Eigen/" in m.group(1): return "assertion " + m.group(2)[:50], os.path.basename(m.group(1)) + " from " + where(e)
    m = re.search(r"Signal: (Segmentation fault|Bus error|Floating point|Illegal)", e)
    if m or r.sig in (11, 7, 8, 4): return "signal %s" % (m.group(1) if m else r.sig), "?"
    return None
def where(e):
    for m in re.finditer(r"#\d+ 0x\w+ in (.+?) (/\S+?):(\d+)", e):
        if "/source/" in m.group(2) or "/partitioner/" in m.group(2): return os.path.basename(m.group(2)) + ":" + re.sub(r"[<(].*", "", m.group(1)).split("::")[-1]
    return "?"
NUM = ["-1", "0", "1", "2", "3", "4", "7", "999", "1e9", "65", "255", "256", "257", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "99999999999999999999", "nan", "inf", "-inf", "1e308", "-1e308", "1e-308", "0.5", "abc", ""]
def mutate(rng, b, yaml):
    """one malformed variant of a text file; (bytes, description)"""
    L = b.split(b"\n")
    if L and L[-1] == b"": L.pop()
    for _ in range(50):
        k = rng.choice(["token", "token", "token", "token", "del", "dup", "swap", "cut", "bytes", "join", "empty", "long"]); i = rng.randrange(len(L)) if rng.random() < 0.7 or len(L) < 4 else rng.randrange(min(len(L), 3)); M = list(L)
        if yaml and (k in ("bytes", "cut") or re.match(rb"\s*(path|file_name|name|input_file|raw_input_file)\s*:", L[i])): continue
        if k == "token":
            t = list(re.finditer(rb"[^\s,:]+", L[i]))
            if not t: continue
            m = rng.choice(t[1:] if yaml and len(t) > 1 else t); v = rng.choice(NUM).encode(); M[i] = L[i][:m.start()] + v + L[i][m.end():]; d = "line %d: %r -> %r" % (i + 1, L[i][:60], M[i][:60])
        elif k == "del": del M[i]; d = "line %d deleted" % (i + 1)
        elif k == "dup": M.insert(i, L[i]); d = "line %d twice" % (i + 1)
        elif k == "swap": j = rng.randrange(len(L)); M[i], M[j] = M[j], M[i]; d = "lines %d and %d exchanged" % (i + 1, j + 1)
        elif k == "cut": n = rng.randrange(len(b) + 1); return b[:n], "cut after %d of %d bytes" % (n, len(b))
        elif k == "bytes":
            a = bytearray(b)
            for _ in range(rng.choice([1, 1, 3])):
                if a: a[rng.randrange(len(a))] = rng.choice([0, 10, 32, 45, 46, 48, 57, 128, 255, rng.randrange(256)])
            return bytes(a), "bytes changed"
        elif k == "join" and i + 1 < len(L): M[i] += b" " + M.pop(i + 1); d = "lines %d and %d joined" % (i + 1, i + 2)
        elif k == "empty": M[i] = b""; d = "line %d empty" % (i + 1)
        elif k == "long": M[i] = L[i] + b" 1" * rng.choice([1, 3, 2000]); d = "line %d lengthened" % (i + 1)
        else: continue
        r = b"\n".join(M) + b"\n"
        if r != b: return r, d
    return b, "unchanged"
def run(ctx):
    probs = ["rkdg", "ehdg", "ihdg", "gn"]; order = ["gn", "ihdg", "ehdg", "rkdg"]
    O, S = {p: build.program("ompi", "mem", prob=p).submit() for p in order}, {p: build.program("serial", "mem", prob=p).submit() for p in order}; P, V = build.partitioner("mem").submit(), build.program("serial").submit()
    O, S, P, V = {p: t.path() for p, t in O.items()}, {p: t.path() for p, t in S.items()}, P.path(), V.path()
    G = build.generator("mem").path()
    def judge(r, it, tag, how):
        ctx.obs("runs: " + how)
        if r.timeout: ctx.obs("runs cut off by the time limit"); return None
        v = report(r)
        if v and os.environ.get("VERIF_KEEP"): shutil.copytree(ctx.dir("_".join(map(str, it))), os.environ["VERIF_KEEP"] + "/%s_%d" % ("_".join(map(str, it)), hash(tag) % 1000), dirs_exist_ok=True)
        if v: ctx.bad("%s @ %s" % v, "%s: %s in %s: %s" % (tag, v[0], v[1], " | ".join(l for l in r.err.split("\n") if re.search(r"ERROR|runtime error|Assertion|    #[0-6] ", l))[:900]), it)
        return r
    def scen(rng, d, prob, k):
        ks = gen.KINDS[prob] + ["forces", "sphere"]; kind = ks[k % len(ks)]
        c = gen.scenario(rng, d, prob, {"forces": "open", "sphere": "closed"}.get(kind, kind), p=rng.choice([None, None, None, 0, 4]) if prob == "rkdg" and kind in ("closed", "open", "friction", "func", "levee", "forces") else None, steps=rng.randint(3, 5) if kind != "wetdry" else 15, nmax=3)
        if c.p == 4: c.dt *= 0.3
        if kind == "forces": c.manning(); c.meteo(every=rng.choice([1, 2])); c.problem["coriolis"] = "Enable"
        if kind == "sphere": c.problem["spherical_projection"] = {"longitude_o": 0.0, "latitude_o": 20.0, "R": 6.4e6}
        if rng.random() < 0.4 and prob in ("rkdg", "ehdg", "ihdg"): c.problem["function_source"] = "Enable"; c.function(c.terms + [(3, 1, 1e-3 * c.h0 / c.T, 1 / c.size, 0.0, 0.0, 0.3), (4, 0, 1e-3 * c.h0 / c.T)], mode="s")
        return kind, c
    def write(rng, c, **kw):
        w = rng.random() < 0.7; f = lambda: c.dt * rng.choice([1, 2]) * (1 - 1e-9) if rng.random() < 0.6 else None
        return c.write(vtk=f(), vtu=f(), log=rng.choice([None, ("log", "true"), ("log", "false")]), **kw)
    def split(rng, d, c, inp, it):
        np_ = rng.choice([2, 3, 5]); A = dist.assign(rng, c.mesh, np_); parts = sorted(set(A.values())); nn = min(rng.choice([1, 2]), len(parts)); node = {q: i % nn for i, q in enumerate(rng.sample(parts, len(parts)))}; dist.write_answers(d + "/ans", c.mesh, A, len(parts), nn, node)
        r = dist.partition(P, d, inp, len(parts), nn, env=dict(c.env, VERIF_PART=d + "/ans", **ENV)); judge(r, it, "partitioner", "partitioner"); return inp[:-3] + "_parallelized.15", nn, r
    def mpi(rng, d, c, inp, n, timeout=60):
        t = d + "/mpi"; os.makedirs(t, exist_ok=True); return core.run_proc(dist.MPI + [t, "-n", str(n), O[c.prob], inp], cwd=d, env=dict(c.env, OMP_NUM_THREADS=str(rng.choice([1, 2])), TMPDIR=t, OMPI_MCA_rmaps_base_oversubscribe="1", **ENV), timeout=timeout)
    def valid(it):
        _, how, prob, k = it; rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); kind, c = scen(rng, d, prob, k); inp = write(rng, c); tag = "%s %s %s p=%d" % (how, prob, kind, c.p)
        if how == "mpi":
            q, n, r = split(rng, d, c, inp, it)
            if r.rc != 0: raise core.Fails("partitioner refuses: %r" % r)
            r = mpi(rng, d, c, q, n, 120)
        elif how == "memcheck":
            r = core.run_proc(["valgrind", "-q", "--error-exitcode=97", "--track-origins=no", "--num-callers=12", V, inp], cwd=d, env=dict(c.env, OMP_NUM_THREADS="1"), timeout=200); ctx.obs("runs: memcheck")
            if r.timeout: ctx.obs("runs cut off by the time limit"); return
            e = [l for l in r.err.split("\n") if re.search(r"uninitialised|Invalid (read|write|free)|Mismatched free|overlap", l)]; w = re.findall(r"(?:at|by) 0x\w+: (\S+?)[<(].*\((\S+?:\d+)\)", r.err)
            if e: ctx.bad("memcheck: " + re.sub(r"==\d+==\s*|\d+", "", e[0]).strip(), "%s: %s; %s" % (tag, e[0], w[:4]), it)
            ctx.case(it, sample=tag); return
        else: r = core.run_proc([S[c.prob], inp], cwd=d, env=dict(c.env, **ENV), timeout=120)
        if judge(r, it, tag, how) is not None: ctx.obs("accepted inputs run to the end" if r.rc == 0 else "accepted inputs that end early: %s" % tag)
        ctx.case(it, sample=tag)
        if k == 0 and how == "serial" and r.rc != 0 and not report(r): raise core.Fails("%s: rc=%s sig=%s %s" % (tag, r.rc, r.sig, r.err[-300:]))
    def broken(it):
        _, how, prob, k = it; rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); kind, c = scen(rng, d, prob, k + 3 * (how == "mpi")); fmt = "Adcirc"
        if not c.tide and not c.flow and kind != "levee" and rng.random() < 0.5: c.problem["bottom_friction"] = {"type": "Chezy", "coefficient": 0.01}
        inp = write(rng, c); n = 1
        if how == "mpi":
            q, n, r = split(rng, d, c, inp, it)
            if r.rc != 0: raise core.Fails("partitioner refuses: %r" % r)
            inp = q; F = sorted(glob.glob(d + "/*.meta") + glob.glob(d + "/*.dbmd") + glob.glob(d + "/mesh_*.bcis") + [d + "/" + inp])
        elif how == "meta":      # the code's own mesh format
            import c09; c09.write_meta(d + "/mesh.meta", c.mesh, c09.expected(c.mesh)); s = open(d + "/" + inp).read().replace("mesh.14", "mesh.meta").replace("Adcirc", "Meta"); open(d + "/" + inp, "w").write(s); F = [d + "/mesh.meta"]
        else: F = [x for x in (d + "/mesh.14", d + "/mesh.14", d + "/mesh.bcis", d + "/manning.dat", d + "/wind_0.txt", d + "/" + inp) if os.path.exists(x)]
        keep = {f: open(f, "rb").read() for f in set(F)}; F = [f for f in F if keep[f]]
        for j in range(ctx.n(10 if how != "mpi" else 5, 60)):
            f = rng.choice(F); b, what = mutate(rng, keep[f], f.endswith(".15")); open(f, "wb").write(b); tag = "%s %s %s, %s %s" % (how, prob, kind, os.path.basename(f), what)
            if how == "part": r = dist.partition(P, d, inp, rng.choice([1, 2, 3]), rng.choice([1, 1, 2]), env=dict(c.env, VERIF_PART=d + "/none", **ENV), timeout=10)
            elif how == "mpi": r = mpi(rng, d, c, inp, n, 15)
            else: r = core.run_proc([S[c.prob], inp], cwd=d, env=dict(c.env, **ENV), timeout=10)
            judge(r, it, tag, "malformed, " + how); open(f, "wb").write(keep[f]); ctx.obs("malformed %s" % os.path.basename(f).split(".")[-1]); ctx.case(it + (j,), sample=tag)
            ctx.obs("malformed inputs refused" if r.rc != 0 else "malformed inputs run")
    def generator(it):
        rng = ctx.rng(*it); d = ctx.dir("_".join(map(str, it))); Y = b"mesh_name: q\nx1: 0.0\ny1: 0.0\nx2: 8.0\ny2: 0.0\nx3: 8.0\ny3: 6.0\nx4: 0.0\ny4: 6.0\nnum_x_subdivisions: 4\nnum_y_subdivisions: 3\npattern: %d\nboundary:\n" % rng.randrange(3) + b"".join(b" - type: %s\n" % t + (b"   frequency: 1e-4\n   forcing_factor: 1.0\n   equilibrium_argument: 0.0\n" if t in (b"tide", b"flow") else b"") for t in [rng.choice([b"land", b"tide", b"flow", b"function", b"outflow"]) for _ in range(4)])
        for j in range(ctx.n(9, 40)):
            big = [b"4294967295", b"65535", b"2147483648"][j % 3] if j in (1, 2, 3) else None
            if big: b, what = re.sub(rb"(num_[xy]_subdivisions:) \d+", rb"\1 " + big, Y), "too large"
            else: b, what = mutate(rng, Y, True) if j else (Y, "valid")
            open(d + "/g.yml", "wb").write(b); r = core.run_proc([G, "g.yml"], cwd=d, env=ENV, timeout=10); judge(r, it, "generator, " + what, "generator"); ctx.obs("generator requests " + ("refused" if r.rc != 0 else "served")) if not r.timeout else None;
            if what == "valid" and r.rc != 0: raise core.Fails("generator: %r" % r)
            ctx.case(it + (j,))
    J = [("valid", "memcheck", p, k) for k in range(ctx.n(2, 12)) for p in probs] + [("broken", h, p, k) for h, n in (("mpi", ctx.n(2, 20)), ("serial", ctx.n(5, 40)), ("part", ctx.n(2, 10)), ("meta", ctx.n(2, 10))) for p in (probs if h != "part" else ["rkdg"]) for k in range(n)]
    J += [("valid", h, p, k) for h, n in (("mpi", ctx.n(3, 20)), ("serial", ctx.n(9, 60))) for p in probs for k in range(n)] + [("generator", k) for k in range(ctx.n(2, 10))]
    F = {"valid": valid, "broken": broken, "generator": generator}
    ctx.par(lambda j: F[j[0]](j), J, workers=8)
    return {"rule": "the real programs built with address and undefined-behaviour sanitizers and library assertions, over every scenario kind and option, serial and distributed, and over malformed variants of every kind of input file; the serial program under memcheck (uninitialised values); any report is a violation",
            "assumptions": ["memory exhaustion and runs cut off by the time limit are not judged", "uninitialised reads are looked for in serial runs only"]}
