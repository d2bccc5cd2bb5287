"""C16: the real input reader/writer on generated configurations, omissions and corruptions; every parsed value against what was written; the real program on unusable required fields."""
import copy, datetime, json, os, re
import yaml
import build, cases as C, core, gen
DEF = {"p": None, "time.ramp": 0.0, "out.on": 0.0, "out.path": "", "log.on": 0.0, "log.verbose": 0.0, "log.name": "", "g": 9.81, "rho_air": 1.225, "rho_water": 1000.0, "sp.on": 0.0, "sp.lon": 0.0, "sp.lat": 0.0, "sp.R": 6378200.0,
       "ic.type": 0.0, "ic.ze": 0.0, "ic.qx": 0.0, "ic.qy": 0.0, "fsource": 0.0, "bf.type": 0.0, "bf.coef": 0.0, "bf.file": "", "met.on": 0.0, "met.type": "", "met.raw": "", "met.file": "", "met.freq": 0.0, "tidepot": 0.0, "coriolis": 0.0,
       "wd.on": 0.0, "wd.h_o": 0.1, "sl.on": 0.0, "sl.M": 1e-8, "sl.nu": 1.5, "lb.on": 0.0, "lb.name": "", "lb.freq": 0.0}
for k in ("vtk", "vtu", "modal"): DEF.update({k + ".on": 0.0, k + ".freq": 0.0, k + ".steps": 0.0})
def steps(T, dt):
    r = T / dt; n = round(r)
    return float(n if n >= 1 and abs(r - n) <= 1e-9 * n else -(-r // 1))
def word(rng): return "".join(rng.choice("abcXYZ_019") for _ in range(rng.randint(1, 9)))
def num(rng): return rng.choice([lambda: rng.uniform(-10, 10), lambda: float(rng.randint(-5, 50)), lambda: rng.uniform(0, 1) * 10 ** rng.randint(-12, 12), lambda: round(rng.uniform(0, 100), 2)])()
def pos(rng): return abs(num(rng)) + 1e-3
def config(rng, name=None):
    """(yaml tree, expected values)"""
    name = name or rng.choice(["rkdg_swe", "ehdg_swe", "ihdg_swe", "ehdg_gn"]); E = dict(DEF); stem = word(rng); fmt = rng.choice(["Adcirc", "Meta"]); ext = {"Adcirc": ".14", "Meta": ".meta"}[fmt]; sub = rng.choice(["", "", "../", "/tmp/a.b/"]); co = rng.choice(["cartesian", "polar", "spherical"])
    t0 = datetime.datetime(rng.randint(1990, 2037), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.choice([0, rng.randint(0, 59)])); T = rng.choice([rng.randint(1, 100), rng.randint(1, 10 ** 6), 86400 * rng.randint(1, 400)]); t1 = t0 + datetime.timedelta(seconds=T); dt = rng.choice([T / rng.randint(1, 5000), round(rng.uniform(0.01, 60), 2), 0.1, 1.0, 0.01])
    fm = lambda t: t.strftime("%d-%m-%Y %H:%M" if t.second == 0 and rng.random() < 0.5 else "%d-%m-%Y %H:%M:%S")
    o, n = rng.choice([(1, 1), (2, 2), (3, 3), (3, 4), (3, 5), (4, 5)]); p = rng.randint(0, 6)
    Y = {"polynomial_order": p, "mesh": {"format": fmt, "file_name": sub + stem + ext, "coordinate_system": co}, "timestepping": {"start_time": fm(t0), "end_time": fm(t1), "dt": dt, "order": o, "nstages": n}, "problem": {"name": name}}
    E.update({"p": p, "mesh.format": fmt, "mesh.file": sub + stem + ext, "mesh.bcis": sub + stem + ".bcis", "mesh.dbmd": sub + stem + ".dbmd", "mesh.coord": ["cartesian", "polar", "spherical"].index(co), "time.start": t0.strftime("%Y-%m-%d_%H:%M:%S"), "time.end": t1.strftime("%Y-%m-%d_%H:%M:%S"), "time.run": T, "time.dt": dt, "time.nstages": n, "time.order": o, "name": name})
    P = Y["problem"]; h = lambda q=0.5: rng.random() < q
    if h(): r = pos(rng); Y["timestepping"]["ramp_duration"] = r; E["time.ramp"] = r
    for k, y in (("g", "gravity"), ("rho_air", "density_air"), ("rho_water", "density_water")):
        if h(): E[k] = P[y] = pos(rng)
    if h(0.3): a, b, c = num(rng), num(rng), pos(rng); P["spherical_projection"] = {"type": "Enable", "longitude_o": a, "latitude_o": b, "R": c}; E.update({"sp.on": 1, "sp.lon": a, "sp.lat": b, "sp.R": c})
    k = rng.randrange(3)
    if k == 1: a, b, c = num(rng), num(rng), num(rng); P["initial_conditions"] = {"type": "Constant", "initial_surface_height": a, "initial_momentum_x": b, "initial_momentum_y": c}; E.update({"ic.type": 1, "ic.ze": a, "ic.qx": b, "ic.qy": c})
    elif k == 2: P["initial_conditions"] = {"type": "Function"}; E["ic.type"] = 2
    if h(0.3): P["function_source"] = "Enable"; E["fsource"] = 1
    k = rng.randrange(3); a = rng.choice([0.0, pos(rng)]); w = word(rng) + ".dat"
    if k: P["bottom_friction"] = {"type": ["Chezy", "Manning"][k - 1], "coefficient": a}; E.update({"bf.type": k, "bf.coef": a})
    if k == 2: P["bottom_friction"]["input_file"] = w; E["bf.file"] = w
    if h(0.4): a, b, c, f = word(rng), word(rng) + ".raw", word(rng) + ".txt", dt * rng.uniform(0.5, 20); P["meteo_forcing"] = {"type": a, "raw_input_file": b, "input_file": c, "frequency": f}; E.update({"met.on": 1, "met.type": a, "met.raw": b, "met.file": c, "met.freq": f})
    if h(0.3): P["tide_potential"] = {"type": "Test"}; E["tidepot"] = 1
    if h(0.3): P["coriolis"] = "Enable"; E["coriolis"] = 1
    if h(0.4): a = pos(rng); P["wetting_drying"] = {"h_o": a}; E.update({"wd.on": 1, "wd.h_o": a})
    if h(0.4): a, b = pos(rng), pos(rng); P["slope_limiting"] = {"type": "Cockburn-Shu", "M": a, "nu": b}; E.update({"sl.on": 1, "sl.M": a, "sl.nu": b})
    if h(0.7):
        w = word(rng) + rng.choice(["", "/", "/x"]); O = Y["output"] = {"path": w}; E.update({"out.on": 1, "out.path": w if w.endswith("/") else w + "/"})
        if h(): l = word(rng); v = h(); O["logfile"] = {"name": l, "verbose": v}; E.update({"log.on": 1, "log.name": l, "log.verbose": float(v)})
        for k in ("vtk", "vtu", "modal"):
            if h(): f = dt * rng.choice([rng.randint(1, 50), rng.uniform(0.3, 40), rng.randint(1, 3) + 0.5]); O[k] = {"frequency": f}; E.update({k + ".on": 1, k + ".freq": f, k + ".steps": steps(f, dt)})
    if h(0.2): l, f = word(rng), pos(rng); Y["load_balancer"] = {"name": l, "rebalance_frequency": f}; E.update({"lb.on": 1, "lb.name": l, "lb.freq": f})
    for a, b in (("G.g", "g"), ("G.rho_air", "rho_air"), ("G.rho_water", "rho_water"), ("G.fsource", "fsource"), ("G.met", "met.on"), ("G.tidepot", "tidepot"), ("G.coriolis", "coriolis"), ("G.wd", "wd.on"), ("G.h_o", "wd.h_o"), ("G.sl", "sl.on"), ("G.M", "sl.M"), ("G.nu", "sl.nu")): E[a] = E[b]
    E["G.bf"] = float(E["bf.type"] != 0); E["G.Cf"] = E["bf.coef"]
    return Y, E
def shuffle(rng, t): return {k: shuffle(rng, t[k]) for k in rng.sample(list(t), len(t))} if isinstance(t, dict) else t
def text(rng, Y):
    Z = shuffle(rng, Y); s = rng.randrange(3)
    if s == 0: return json.dumps(Z)
    r = yaml.dump(Z, default_flow_style=[False, None][s - 1], sort_keys=False, width=1000)
    return "# generated\n" + r if rng.random() < 0.5 else r
def drop(Y, path):
    Z = copy.deepcopy(Y); t = Z
    for k in path[:-1]: t = t[k]
    del t[path[-1]]; return Z
def put(Y, path, v):
    Z = copy.deepcopy(Y); t = Z
    for k in path[:-1]: t = t.setdefault(k, {})
    t[path[-1]] = v; return Z
def parse(path):
    D = {}
    for l in open(path):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("tide", "flow", "levee"): D.setdefault("bc", []).append(l.rstrip("\n"))
        else:
            try: D[k] = float(v)
            except ValueError: D[k] = v
    return D
def same(E, D):
    return ["%s: written %r, read %r" % (k, E[k], D.get(k)) for k in E if k != "END" and not (D.get(k) == E[k] or (isinstance(E[k], str) and str(D.get(k)) == E[k]) or (isinstance(E[k], str) and isinstance(D.get(k), float) and isnum(E[k]) and float(E[k]) == D[k]))]
def isnum(s):
    try: float(s); return True
    except ValueError: return False
SECTIONS = {"spherical_projection": ["sp.on", "sp.lon", "sp.lat", "sp.R"], "initial_conditions": ["ic.type", "ic.ze", "ic.qx", "ic.qy"], "function_source": ["fsource", "G.fsource"], "bottom_friction": ["bf.type", "bf.coef", "bf.file", "G.bf", "G.Cf"], "meteo_forcing": ["met.on", "met.type", "met.raw", "met.file", "met.freq", "G.met"],
            "tide_potential": ["tidepot", "G.tidepot"], "coriolis": ["coriolis", "G.coriolis"], "wetting_drying": ["wd.on", "wd.h_o", "G.wd", "G.h_o"], "slope_limiting": ["sl.on", "sl.M", "sl.nu", "G.sl", "G.M", "G.nu"]}
FULL = {"spherical_projection": {"longitude_o": 1.5, "latitude_o": 2.5, "R": 6e6}, "initial_conditions": {"type": "Constant", "initial_surface_height": 1.5, "initial_momentum_x": 2.5, "initial_momentum_y": 3.5}, "function_source": "Enable", "bottom_friction": {"type": "Manning", "coefficient": 0.5, "input_file": "m.dat"},
        "meteo_forcing": {"type": "T", "raw_input_file": "a", "input_file": "b.txt", "frequency": 3.0}, "tide_potential": {"type": "Test"}, "coriolis": "Enable", "wetting_drying": {"h_o": 0.7}, "slope_limiting": {"type": "Cockburn-Shu", "M": 0.3, "nu": 1.2}}
def malformed_optional(rng, Y):
    """(section, description, tree without it, tree with the malformed one)"""
    out = []
    for s, v in FULL.items():
        base = copy.deepcopy(Y); base["problem"].pop(s, None)
        if isinstance(v, dict):
            for k in v: w = dict(v); del w[k]; out.append((s, "without " + k, base, put(base, ["problem", s], w)))
            if "type" in v and s != "meteo_forcing": out.append((s, "unknown type", base, put(base, ["problem", s], dict(v, type="Foo"))))
            if s == "bottom_friction": out.append((s, "Chezy without coefficient", base, put(base, ["problem", s], {"type": "Chezy"})))
            for k in v:
                if isinstance(v[k], float): out.append((s, "%s not a number" % k, base, put(base, ["problem", s], dict(v, **{k: "x1"}))))
        else:
            out.append((s, "unknown value", base, put(base, ["problem", s], "Foo"))); out.append((s, "empty", base, put(base, ["problem", s], None)))
    return out
def required(rng, Y):
    """(description, tree) that must be refused; Y is complete and runs"""
    out = [("without " + ".".join(p), drop(Y, p)) for p in (["polynomial_order"], ["mesh"], ["mesh", "format"], ["mesh", "file_name"], ["mesh", "coordinate_system"], ["timestepping"], ["timestepping", "start_time"], ["timestepping", "end_time"], ["timestepping", "dt"], ["timestepping", "order"], ["timestepping", "nstages"],
            ["problem"], ["problem", "name"], ["output", "path"], ["output", "logfile", "name"], ["output", "logfile", "verbose"], ["output", "vtk", "frequency"], ["output", "vtu", "frequency"], ["output", "modal", "frequency"])]
    t = lambda *v: [("%s = %r" % (".".join(v[:-1]), x), put(Y, list(v[:-1]), x)) for x in v[-1]]
    out += t("polynomial_order", ["x", "-1", "1.5"]) + t("mesh", "format", ["Gmsh", "adcirc"]) + t("mesh", "coordinate_system", ["foo", "Cartesian"]) + t("mesh", "file_name", ["missing.14"]) + t("problem", "name", ["rkdg", "swe", "ihdg_gn"])
    out += t("timestepping", "dt", ["abc", 0.0, -0.5, float("nan"), float("inf")]) + t("timestepping", "order", ["x", 0, 7]) + t("timestepping", "nstages", ["x", 0, 9]) + t("timestepping", "start_time", ["2020-01-01 00:00:00", "tomorrow", "01-01-2020", "03-01-2020 00:00:00", "01-13-2020 00:00:00", "31-02-2020 00:00:00", "01-01-2020 00:00:99", "01-01-2020 00:00:00 x", "01-01-2020 00:00x", "01-01-2020 00:00:00.5"]) + t("timestepping", "end_time", ["", "2020/01/02", "01-01-2019 00:00:00", "01-01-2020", "30-02-2020 00:00:03", "01-01-2020 00:00:3s", "01-01-2020 00:01:-1"])
    for k in ("vtk", "vtu", "modal"): out += t("output", k, "frequency", [0.0, -1.0, "x", float("nan")])
    out += t("problem", "bottom_friction", [{"type": "Chezy", "coefficient": -1.0}, {"type": "Manning", "coefficient": -1.0, "input_file": "manning.dat"}, {"type": "Manning", "coefficient": 0.001, "input_file": "missing.dat"}])
    out += t("problem", "meteo_forcing", [{"type": "T", "raw_input_file": "r", "input_file": "missing.txt", "frequency": 1.0}, {"type": "T", "raw_input_file": "r", "input_file": "wind.txt", "frequency": 0.0}, {"type": "T", "raw_input_file": "r", "input_file": "wind.txt", "frequency": -1.0}])
    return out
def run(ctx):
    HI = build.harness("h_input", ["-DSWE_SUPPORT", "-DRKDG_SUPPORT", "-DGN_SUPPORT", "-DEHDG_SUPPORT"], overlay=False).submit(); RS = build.rec_serial("rkdg").submit(); hi, rs = HI.path(), RS.path()
    def feed(mode, L, d, tag):
        open(d + "/list_" + tag, "w").write("\n".join(" ".join(x) for x in L) + "\n"); r = core.run_proc([hi, mode, "list_" + tag], cwd=d, timeout=120)
        if r.rc != 0: ctx.bad("crash", "input reader ends with %r in %s" % (r, tag), tag); return None
        M = {}; cur = None
        for l in r.err.split("\n"):
            if l.startswith("@@ "): cur = M.setdefault(l[3:], [])
            elif cur is not None and l.strip(): cur.append(l)
        return M
    def good(it):
        rng = ctx.rng("good", it); d = ctx.dir("good%d" % it); N = 60; W = []; L = {"swe": [], "gn": []}; LY = []
        for i in range(N):
            Y, E = config(rng); W.append((Y, E)); open("%s/%d.15" % (d, i), "w").write(text(rng, Y)); L["gn" if "gn" in E["name"] else "swe"].append(["%d.15" % i, "%d.out" % i, "%d.re" % i, "-"]); LY.append(["%d.15" % i, "%d.yout" % i, "%d.yre" % i, "-"])
        for m in L: feed(m, L[m], d, "a" + m)
        feed("yaml", LY, d, "y")
        for m in L: feed(m, [[a[2], a[1] + "2", "-", "-"] for a in L[m]], d, "b" + m); feed(m, [[a[0][:-2] + "yre", a[1] + "3", "-", "-"] for a in L[m]], d, "c" + m)
        for i, (Y, E) in enumerate(W):
            for v, w in (("out", "reading"), ("out2", "rewriting and reading again"), ("out3", "the partitioner's rewriting and reading again")):
                D = parse("%s/%d.%s" % (d, i, v)); b = ["refused: %s" % D.get("EXC")] if "END" not in D else same(E, D)
                ctx.check(not b, "value", "after %s: %s; input %s" % (w, "; ".join(b[:4]), json.dumps(Y)[:600]), (it, i)); ctx.obs("values compared", len(E))
            ctx.case(("good", it, i), nontrivial=len(Y["problem"]) > 1)
    def optional(it):
        rng = ctx.rng("opt", it); d = ctx.dir("opt%d" % it); Y, E = config(rng, rng.choice(["rkdg_swe", "ehdg_gn"])); m = "gn" if "gn" in E["name"] else "swe"; T = malformed_optional(rng, Y); L = []
        for i, (s, what, base, bad) in enumerate(T):
            open("%s/%db.15" % (d, i), "w").write(text(rng, base)); open("%s/%dm.15" % (d, i), "w").write(text(rng, bad)); L += [["%db.15" % i, "%db.out" % i, "-", "-"], ["%dm.15" % i, "%dm.out" % i, "-", "-"]]
        M = feed(m, L, d, "o")
        if M is None: return
        for i, (s, what, base, bad) in enumerate(T):
            B, D = parse("%s/%db.out" % (d, i)), parse("%s/%dm.out" % (d, i)); ctx.case(("opt", it, s, what))
            if not ctx.check("END" in B, "value", "input without %s is refused: %s" % (s, B), (it, s)): continue
            if "END" not in D: ctx.obs("malformed optional sections refused"); ctx.check(len(M["%dm.out" % i]) > 0, "silent", "refused without a message", (it, s, what)); continue
            ctx.obs("malformed optional sections replaced by defaults"); b = same(B, D)
            ctx.check(not b, "partial:" + s, "%s %s: not the defaults: %s" % (s, what, "; ".join(b[:4])), (it, s, what))
            ctx.check(len(M["%dm.out" % i]) > len(M["%db.out" % i]), "unannounced:" + s, "%s %s: nothing is said about the malformed section" % (s, what), (it, s, what))
    def refuse(it):
        rng = ctx.rng("ref", it); d = ctx.dir("ref%d" % it); c = gen.SimCase(rng, d, "rkdg", p=1, steps=3); c.T = 3; c.dt = 1.0; c.meteo(every=1); c.manning(); c.waves(0.01, 0.01); c.write(); os.makedirs(d + "/out", exist_ok=True)
        Y = {"polynomial_order": 1, "mesh": {"format": "Adcirc", "file_name": "mesh.14", "coordinate_system": "cartesian"}, "timestepping": {"start_time": "01-01-2020 00:00:00", "end_time": "01-01-2020 00:00:03", "dt": 1.0, "order": 2, "nstages": 2}, "problem": {"name": "rkdg_swe"}, "output": {"path": "out/", "logfile": {"name": "log", "verbose": True}, "vtk": {"frequency": 1.0}, "vtu": {"frequency": 1.0}, "modal": {"frequency": 1.0}}}
        T = [("complete", Y)] + required(rng, Y)
        if not ctx.thorough: T = [T[0]] + [x for i, x in enumerate(T[1:]) if i % REF == it]
        for i, (what, Z) in enumerate(T):
            s = yaml.dump(shuffle(rng, Z), sort_keys=False).replace(".nan", "nan").replace(".inf", "inf"); open("%s/r%d.15" % (d, i), "w").write(s)
            r, a = core.sim(ctx, rs, d, ["r%d.15" % i], env=c.env, log="r%d.log" % i, timeout=60 if i == 0 else 15)
            if i == 0:
                if not ctx.check(r.rc == 0 and a.end and len(a.q) == 4, "value", "complete input is refused: %r" % r, (it, what)): return
                continue
            ctx.case(("ref", what)); ctx.obs("unusable inputs")
            ctx.check(r.rc == 66 or (r.rc not in (0, None) and not r.sig), "accepted:" + re.sub(r"[^A-Za-z0-9_. =-]", "", what)[:60], "%s: %s" % (what, "the run ends normally" if r.rc == 0 else "crash or hang: %r" % r), (it, what))
            ctx.check(a is None or len(a.q) <= (1 if "meteo" in what else 0) or r.rc == 0, "late", "%s: refused only after %d recorded states" % (what, len(a.q) if a else 0), (it, what))
            ctx.check(r.rc == 0 or len(r.err.strip()) > 0, "silent", "%s: refused without a message" % what, (it, what))
    def bcis(it):
        rng = ctx.rng("bc", it); d = ctx.dir("bc%d" % it); Y, E = config(rng, "rkdg_swe"); open(d + "/in.15", "w").write(text(rng, Y)); L = []; W = []
        def group(off):
            nodes = rng.sample(range(off, off + 40), rng.randint(2, 6)); return {"nodes": nodes, "con": [(num(rng), num(rng), num(rng), {n: (num(rng), num(rng)) for n in nodes}) for _ in range(rng.randint(1, 4))]}
        for i in range(20):
            t, f = [group(50 * k) for k in range(rng.randint(0, 2))], [group(50 * k) for k in range(rng.randint(0, 2))]; lv = [[(rng.randint(1, 99) + 100 * j, rng.randint(1, 99), num(rng), num(rng), num(rng)) for j in range(rng.randint(1, 5))] for _ in range(rng.randint(0, 2))]
            if not t + f + lv: t = [group(0)]
            C.write_bcis("%s/%d.bcis" % (d, i), t, f, lv); X = []
            g5 = lambda *v: ",".join("%.17g" % x for x in v)
            for k, b in enumerate(t): X += ["tide %d %d " % (k, n) + " ".join(g5(fq, ff, eq, *dd[n]) for fq, ff, eq, dd in b["con"]) for n in b["nodes"]]
            for k, b in enumerate(f): X += ["flow %d %d " % (k, n) + " ".join(g5(fq, ff, eq, *dd[n]) for fq, ff, eq, dd in b["con"]) for n in b["nodes"]]
            for r in lv: X += ["levee %d,%d %s" % (r_[0], r_[1], g5(*r_[2:])) for r_ in r]
            W.append(X); L.append(["in.15", "%d.out" % i, "-", "%d.bcis" % i])
        nb = 0; Bad = []
        for i in range(20):
            lines = open("%s/%d.bcis" % (d, i)).read().split("\n")[:-1]
            for _ in range(4):
                how = rng.choice(["cut", "cut", "word", "short"]); k = rng.randrange(len(lines)); x = list(lines)
                if how == "cut":
                    k = rng.randrange(1, len(lines)); x = x[:k]
                    if k in [j for j in starts(lines)]: continue
                elif how == "word": w = x[k].split(); w[rng.randrange(len(w))] = "x"; x[k] = " ".join(w)
                else: x[k] = " ".join(x[k].split()[:-1])
                open("%s/bad%d.bcis" % (d, nb), "w").write("\n".join(x) + "\n"); Bad.append((how, k, i)); L.append(["in.15", "bad%d.out" % nb, "-", "bad%d.bcis" % nb]); nb += 1
        if feed("swe", L, d, "bc") is None: return
        for i in range(20): D = parse("%s/%d.out" % (d, i)); ctx.check("END" in D and sorted(D.get("bc", [])) == sorted(x.rstrip() for x in W[i]), "bcis", "boundary data read differs from what was written: %s" % str([x for x in W[i] if x not in D.get("bc", [])][:3]), (it, i)); ctx.obs("boundary data rows", len(W[i])); ctx.case(("bc", it, i))
        for j, (how, k, i) in enumerate(Bad): D = parse("%s/bad%d.out" % (d, j)); ctx.obs("malformed boundary data files"); ctx.case(("bcbad", it, j)); ctx.check("END" not in D, "bcis-malformed", "boundary data file (%s at line %d) is accepted" % ({"cut": "cut off", "word": "a word instead of a number", "short": "a value missing"}[how], k + 1), (it, j))
    REF = 6; J = [("g", k) for k in range(ctx.n(6, 60))] + [("o", k) for k in range(ctx.n(4, 40))] + [("r", k) for k in range(ctx.n(REF, 12))] + [("b", k) for k in range(ctx.n(3, 30))]
    ctx.par(lambda j: {"g": good, "o": optional, "r": refuse, "b": bcis}[j[0]](j[1]), J)
    return {"rule": "random configurations over all options in block, flow and JSON style (direct, rewritten, rewritten as by the partitioner), every omission/corruption of an optional section, single required-field omissions and corruptions through the real program, boundary-data files intact, cut and corrupted", "assumptions": ["option names and defaults as in the repository's sample inputs"]}
def starts(lines):
    """line numbers at which a bcis block starts"""
    k = 0; out = []
    while k < len(lines):
        out.append(k); t, n = map(int, lines[k].split())
        k += 1 + (n if t == C.LEVEE_TYPE else 1 + int(lines[k + 1]) * (1 + n))
    return out + [k]
