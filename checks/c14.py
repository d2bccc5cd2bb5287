"""C14: the real ADCIRC reader, writer and edge classification over generated grids and damaged files, against the generating mesh and an independent parser (ASan/UBSan)."""
import os
import build, core, cases as C, grids as G
ENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=1"}
LAYOUT = ["plain", "spaces", "tabs", "comments", "crlf", "nogen", "nonl"]
def layout(rng, text, kind, m):
    L = text.split("\n")
    if kind == "spaces": L = ["  " + l.replace(" ", "   ", 4) + "  " if i > 1 else l for i, l in enumerate(L)]
    if kind == "tabs": L = [l.replace(" ", "\t") if i > 1 and "=" not in l else l for i, l in enumerate(L)]
    if kind == "comments": L = [l + "  ! note 1 2 3" if l and i > 0 else l for i, l in enumerate(L)]
    if kind == "crlf": return "\r\n".join(L)
    if kind == "nogen" and not m.gen: return "\n".join(L[:-3]) + "\n"
    if kind == "nonl": return "\n".join(L).rstrip("\n")
    return "\n".join(L)
def run(ctx):
    exe = build.harness("h_mesh", san="asan").path()
    def feed(d, name, text, q=None):
        p = os.path.join(d, name); open(p, "w", newline="").write(text)
        a = [exe, "grid", p, p + ".out", p + ".meta", p + ".log"]
        if q: open(p + ".q", "w").write("\n".join("%d %d" % x for x in q) + "\n"); a.append(p + ".q")
        for attempt in (0, 1):
            r = core.run_proc(a, cwd=d, env=ENV, timeout=60)
            if not core.again(r, attempt): break
        return r, p + ".log"
    def one(k):
        rng = ctx.rng("g", k); m = G.rand_grid(rng, 7 if k % 9 == 0 else 5, big=True, coords=True); d = ctx.dir("g%d" % k)
        for n in list(m.nodes)[:3]:
            if k % 4 == 0: m.nodes[n] = tuple(rng.choice([0.0, -1.0, 1.0]) * 10.0 ** rng.uniform(-300, 300) for _ in range(3))
        m.write(d + "/a.14"); lay = LAYOUT[k % len(LAYOUT)]; text = layout(rng, open(d + "/a.14").read(), lay, m); ref = G.of_mesh(m)
        T, P = G.classify(m); E = m.edges(); Q = []
        for e in E:
            a, b = tuple(e); Q += [(a, b), (b, a)]
        ids = list(m.nodes); Q += [(rng.choice(ids), rng.choice(ids)) for _ in range(12)] + [(10 ** 9 + 1, ids[0]), (ids[0], 10 ** 9 + 1)]
        Q += [(s[0], s[-1]) for s in m.open + [x["nodes"] for x in m.land] if len(s) > 2]
        r, log = feed(d, "b.14", text, Q)
        if not ctx.check(r.rc == 0 and "Sanitizer" not in r.err and "runtime error" not in r.err, "read-" + lay, "valid grid: %r %s" % (r, (open(log).read()[-200:] if os.path.exists(log) else "")), k): return
        for tag, rel in (("A", 0.0), ("B", 1e-14)):
            df = G.differ(ref, G.read_log(log, tag), rel); ctx.check(df is None, ("parse" if tag == "A" else "rewrite") + "-" + lay, "%s: %s" % ("parsed" if tag == "A" else "written and re-read", df), k)
        ans = {}
        for l in open(log):
            f = l.split()
            if f and f[0] == "Q": ans.setdefault((int(f[1]), int(f[2])), f[3:])
        for q in Q:
            a = ans.get(q); t = T.get(frozenset(q), -1) if q[0] != q[1] else -1
            if a is None: ctx.bad("query-missing", "%s" % (q,), k); continue
            if q[0] == q[1]: continue
            ctx.check(int(a[0]) == t, "class-%d" % t, "edge %s of a segment of type %d classified as %s" % (q, t, a[0]), k); ctx.obs("edges classified as %d" % t)
            if t == G.LEVEE and int(a[0]) == t: ctx.check(a[1] != "none" and frozenset(map(int, a[1:])) == P[frozenset(q)], "levee-partner", "edge %s faces %s instead of %s" % (q, a[1:], sorted(P[frozenset(q)])), k); ctx.obs("levee partners")
        ctx.obs("grids read"); ctx.obs("layout " + lay); ctx.case(("g", k), sample={"layout": lay, "nodes": len(m.nodes), "elements": len(m.elts), "open": len(m.open), "land": [x["ib"] for x in m.land], "generic": len(m.gen)})
    ctx.par(one, range(ctx.n(300, 3000)))
    def damaged(k):
        rng = ctx.rng("d", k); kind = ("cut", "cut", "code", "token", "count", "dup", "swap", "node", "levee")[k % 9]
        m = G.rand_grid(rng, 3, cw=False, coords=False); d = ctx.dir("d%d" % k); must = None
        if kind == "code": 
            if not m.land: m.land.append({"ib": 0, "nodes": list(m.nodes)[:2]})
            x = rng.choice(m.land); x["ib"] = rng.choice([3, 5, 6, 7, 8, 9, 13, 23, 99, 128, 65, 1003, 10 ** 9 + 9]); must = True
        if kind == "node": e = rng.choice(list(m.elts)); t = list(m.elts[e]); t[rng.randrange(3)] = max(m.nodes) + 3; m.elts[e] = tuple(t); must = True
        if kind == "levee":
            n = rng.choice([0, 1]); ids = list(m.nodes); m.land.append({"ib": rng.choice([4, 24]), "nodes": ids[:n], "conn": ids[1:1 + n], "H": [1.0] * n, "cs": [1.0] * n, "cp": [1.0] * n})
        m.write(d + "/a.14"); text = open(d + "/a.14").read(); L = text.split("\n")
        tot = 2 + len(m.nodes) + len(m.elts)
        if kind == "cut": text = text[:rng.randrange(len(text))] if rng.random() < .8 else "\n".join(L[:rng.randrange(len(L))]) + "\n"
        elif kind == "token":
            i = rng.randrange(1, len(L) - 1); f = L[i].split(); need = 1 if "=" in L[i] else 2 if i == 1 else len(f); f[rng.randrange(need)] = rng.choice(["abc", "-", "=", "--1", "x12"]); L[i] = " ".join(f); text = "\n".join(L)
        elif kind == "count":
            c = [1] + [i for i, l in enumerate(L) if "=" in l and "Total" not in l]; i = rng.choice(c); f = L[i].split(); q = rng.randrange(2) if i == 1 else 0
            f[q] = str(max(0, int(f[q]) + rng.choice([-1, 1, 1, 2, 10, 100000]))); L[i] = " ".join(f); text = "\n".join(L)
        elif kind == "dup": i = rng.randrange(2, 2 + len(m.nodes) - 1); L[i + 1] = L[i]; text = "\n".join(L); must = True
        elif kind == "swap": i = rng.randrange(2, len(L) - 2); L[i], L[i + 1] = L[i + 1], L[i]; text = "\n".join(L)
        try: ref = G.parse14(text)
        except G.Bad: ref = None
        q = [(a, b) for e in list(m.boundary_edges())[:6] for a, b in (tuple(e), tuple(e)[::-1])] if k % 2 else None
        r, log = feed(d, "b.14", text, q); det = "%s: %s" % (kind, r)
        if r.timeout: ctx.bad("hang-" + kind, det, k); return
        clean = r.sig == 0 and r.rc in (0, 3) and "Sanitizer" not in r.err and "runtime error" not in r.err
        if not ctx.check(clean, "damaged-" + kind, "neither read nor refused with an error: " + det, k): return
        got = G.read_log(log, "A") if os.path.exists(log) else None
        if kind in ("code", "dup", "levee") or ref is None: ctx.check(r.rc == 3 and (got is None or kind == "node"), "accepted-" + kind, "malformed grid (%s) was accepted" % kind, k); ctx.obs("malformed grids refused")
        elif kind == "node" and not q: ctx.check(r.rc == 3, "accepted-node", "element with a missing node was accepted", k); ctx.obs("malformed grids refused")
        elif got is not None: df = G.differ(ref, got); ctx.check(df is None, "misread-" + kind, "%s: misread: %s" % (kind, df), k); ctx.obs("damaged grids read consistently")
        else: ctx.obs("damaged grids refused")
        ctx.case(("d", k))
    ctx.par(damaged, range(ctx.n(800, 8000)))
    return {"rule": "random grids (every boundary code, islands, levees, generic segments, sparse/huge ids, extreme coordinates, 7 text layouts): parsed = generated, written and re-read equal to 1e-14, every edge classified in both directions; damaged grids (truncated anywhere, bad tokens, counts, codes, duplicates) refused or read as an independent parser reads them; ASan/UBSan clean"}
