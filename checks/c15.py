"""C15: mesh metadata built by the real code from generated grids, compared with the grid's own adjacency and segments; written and read back; partition boundary files read from both sides (ASan/UBSan)."""
import os
import build, core, grids as G
ENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0"}; NONE = 2 ** 32 - 1
def readm(log, tag):
    r = {"N": {}, "E": {}, "name": None, "dup": False}
    for l in open(log, errors="replace"):
        f = l.split()
        if len(f) < 2 or f[0] != tag: continue
        if f[1] == "NAME": r["name"] = " ".join(f[2:])
        elif f[1] == "NODE": r["dup"] |= int(f[2]) in r["N"]; r["N"][int(f[2])] = tuple(map(float, f[3:]))
        elif f[1] == "ELT":
            v = list(map(int, f[3:])); n = v[0]; r["dup"] |= int(f[2]) in r["E"]; r["E"][int(f[2])] = (v[1:1 + n], v[1 + n:1 + 2 * n], v[1 + 2 * n:1 + 3 * n])
    return r if r["name"] is not None else None
def same(a, b, rel):
    if b is None: return "nothing read"
    if b["dup"]: return "duplicates"
    if a["name"] != b["name"]: return "name %r / %r" % (a["name"], b["name"])
    if a["E"] != b["E"]: return "elements differ: %s" % [(e, a["E"].get(e), b["E"].get(e)) for e in set(a["E"]) | set(b["E"]) if a["E"].get(e) != b["E"].get(e)][:2]
    if set(a["N"]) != set(b["N"]): return "nodes %s" % sorted(set(a["N"]) ^ set(b["N"]))[:5]
    for i in a["N"]:
        if not all(G.close(x, y, rel) for x, y in zip(a["N"][i], b["N"][i])): return "node %d: %r / %r" % (i, a["N"][i], b["N"][i])
    return None
def run(ctx):
    exe = build.harness("h_mesh", san="asan").path()
    def call(a, d):
        for attempt in (0, 1):
            r = core.run_proc([exe] + a, cwd=d, env=ENV, timeout=60)
            if not core.again(r, attempt): break
        return r
    ok = lambda r, rc: r.sig == 0 and r.rc in rc and "Sanitizer" not in r.err and "runtime error" not in r.err
    def one(k):
        rng = ctx.rng("m", k); m = G.rand_grid(rng, 8 if k % 10 == 0 else 5, big=True); d = ctx.dir("m%d" % k)
        if k % 5 == 0:
            for n in list(m.nodes): x, y, z = m.nodes[n]; m.nodes[n] = (x, y, rng.choice([0.0, -1.0, 1.0]) * 10.0 ** rng.uniform(-300, 300))
        if k % 7 == 0:       # exactly 15 significant digits: must come back bit for bit
            for n in list(m.nodes): m.nodes[n] = tuple(float("%.14e" % v) for v in m.nodes[n])
        m.write(d + "/a.14"); r = call(["grid", "a.14", "o.14", "o.meta", "log"], d)
        if not ctx.check(ok(r, (0,)), "build", "metadata of a valid grid: %r %s" % (r, open(d + "/log").read()[-200:] if os.path.exists(d + "/log") else ""), k): return
        M = readm(d + "/log", "M"); N = readm(d + "/log", "N"); T, P = G.classify(m); E = m.edges()
        if not ctx.check(M is not None, "build", "no metadata", k): return
        ctx.check(not M["dup"] and M["name"] == m.name.split()[0], "name", "%r" % M["name"], k)
        ctx.check(set(M["E"]) == set(m.elts), "elements", "element ids differ: %s" % sorted(set(M["E"]) ^ set(m.elts))[:6], k)
        ctx.check(M["N"] == m.nodes, "nodes", "coordinates or depths differ: %s" % [(i, M["N"].get(i), m.nodes.get(i)) for i in set(M["N"]) | set(m.nodes) if M["N"].get(i) != m.nodes.get(i)][:2], k)
        for e, (nodes, nb, bt) in M["E"].items():
            if e not in m.elts: continue
            t = m.elts[e]; exp = {t, t[1:] + t[:1], t[2:] + t[:2]} if m.area(e) > 0 else {t[::-1], t[::-1][1:] + t[::-1][:1], t[::-1][2:] + t[::-1][:2]}
            if not ctx.check(len(nodes) == len(nb) == len(bt) == 3 and sorted(nodes) == sorted(t), "corners", "element %d has corners %s instead of %s" % (e, nodes, t), k): continue
            ctx.check(tuple(nodes) in exp, "orientation", "element %d %s listed as %s" % (e, t, nodes), k)
            for j in range(3):
                ed = frozenset((nodes[(j + 1) % 3], nodes[(j + 2) % 3])); own = E[ed]
                if len(own) == 2: x = [o for o, _ in own if o != e][0]; y = G.INTERNAL
                else:
                    y = T[ed]; x = E[P[ed]][0][0] if y == G.LEVEE else NONE
                ctx.check(nb[j] == x, "neighbour-%d" % y, "element %d face %d (type %d): neighbour %d instead of %d" % (e, j, y, nb[j], x), k)
                ctx.check(bt[j] == y, "type-%d" % y, "element %d face %d: type %d instead of %d" % (e, j, bt[j], y), k); ctx.obs("faces of type %d" % y)
                if y >= 128 and nb[j] in M["E"]:        # symmetric as recorded
                    o = M["E"][nb[j]]; ctx.check(any(o[1][q] == e and o[2][q] == bt[j] for q in range(3)), "symmetric", "element %d lists %d as neighbour (type %d) but not the other way round: %s" % (e, nb[j], bt[j], o), k)
        df = same(M, N, 0.0 if k % 7 == 0 else 5e-15); ctx.check(df is None, "reread" if k % 7 else "reread-exact", "metadata written and read back: %s" % df, k)
        r = call(["meta", "o.meta", "o2.meta", "log2"], d)
        if ctx.check(ok(r, (0,)), "read", "%r" % r, k):
            df = same(N or M, readm(d + "/log2", "M"), 0.0); ctx.check(df is None, "read-again", "read in another process: %s" % df, k)
            df = same(N or M, readm(d + "/log2", "N"), 0.0); ctx.check(df is None, "stable", "second writing changes the mesh: %s" % df, k)
        # any type code a face can carry survives
        if N:
            X = {e: (v[0], [rng.randrange(2 ** 32) for _ in v[1]], [rng.choice([0, 1, 2, 3, 4, 64, 128, 129, 192, 193]) for _ in v[2]]) for e, v in N["E"].items()}
            with open(d + "/x.meta", "wb") as f:
                f.write(b"x\n%d = number of elements\n" % len(X))
                for e, v in X.items(): f.write(b"%d 3 " % e + b" ".join(b"%d" % q for q in v[0] + v[1]) + b" " + b" ".join(bytes([q]) for q in v[2]) + b"\n")
                f.write(b"%d = number of nodes\n" % len(N["N"]) + b"".join(b"%d %.17g %.17g %.17g\n" % ((i,) + c) for i, c in N["N"].items()))
            r = call(["meta", "x.meta", "x2.meta", "log3"], d)
            if ctx.check(ok(r, (0,)), "types-read", "%r" % r, k):
                a, b = readm(d + "/log3", "M"), readm(d + "/log3", "N")
                ctx.check(a is not None and a["E"] == X, "types-carried", "codes differ after reading", k); ctx.check(same(a, b, 5e-15) is None, "types-carried", "written: %s" % same(a, b, 5e-15), k); ctx.obs("files with distributed types")
            # damaged
            raw = open(d + "/x.meta", "rb").read()
            for q in range(3):
                cut = raw[:rng.randrange(1, len(raw) - 1)] if q else raw[:-rng.randrange(2, 40)]; open(d + "/c.meta", "wb").write(cut); r = call(["meta", "c.meta", "c2.meta", "log4"], d)
                if not ctx.check(ok(r, (0, 3)), "damaged", "%r" % r, k): continue
                if r.rc == 0:
                    z = readm(d + "/log4", "M"); ctx.check(cut.count(b"\n") >= raw.count(b"\n") - 1 and z and len(z["N"]) == len(N["N"]) and z["E"] == X, "truncated-accepted", "a truncated file was read as a mesh of %s nodes" % (z and len(z["N"])), k)
                else: ctx.obs("truncated files refused")
        ctx.obs("meshes"); ctx.case(("m", k), sample={"nodes": len(m.nodes), "elements": len(m.elts), "clockwise": sum(m.area(e) < 0 for e in m.elts)})
    ctx.par(one, range(ctx.n(300, 3000)))
    def invalid(k):
        rng = ctx.rng("i", k); m = G.rand_grid(rng, 4, cw=False); d = ctx.dir("i%d" % k); kind = ("three", "hole", "node", "lone")[k % 4]
        be = list(m.boundary_edges()); E = m.edges(); nid = max(m.nodes) + 1
        if kind == "three": e = rng.choice([q for q in E if len(E[q]) == 2]); a, b = tuple(e); m.nodes[nid] = tuple(x + 1 for x in m.nodes[a]); m.elts[max(m.elts) + 1] = (a, b, nid)
        if kind == "hole":        # a boundary edge that no segment lists
            T, P = G.classify(m); used = rng.choice([q for q in be if T.get(q) not in (G.LEVEE, None)])
            def cut(s): return [x for x in (s,) if not any(frozenset(p) == used for p in zip(s, s[1:]))]
            m.open = [x for s in m.open for x in cut(s)]; m.gen = [x for s in m.gen for x in cut(s)]
            m.land = [x for x in m.land if "conn" in x or (not any(frozenset(p) == used for p in zip(x["nodes"], x["nodes"][1:])) and not (x["ib"] % 10 == 1 and frozenset((x["nodes"][0], x["nodes"][-1])) == used))]
            if used in G.classify(m)[0]: return
        if kind == "node": e = rng.choice(list(m.elts)); t = list(m.elts[e]); t[rng.randrange(3)] = nid; m.elts[e] = tuple(t)
        if kind == "lone": a, b, c = (nid, nid + 1, nid + 2); [m.nodes.__setitem__(q, (1e9 + q - nid, float((q - nid) % 2), 1.0)) for q in (a, b, c)]; m.elts[max(m.elts) + 1] = (a, b, c)
        m.write(d + "/a.14"); r = call(["grid", "a.14", "o.14", "o.meta", "log"], d)
        ctx.check(ok(r, (0, 3)), "invalid-" + kind, "%r" % r, k); ctx.check(r.rc == 3, "invalid-accepted-" + kind, "an inconsistent grid (%s) was accepted" % kind, k); ctx.obs("inconsistent grids refused"); ctx.case(("i", k))
    ctx.par(invalid, range(ctx.n(160, 1500)))
    def dbmd(k):
        rng = ctx.rng("b", k); d = ctx.dir("b%d" % k); A = (rng.randrange(5), rng.randrange(4)); nbr = rng.sample([(i, j) for i in range(5) for j in range(4) if (i, j) != A], rng.randint(0, 5)); ref = []; L = []
        for B in nbr:
            n = rng.choice([0, 1, 2, 7, 40]); rows = [[rng.randrange(2 ** 31), rng.randrange(2 ** 31), rng.randrange(3), rng.randrange(3), rng.randrange(1, 6)] for _ in range(n)]; fl = rng.random() < .5
            if fl: L.append("%d %d %d %d %d" % (B + A + (n,))); L += ["%d %d %d %d %d" % (r[1], r[0], r[3], r[2], r[4]) for r in rows]
            else: L.append("%d %d %d %d %d" % (A + B + (n,))); L += ["%d %d %d %d %d" % (r[0], r[1], r[2], r[3], r[4]) for r in rows]
            ref.append((A[0], A[1], B[0], B[1], rows))
        open(d + "/a.dbmd", "w").write("".join(l + "\n" for l in L)); r = call(["dbmd", "a.dbmd", str(A[0]), str(A[1]), "log"], d)
        if not ctx.check(ok(r, (0,)), "dbmd", "%r %s" % (r, open(d + "/log").read()[-200:] if os.path.exists(d + "/log") else ""), k): return
        got = []
        for l in open(d + "/log"):
            f = l.split()
            if f[0] == "R": got.append(tuple(map(int, f[1:])) + ([],))
            elif f[0] == "P": got[-1][4].append(list(map(int, f[1:])))
        ctx.check(got == ref, "dbmd-carried", "%s instead of %s" % (str(got)[:300], str(ref)[:300]), k); ctx.obs("distributed boundary lists", len(ref)); ctx.case(("b", k))
        if any(x[4] for x in ref):
            t = "\n".join(L)
            for q in range(3):
                cut = "\n".join(L[:-1] if q == 0 else L[:rng.randrange(1, len(L))]) + "\n"; c = cut.rstrip("\n").split("\n"); i = 0; good = True
                while i < len(c): i += 1 + int(c[i].split()[4])
                if i == len(c): continue
                open(d + "/c.dbmd", "w").write(cut); r = call(["dbmd", "c.dbmd", str(A[0]), str(A[1]), "log2"], d); ctx.check(ok(r, (3,)), "dbmd-truncated", "truncated boundary list: %r" % r, k); ctx.obs("truncated lists refused")
        r = call(["dbmd", "a.dbmd", str(A[0] + 7), str(A[1]), "log3"], d)
        if ref: ctx.check(ok(r, (3,)), "dbmd-foreign", "the list of another submesh was accepted", k)
    ctx.par(dbmd, range(ctx.n(160, 1500)))
    return {"rule": "random grids with every boundary kind, levees, islands, clockwise elements, sparse ids up to 2^32, extreme depths and coordinates: elements, neighbours, types and nodes of the metadata equal the grid's own adjacency and segments, symmetric; write/read round trips (exact for 15-digit data); truncated and inconsistent inputs refused; distributed boundary lists read from both sides; ASan/UBSan clean"}
