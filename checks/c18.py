"""C18: the real partitioner (METIS answers chosen by the check, or the installed METIS) on generated grids; its files compared with the grid, the assignment and each other (ASan/UBSan)."""
import glob, os, re
import yaml
import build, cases as C, core, dist, grids as G
ENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0"}; NONE = 2 ** 32 - 1
def run(ctx):
    T = build.partitioner("asan").submit(); Hm = build.harness("h_mesh", san="asan").submit(); exe, hm = T.path(), Hm.path()
    clean = lambda r: r.sig == 0 and "Sanitizer" not in r.err and "runtime error" not in r.err
    def setup(rng, d, nmax=5, **kw):
        m = G.rand_grid(rng, nmax, big=True, **kw); stem = rng.choice(["mesh", "a.b", "grid_1_2"]); m.write(d + "/%s.14" % stem); p = rng.randint(1, 5); inp = rng.choice(["in.15", "fort.15", "x.in.15"])
        pr = {"gravity": rng.uniform(1, 20), "wetting_drying": {"h_o": rng.uniform(0.01, 1)}, "initial_conditions": {"type": "Constant", "initial_surface_height": rng.uniform(-1, 1), "initial_momentum_x": 0.5, "initial_momentum_y": -0.25}}
        if rng.random() < .5: pr["bottom_friction"] = {"type": "Chezy", "coefficient": rng.uniform(0, 1)}
        C.write_input(d + "/" + inp, stem + ".14", rng.choice(["rkdg_swe", "ehdg_swe", "ihdg_swe", "ehdg_gn"]), p=p, dt=rng.uniform(0.001, 3), T=rng.randint(1, 10 ** 6), problem=pr, out=rng.choice([None, "out/"]), modal=rng.choice([None, 2.5]), vtu=rng.choice([None, 10.0]), ramp=rng.choice([None, 0.3]))
        return m, stem, p, inp
    def tree(d, stem):
        F = {}
        for f in os.listdir(d):
            g = re.fullmatch(re.escape(stem) + r"_(\d+)_(\d+)\.(meta|dbmd)", f)
            if g: F[int(g[1]), int(g[2]), g[3]] = d + "/" + f
        return F
    def judge(k, m, d, stem, p, inp, nn, rpl, A=None, node_of=None):
        F = tree(d, stem); T, P = G.classify(m); E = m.edges(); subs = sorted(x[:2] for x in F if x[2] == "meta")
        if not ctx.check(subs == sorted(x[:2] for x in F if x[2] == "dbmd"), "file-pairs", "mesh and boundary files differ: %s" % sorted(F), k): return
        for r in range(nn * rpl):
            own = [s for q, s in subs if q == r]; ctx.check(own == list(range(len(own))), "file-numbers", "submesh files of rank %d are numbered %s" % (r, own), k)
        ctx.check(all(q < nn * rpl for q, _ in subs), "file-ranks", "files for ranks beyond %d: %s" % (nn * rpl, subs), k)
        M = {}; where = {}
        for q in subs:
            try: M[q] = dist.read_meta(F[q + ("meta",)])
            except dist.BadFile as e: ctx.bad("unreadable", "%s" % e, k); return
            ctx.check(len(M[q]["E"]) > 0, "empty-submesh", "submesh %s has no elements" % (q,), k)
            ctx.check(M[q]["name"].endswith("_%d_%d" % q), "mesh-name", "submesh %s calls itself %r" % (q, M[q]["name"]), k)
            for e in M[q]["E"]:
                ctx.check(e not in where, "element-twice", "element %d in submeshes %s and %s" % (e, where.get(e), q), k); where[e] = q
        if not ctx.check(set(where) == set(m.elts), "element-lost", "elements %s missing, %s added" % (sorted(set(m.elts) - set(where))[:5], sorted(set(where) - set(m.elts))[:5]), k): return
        if A is not None:       # exactly the parts that were asked for, on the node that was asked for
            parts = {}; [parts.setdefault(A[e], set()).add(e) for e in A]; got = {q: set(M[q]["E"]) for q in subs}
            ctx.check(sorted(map(sorted, parts.values())) == sorted(map(sorted, got.values())), "assignment", "submeshes do not follow the assignment of elements", k)
            for pt, els in parts.items():
                q = where[next(iter(els))]; ctx.check(q[0] // rpl == node_of[pt], "node", "part %d is on rank %d but belongs to node %d (%d ranks each)" % (pt, q[0], node_of[pt], rpl), k)
            for n in range(nn):
                cnt = [sum(1 for q in subs if q[0] == n * rpl + r) for r in range(rpl)]; ctx.check(max(cnt) - min(cnt) <= 1, "rank-share", "ranks of node %d get %s submeshes" % (n, cnt), k)
        cut = {}; ncut = 0
        for q in subs:
            need = set()
            for e, (nodes, nb, bt) in M[q]["E"].items():
                t = m.elts[e]; need |= set(nodes); a, b, c = t
                exp = {t, (b, c, a), (c, a, b)} if m.area(e) > 0 else {(c, b, a), (b, a, c), (a, c, b)}
                if not ctx.check(len(nodes) == 3 and tuple(nodes) in exp, "corners", "element %d listed with corners %s instead of %s" % (e, nodes, t), k): continue
                for j in range(3):
                    ed = frozenset((nodes[(j + 1) % 3], nodes[(j + 2) % 3])); own = E[ed]
                    if len(own) == 2: x = [o for o, _ in own if o != e][0]; y = G.INTERNAL
                    else:
                        y = T[ed]; x = E[P[ed]][0][0] if y == G.LEVEE else NONE
                    z = y
                    if x != NONE and where[x] != q: z += 64; ncut += 1; cut.setdefault(frozenset((q, where[x])), {})[e, x, j] = y
                    ctx.check(nb[j] == x, "neighbour-%d" % z, "element %d face %d of type %d: neighbour %d instead of %d" % (e, j, z, nb[j], x), k)
                    ctx.check(bt[j] == z, "type-%d" % z, "element %d face %d: type %d instead of %d" % (e, j, bt[j], z), k); ctx.obs("faces of type %d" % z)
            N = M[q]["N"]; ctx.check(set(N) >= need, "node-lost", "submesh %s lacks nodes %s" % (q, sorted(need - set(N))[:5]), k)
            ctx.check(set(N) <= need, "node-extra", "submesh %s holds nodes of no element: %s" % (q, sorted(set(N) - need)[:5]), k)
            for i in need & set(N): ctx.check(all(G.close(u, v, 5e-15) for u, v in zip(N[i], m.nodes[i])), "node-data", "node %d: %s instead of %s" % (i, N[i], m.nodes[i]), k)
        B = {}
        for q in subs:
            try: D = dist.read_dbmd(F[q + ("dbmd",)])
            except (dist.BadFile, ValueError) as e: ctx.bad("dbmd-unreadable", "%s" % e, k); return
            for a, b, rows in D:
                ctx.check(q in (a, b) and a != b, "dbmd-address", "list %s-%s in the file of submesh %s" % (a, b, q), k); h = frozenset((a, b))
                ctx.check((h, q) not in B, "dbmd-twice", "pair %s-%s listed twice for %s" % (a, b, q), k); B[h, q] = (a, b, rows)
        for h in cut:
            two = [B.get((h, q)) for q in h]
            if not ctx.check(None not in two, "dbmd-missing", "no distributed boundary between %s" % sorted(h), k): continue
            ctx.check(two[0] == two[1], "dbmd-sides", "the two sides of %s hold different lists: %s / %s" % (sorted(h), str(two[0])[:200], str(two[1])[:200]), k)
            a, b, rows = two[0]; seen = {}
            for ea, eb, fa, fb, pp in rows:
                if not ctx.check(where.get(ea) == a and where.get(eb) == b, "dbmd-elements", "pair %d-%d listed for %s-%s but they are in %s and %s" % (ea, eb, a, b, where.get(ea), where.get(eb)), k): continue
                seen[ea, eb, fa] = fb; ctx.check(pp == p, "dbmd-order", "order %d instead of %d" % (pp, p), k)
                ctx.check((ea, eb, fa) in cut[h] and (eb, ea, fb) in cut[h], "dbmd-face", "pair %d face %d - %d face %d is not a cut edge" % (ea, fa, eb, fb), k)
            want = {x for x in cut[h] if where[x[0]] == a}; ctx.check(len(rows) == len(want) and set(seen) == want, "dbmd-complete", "%d cut edges between %s and %s, %d listed" % (len(want), a, b, len(rows)), k); ctx.obs("cut edges", len(want)); ctx.obs("lists compared from both sides")
        for h, q in B: ctx.check(h in cut or not B[h, q][2], "dbmd-extra", "a distributed boundary between %s which share no edge" % sorted(h), k)
        # the updated input: same settings, partitioned mesh
        base = inp[:-3]; up = d + "/" + base + "_parallelized.15"
        if ctx.check(os.path.exists(up), "input-missing", "no updated input file among %s" % sorted(os.listdir(d)), k):
            a, b = yaml.safe_load(open(d + "/" + inp)), yaml.safe_load(open(up))
            ctx.check(b["mesh"]["format"] == "Meta" and b["mesh"]["file_name"] == stem + ".meta", "input-mesh", "updated input names mesh %s" % b["mesh"], k)
            ctx.check(b["problem"] == a["problem"] and b["polynomial_order"] == a["polynomial_order"], "input-problem", "updated input: problem %s instead of %s" % (b["problem"], a["problem"]), k)
            for s in ("timestepping", "output"):
                x, y = a.get(s) or {}, dict(b.get(s) or {})
                if s == "timestepping" and "ramp_duration" not in x: y.pop("ramp_duration", None)
                ctx.check(x == y, "input-" + s, "updated input: %s %s instead of %s" % (s, y, x), k)
        ctx.obs("submeshes", len(subs)); ctx.obs("partitions judged")
        # the real readers accept every file and see the same thing
        q = subs[k % len(subs)]; r = core.run_proc([hm, "meta", F[q + ("meta",)], "o.meta", "log"], cwd=d, env=ENV, timeout=60)
        if ctx.check(clean(r) and r.rc == 0, "reader", "the submesh reader refuses %s: %r" % (q, r), k):
            R = {}
            for l in open(d + "/log", errors="replace"):
                f = l.split()
                if f[:2] == ["M", "ELT"]: v = list(map(int, f[3:])); n = v[0]; R[int(f[2])] = (v[1:1 + n], v[1 + n:1 + 2 * n], v[1 + 2 * n:1 + 3 * n])
            ctx.check(R == M[q]["E"], "reader-differs", "the submesh reader sees other elements in %s" % (q,), k)
        r = core.run_proc([hm, "dbmd", F[q + ("dbmd",)], str(q[0]), str(q[1]), "log2"], cwd=d, env=ENV, timeout=60); ctx.check(clean(r) and r.rc == 0, "dbmd-reader", "the boundary reader refuses %s: %r" % (q, r), k)
        return len(subs), ncut
    def degenerate(m):      # two elements that share an edge and are levee partners as well
        T, P = G.classify(m); E = m.edges(); adj = {frozenset(o for o, _ in own) for own in E.values() if len(own) == 2}
        return any(frozenset((E[a][0][0], E[b][0][0])) in adj for a, b in P.items())
    def chosen(k):
        rng = ctx.rng("c", k); d = ctx.dir("c%d" % k); m, stem, p, inp = setup(rng, d, 7 if k % 8 == 0 else 5)
        if degenerate(m): ctx.obs("skipped: partners that are neighbours too"); return
        n = rng.choice([1, 2, 2, 3, 4, 6, 9, 20]); A = dist.assign(rng, m, n); parts = sorted(set(A.values())); nn = rng.choice([1, 1, 2, 2, 3, 5]); rpl = rng.choice([None, 1, 1, 2, 3]); bal = rng.choice([None, "true", "false"]) if rpl else None
        if nn > 1 and len(parts) > 1: node = {q: rng.randrange(nn) for q in parts}; [node.__setitem__(q, i) for i, q in enumerate(rng.sample(parts, min(nn, len(parts))))]
        else: node = {q: 0 for q in parts}
        if k % 9 == 8: perm = rng.sample(range(n + 5), len(parts)); A = {e: perm[parts.index(a)] for e, a in A.items()}; node = {perm[parts.index(q)]: v for q, v in node.items()}; n += 5; ctx.obs("answers that leave parts empty")
        dist.write_answers(d + "/ans", m, A, n, nn, node)
        r = dist.partition(exe, d, inp, n, nn, rpl, bal, env=dict(ENV, VERIF_PART=d + "/ans", VERIF_PARTLOG=d + "/plog"))
        if not ctx.check(clean(r) and r.rc == 0, "run", "partitioner: %r" % r, k): return
        if n == 1: A = {e: 0 for e in A}; node = {0: 0}
        x = judge(k, m, d, stem, p, inp, nn, rpl or 1, A, node)
        # the graph METIS was given is the element graph
        if x and os.path.exists(d + "/plog") and k % 3 == 0:
            L = open(d + "/plog").read().split("\n"); hd = L[0].split(); els = sorted(m.elts, key=dist.sint); T, P = G.classify(m); E = m.edges(); want = set()
            for own in E.values():
                if len(own) == 2: want.add(frozenset(o for o, _ in own))
            for a, b in P.items(): want.add(frozenset((E[a][0][0], E[b][0][0])))
            X, Y = [list(map(int, l.split()[1:])) for l in L[1:3]]; got = {frozenset((els[i], els[j])) for i in range(len(els)) for j in Y[X[i]:X[i + 1]]} if len(X) == len(els) + 1 else None
            ctx.check(got == want, "graph", "the graph that is partitioned is not the element graph", k); ctx.obs("element graphs")
        ctx.case(("c", k), sample={"elements": len(m.elts), "parts": len(parts), "nodes": nn, "ranks per node": rpl, "cut faces": x and x[1]})
    ctx.par(chosen, range(ctx.n(260, 3000)))
    def metis(k):
        rng = ctx.rng("m", k); d = ctx.dir("m%d" % k); m, stem, p, inp = setup(rng, d, 8)
        if degenerate(m): return
        n = rng.choice([2, 3, 5, 8, 13]); nn = rng.randint(1, min(n, 4)); rpl = rng.choice([1, 2]); r = dist.partition(exe, d, inp, n, nn, rpl, rng.choice(["true", "false"]), env=ENV)
        if not ctx.check(clean(r) and r.rc == 0, "run-metis", "partitioner: %r" % r, k): return
        x = judge(k, m, d, stem, p, inp, nn, rpl); ctx.obs("partitions by METIS itself"); ctx.case(("m", k), sample={"elements": len(m.elts), "parts": n, "result": x})
    ctx.par(metis, range(ctx.n(40, 400)))
    def refuse(k):
        rng = ctx.rng("r", k); d = ctx.dir("r%d" % k); m, stem, p, inp = setup(rng, d, 4); kind = ("error", "error2", "count", "count", "args", "mesh", "write", "input")[k % 8]; n, nn, rpl = "3", "2", None; A = dist.assign(rng, m, 3); env = dict(ENV, VERIF_PART=d + "/ans")
        dist.write_answers(d + "/ans", m, A, 3, 2, {q: q % 2 for q in A.values()}); a = None
        if kind == "error": open(d + "/ans", "w").write("E 0\n")
        if kind == "error2": t = open(d + "/ans").read().split("\n"); open(d + "/ans", "w").write(t[0] + "\nE 1\n")
        if kind == "count":
            w = rng.choice(["0", "-1", "-3", "x", "", "2x", "99999999999999", "1e1"]); i = rng.randrange(3)
            if i == 0: n = w
            elif i == 1: nn = w
            else: rpl = w
        if kind == "args": a = rng.choice([[], [inp], [inp, "2"], [inp, "2", "1", "1", "true", "x"]])
        if kind == "mesh": os.remove(d + "/%s.14" % stem)
        if kind == "input": os.remove(d + "/" + inp)
        if kind == "write":
            i = rng.randrange(3); t = [stem + "_0_0.meta", stem + "_0_0.dbmd", inp[:-3] + "_parallelized.15"][i]; os.makedirs(d + "/" + t)
        if len(set(A.values())) < 3 and kind in ("error2",): return
        r = core.run_proc([exe] + a, cwd=d, env=env, timeout=60) if a is not None else dist.partition(exe, d, inp, n, nn, rpl, env=env)
        ctx.check("Sanitizer" not in r.err and "runtime error" not in r.err and r.sig in (0, 6), "refuse-" + kind, "%r" % r, k)
        ctx.check(r.rc != 0, "accepted-" + kind, "the partitioner reports success (%s: parts %r nodes %r ranks %r args %r)" % (kind, n, nn, rpl, a), k)
        ctx.check(len(r.out + r.err) > 0, "silent-" + kind, "no message", k); ctx.obs("refused: " + kind); ctx.case(("r", k))
    ctx.par(refuse, range(ctx.n(64, 400)))
    return {"rule": "random grids of every boundary kind (levees, islands, clockwise elements, ids to 2^32) under random, strip, grown, single-element and checkerboard assignments to 1-20 parts, 1-5 nodes, 1-3 ranks per node (some parts left empty), plus METIS itself: files parsed independently and compared with grid and assignment; both sides' boundary lists compared; real readers; METIS errors, bad counts, missing and unwritable files refused"}
