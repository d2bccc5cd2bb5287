"""C19: real distributed runs on an instrumented MPI layer that delays and reorders messages and delivers data only at completion; exchange records of both ends compared, states compared with the serial and the undelayed run."""
import glob, os
import numpy as np
import build, cases as C, core, dist, gen
from checks.c03 import scen, EXTRA
KEYS = ("SENT", "RECV")
def read_log(path):
    bad = []; seq = {k: {} for k in KEYS}; ok = None
    for l in open(path):
        f = l.split()
        if f[0] == "BAD": bad.append(l.strip()[4:])
        elif f[0] in seq: seq[f[0]][(int(f[1]), int(f[2]))] = (int(f[3]), [tuple(x.split(":")) for x in f[5:]])
        elif f[0] == "OK": ok = list(map(int, f[1:]))
    return bad, seq, ok
def exchange(ctx, d, name, ranks, it, what):
    """what both ends of every channel recorded; True if complete"""
    L = []
    for r in range(ranks):
        p = os.path.join(d, "%s_%d" % (name, r))
        if not os.path.exists(p): ctx.bad("log", "no exchange record of rank %d" % r, it); return False
        L.append(read_log(p)); bad, seq, ok = L[-1]
        for b in bad[:3]: ctx.bad("mpi:" + " ".join(w for w in b.split() if not w.isdigit()), "rank %d: %s; %s" % (r, b, what), it)
        if not ctx.check(ok is not None, "log", "exchange record of rank %d is incomplete" % r, it): return False
        ctx.obs("messages", ok[0]); ctx.obs("buffer checks", ok[1]); ctx.obs("delayed messages", ok[2])
    for r in range(ranks):
        for (peer, tag), (ni, S) in L[r][1]["SENT"].items():
            if not ctx.check(0 <= peer < ranks, "peer", "rank %d sends to %d" % (r, peer), it): continue
            nj, R = L[peer][1]["RECV"].get((r, tag), (0, []))
            if not ctx.check(len(S) == len(R), "exactly-once", "rank %d sent %d messages with tag %d to rank %d, %d were received; %s" % (r, len(S), tag, peer, len(R), what), it): continue
            for k, (s, t) in enumerate(zip(S, R)):
                if not ctx.check(s[1:] == t[1:], "content", "message %d from %d to %d tag %d: sent %s received %s; %s" % (k, r, peer, tag, s, t, what), it): break
                if ni == nj and s[0] != "-1" and t[0] != "-1" and not ctx.check(s[0] == t[0], "channel", "message %d from rank %d to %d, tag %d, sent on channel %s is received on channel %s; %s" % (k, r, peer, tag, s[0], t[0], what), it): break
        for (peer, tag), (ni, R) in L[r][1]["RECV"].items(): ctx.check((r, tag) in L[peer][1]["SENT"] or not R, "exactly-once", "rank %d received from %d with tag %d what was never sent; %s" % (r, peer, tag, what), it)
        ctx.obs("channels", sum(n for n, _ in L[r][1]["SENT"].values()))
    return True
def states(U, a):
    X = [np.full_like(q, np.nan) for q in a.q]
    for u, R in U.items():
        ix = [a.pos[e] for e in R.ids]
        for s in range(min(len(R.q), len(X))): X[s][ix] = R.q[s]
    return X
def run(ctx):
    probs = ["gn", "ihdg", "ehdg", "rkdg"]; R = {p: (build.rec_serial(p).submit(), build.rec_ompi(p).submit()) for p in probs}; P = build.partitioner().submit(); exe = {p: tuple(t.path() for t in R[p]) for p in probs}; part = P.path()
    n = {"rkdg": ctx.n(7, 60), "ehdg": ctx.n(5, 40), "ihdg": ctx.n(4, 30), "gn": ctx.n(4, 30)}; K = {"rkdg": ["mix", "mix", "levee", "wetdry", "forces", "limiter"], "ehdg": ["forces", "open"], "ihdg": ["forces", "open"], "gn": ["forces", "wetdry"]}
    items = [("rkdg", "many", 0)] + [("rkdg", "many", k) for k in range(1, ctx.n(1, 4))] + [(p, K[p][k % len(K[p])], k) for p in probs for k in range(n[p])]
    def one(it):
        prob, kind, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it); many = kind == "many"
        if many:
            m = C.grid_mesh(rng, *(25, 7) if k % 2 == 0 else (13, 13), jitter=0.1); c = gen.SimCase(rng, d, prob, mesh=m, p=1, steps=2); c.set_bath("slope", 1.0); c.waves(0.2, 0.1)
        else: c = scen(rng, d, prob, kind, steps=rng.randint(4, 9))
        inp = c.write(); r, a = core.sim(ctx, exe[prob][0], d, [inp], env=c.env)
        if r.rc != 0 or a is None or not a.end: ctx.obs("scenarios that end early"); ctx.case(it, nontrivial=False); return
        np_ = len(c.mesh.elts) if many else rng.choice([2, 3, 3, 4, 5, 6, 8]); nn = rng.choice([1, 2]) if many else rng.choice([1, 2, 2, 3])
        if many and np_ // nn < 257: nn = 1
        A = dist.assign(rng, c.mesh, np_, None); parts = sorted(set(A.values())); np_ = len(parts); nn = min(nn, np_); order = rng.sample(parts, np_); node = {q: i % nn for i, q in enumerate(order)}; dist.write_answers(d + "/ans", c.mesh, A, np_, nn, node)
        r1 = dist.partition(part, d, inp, np_, nn, 1, env=dict(c.env, VERIF_PART=d + "/ans"))
        if not ctx.check(r1.rc == 0, "partition", "partitioner: %r" % r1, it): return
        nt = rng.choice([1, 2, 3]); dly = rng.choice([0.0005, 0.002, 0.006]) if not many else 0.0002; desc = dict(c.desc(), kind=kind, ranks=nn, submeshes=np_, threads=nt, delay=dly); ref = None
        b = np.abs(a.bath).max(); sc = [max(np.abs(q[:, v]).max() for q in a.q) for v in range(3)]; sc = np.array([max(sc[0], b), max(sc[1], sc[2]), max(sc[1], sc[2])])[None, :, None] + 1e-12 * b
        for v in range(1 if many else 3):
            e = dict(c.env, VERIF_MPILOG=d + "/mpi%d" % v, VERIF_MPISEED=str(rng.randrange(10 ** 6)))
            if v: e.update(VERIF_MPIDELAY=str(dly), VERIF_MPIWAIT=str(rng.choice([0, 0.001, 0.003])))
            log = "dlog%d" % v; r2 = dist.run(exe[prob][1], d, inp[:-3] + "_parallelized.15", nn, nt if v < 2 else 1 + nt % 3, env=e, log=log)
            if not ctx.check(r2.rc == 0, "run-fails", "serial run succeeds, distributed run %s: rc=%s sig=%s timeout=%s %s %s" % ("with delays" if v else "without delays", r2.rc, r2.sig, r2.timeout, r2.err[-400:], desc), it): return
            exchange(ctx, d, "mpi%d" % v, nn, it, desc); U = dist.logs(d, log)
            if not ctx.check(len(U) == np_ and all(R.end and len(R.q) == len(a.q) for R in U.values()), "records", "%d of %d submeshes recorded completely; %s" % (len(U), np_, desc), it): return
            X = states(U, a); w = max(np.max(np.abs(x - q) / sc) for x, q in zip(X, a.q)); ctx.mx("difference to serial " + prob, w)
            ctx.check(w <= 2e-8, "differs-serial", "%s %s: states differ from the serial run by %.3g (scaled); %s" % (prob, kind, w, desc), it)
            if ref is None: ref = X
            else:
                s = max(np.max(np.abs(x - y) / sc) for x, y in zip(X, ref)); ctx.mx("difference to undelayed run " + prob, s); lim = 0.0 if prob in ("rkdg", "ehdg") else 1e-9
                ctx.check(s <= lim, "differs-undelayed", "%s %s: states depend on message timing: differ from the undelayed run by %.3g (scaled); %s" % (prob, kind, s, desc), it)
            ctx.obs("runs with %d ranks" % nn); ctx.obs("states compared", sum(len(q) for q in a.q))
            for f in glob.glob(d + "/" + log + "_*"): os.remove(f)
        ctx.case(it, nontrivial=True, sample=desc)
    ctx.par(one, items, workers=5)
    return {"rule": "RKDG/EHDG/IHDG/GN scenarios (levee+limiter+wetting mixes, forced, open) on 2-8 submeshes, 1-3 ranks and 1-3 threads plus one rank with more than 256 submeshes; each run undelayed and twice under random per-destination delays with data delivered only at completion and receive buffers holding NaN until then",
            "assumptions": ["point-to-point traffic on MPI_COMM_WORLD is monitored; PETSc's own communicators are trusted", "delays sample the delivery orders MPI allows between different destinations and tags"]}
