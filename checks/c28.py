"""C28: real distributed driver (one rank, many submeshes) under the race detector on an instrumented thread runtime and message layer; results and output files compared across thread counts and perturbed schedules."""
import glob, os, re
import numpy as np
import build, cases as C, core, dist, gen
from checks.c03 import scen
OPT = "halt_on_error=0 exitcode=0 report_signal_unsafe=0 ignore_noninstrumented_modules=1 history_size=4 suppress_equal_stacks=1"
def reports(txt):
    """[(kind, [function names])] of race reports"""
    out = []
    for b in txt.split("WARNING: ThreadSanitizer: ")[1:]:
        b = b.split("SUMMARY:")[0]; kind = b.split("(")[0].strip(); fn = [re.sub(r"<.*", "", f).split("(")[0].strip() for f in re.findall(r"#\d+ (.+?) (?:/|<null>|\()", b)]; out.append((kind, [f for f in fn if f][:8], b[:1500]))
    return out
def tree(d):
    return {os.path.relpath(f, d): open(f, "rb").read() for f in glob.glob(d + "/**", recursive=True) if os.path.isfile(f)}
def run(ctx):
    probs = ["ihdg", "gn", "ehdg", "rkdg"]; T = {p: build.threads(p).submit() for p in probs}; P = build.partitioner().submit(); exe = {p: T[p].path() for p in probs}; part = P.path()
    K = {"rkdg": ["mix", "forces", "wetdry", "levee", "limiter"], "ehdg": ["forces", "open", "wetdry"], "ihdg": ["forces", "open"], "gn": ["forces", "wetdry"]}
    n = {"rkdg": ctx.n(5, 40), "ehdg": ctx.n(3, 30), "ihdg": ctx.n(2, 20), "gn": ctx.n(2, 20)}
    items = [(p, K[p][k % len(K[p])], k) for p in probs for k in range(n[p])]
    def one(it):
        prob, kind, k = it; rng = ctx.rng(*it); d = ctx.dir("%s_%s_%d" % it); c = scen(rng, d, prob, kind, steps=rng.randint(3, 5)); f = rng.choice([1, 2]); dt = c.dt * (1 - 1e-9)
        inp = c.write(modal=f * dt, vtk=dt, vtu=2 * dt, log=("log", "true") if k % 2 == 0 else None); np_ = rng.choice([3, 5, 6, 8]); A = dist.assign(rng, c.mesh, np_); np_ = len(set(A.values()))
        dist.write_answers(d + "/ans", c.mesh, A, np_, 1, {}); r1 = dist.partition(part, d, inp, np_, 1, 1, env=dict(c.env, VERIF_PART=d + "/ans"))
        if not ctx.check(r1.rc == 0, "partition", "partitioner: %r" % r1, it): return
        desc = dict(c.desc(), kind=kind, submeshes=np_); ref = None; seen = set(); stopped = 0
        for nt, jit in [(1, 0), (2, 300), (rng.choice([3, 4]), 1500), (np_ + 1, 0)] + [(rng.randint(2, np_ + 2), rng.choice([50, 800, 4000])) for _ in range(ctx.n(0, 2))]:
            for x in glob.glob(d + "/out/**", recursive=True):
                if os.path.isfile(x): os.remove(x)
            for x in glob.glob(d + "/tlog_*") + [d + "/omp"]: os.path.exists(x) and os.remove(x)
            e = dict(c.env, OMP_NUM_THREADS=str(nt), VERIF_OMPJIT=str(jit), VERIF_OMPSEED=str(rng.randrange(10 ** 6)), VERIF_OMPLOG=d + "/omp", TSAN_OPTIONS=OPT, PMIX_MCA_gds="hash")
            r = dist.run(exe[prob], d, inp[:-3] + "_parallelized.15", 1, nt, env=e, log="tlog", timeout=240, pre=["-x", "TSAN_OPTIONS"])
            for kd, fn, txt in reports(r.err + r.out):
                key = "race:" + (fn[0] if fn else kd)
                if key not in seen: seen.add(key); ctx.bad("race", "%s in %s; %d threads %s\n%s" % (kd, " <- ".join(fn[:6]), nt, desc, txt), it)
            for l in (r.err + r.out).split("\n"):
                if l.startswith("MPI-SELF:"): ctx.bad("message-buffer", "%s; %d threads %s" % (l, nt, desc), it); break
            if r.rc != 0 or not os.path.exists(d + "/omp"):      # the latter: MPI_Abort with status 0
                if ref is None and "mesh_file" not in r.err: stopped = 1; ctx.obs("scenarios that end early"); ref = {}; continue
                if not stopped: ctx.bad("fails", "run with %d threads fails (rc=%s sig=%s timeout=%s) and with one succeeds: %s; %s" % (nt, r.rc, r.sig, r.timeout, r.err[-500:], desc), it); return
                continue
            if stopped: ctx.bad("fails", "run with one thread stops and with %d succeeds; %s" % (nt, desc), it); return
            S = {**{os.path.basename(x): open(x, "rb").read() for x in glob.glob(d + "/tlog_*")}, **tree(d + "/out")}; ctx.obs("runs with %d threads" % nt); ctx.obs("output files compared", len(S))
            for l in open(d + "/omp"):
                t = l.split()
                if t[0] == "OMP": ctx.obs("threads", int(t[2])); ctx.obs("barriers", int(t[3])); ctx.check(int(t[2]) == nt, "threads", "%s threads ran instead of %d" % (t[2], nt), it)
                else: ctx.obs("messages", int(t[1]))
            if ref is None: ref = S; ctx.check(sum(1 for x in S if x.startswith("tlog_")) == np_ and len(S) > np_, "records", "%d files from %d submeshes" % (len(S), np_), it)
            else:
                ctx.check(set(S) == set(ref), "files", "%d threads: other files than with one thread: %s; %s" % (nt, sorted(set(S) ^ set(ref))[:4], desc), it); bad = [x for x in S if S[x] != ref.get(x, S[x]) and not os.path.basename(x).startswith("log")]
                ctx.check(not bad, "differs", "%d threads: %s differ(s) from the run with one thread; %s" % (nt, bad[:3], desc), it)
        if not stopped: ctx.case(it, nontrivial=True, sample=desc)
    ctx.par(one, items, workers=4)
    return {"rule": "RKDG/EHDG/IHDG/GN scenarios on one rank with 3-8 submeshes, with log, modal, VTK and VTU output, on 1, 2, 3-4 and more threads than submeshes under random delays at every barrier; every memory access of the program and its messages seen by the race detector; final states and all output files byte-identical across thread counts",
            "assumptions": ["PETSc and MPI internals are not instrumented (only the master thread calls PETSc)"]}
