"""Partitioned runs: drive the real partitioner (METIS answers chosen here), read its files with an independent parser, start the distributed recorder under mpirun."""
import glob, os, struct
import numpy as np
import core
def sint(i): return i - 2 ** 32 if i >= 2 ** 31 else i       # element ids travel as signed int inside the partitioner

def assign(rng, m, n, how=None):
    """element -> part (0..n-1), every part non-empty when there are enough elements"""
    els = sorted(m.elts, key=sint); how = how or rng.choice(["random", "random", "strips", "grow", "islands", "checker"]); E = m.edges(); nb = {e: [] for e in els}
    for own in E.values():
        if len(own) == 2: (a, _), (b, _) = own; nb[a].append(b); nb[b].append(a)
    n = min(n, len(els)); A = {}
    if how == "random": A = {e: rng.randrange(n) for e in els}
    elif how == "strips":
        key = lambda e: sum(m.nodes[v][0] for v in m.elts[e]); o = sorted(els, key=key); A = {e: i * n // len(o) for i, e in enumerate(o)}
    elif how == "checker": A = {e: i % n for i, e in enumerate(els)}
    elif how == "islands":      # single elements cut out of one large part
        A = {e: 0 for e in els}
        for p, e in enumerate(rng.sample(els, n - 1)): A[e] = p + 1
    else:
        front = rng.sample(els, n); A = {e: i for i, e in enumerate(front)}
        while len(A) < len(els):
            c = [(o, A[e]) for e in A for o in nb[e] if o not in A]
            if not c: c = [(next(e for e in els if e not in A), rng.randrange(n))]
            o, p = rng.choice(c); A[o] = p
    for p in range(n):          # no part empty
        if p not in A.values():
            q = rng.choice([e for e in els if list(A.values()).count(A[e]) > 1]); A[q] = p
    return A

def write_answers(path, m, A, nparts, nnodes, rank_of_part):
    """rank_of_part: part -> compute node. Call numbering follows the calls that are really made (trivial ones are skipped)."""
    els = sorted(m.elts, key=sint); L = []; call = 0
    if nparts > 1 and len(els) > 1: L.append("P %d " % call + " ".join(str(A[e]) for e in els)); call += 1
    parts = sorted(set(A.values()))
    if nnodes > 1 and len(parts) > 1: L.append("P %d " % call + " ".join(str(rank_of_part[p]) for p in parts))
    open(path, "w").write("\n".join(L) + "\n")

def partition(exe, d, inp, nparts, nnodes, rpl=None, balanced=None, env=None, timeout=60):
    a = [exe, inp, str(nparts), str(nnodes)] + ([str(rpl)] if rpl is not None else []) + ([str(balanced)] if balanced is not None else [])
    for attempt in (0, 1):
        r = core.run_proc(a, cwd=d, env=env, timeout=timeout)
        if not core.again(r, attempt): break
    return r

class BadFile(Exception): pass
def read_meta(path):
    """independent reader: {'name','E': {id: (nodes, neighbours, types)}, 'N': {id: (x,y,z)}}"""
    b = open(path, "rb").read(); p = 0
    def line():
        nonlocal p
        q = b.index(b"\n", p); r = b[p:q]; p = q + 1; return r
    try:
        name = line().decode(); n = int(line().split()[0]); E = {}; N = {}
        for _ in range(n):
            # id nfaces nodes neighbours then one raw character per face (which may itself be any byte, so count bytes)
            v = []; 
            for k in range(2):
                q = b.index(b" ", p); v.append(int(b[p:q])); p = q + 1
            for k in range(2 * v[1]):
                q = b.index(b" ", p); v.append(int(b[p:q])); p = q + 1
            t = [b[p + 2 * k] for k in range(v[1])]; p += 2 * v[1] - 1
            if b[p:p + 1] != b"\n": raise BadFile("element row does not end after %d types" % v[1])
            p += 1
            if v[0] in E: raise BadFile("element %d twice" % v[0])
            E[v[0]] = (v[2:2 + v[1]], v[2 + v[1]:], t)
        k = int(line().split()[0])
        for _ in range(k):
            f = line().split()
            if int(f[0]) in N: raise BadFile("node %s twice" % f[0])
            N[int(f[0])] = tuple(float(x) for x in f[1:4])
        if b[p:].strip(): raise BadFile("trailing data")
    except (ValueError, IndexError) as e: raise BadFile("%s: %s" % (os.path.basename(path), e))
    return {"name": name, "E": E, "N": N}
def read_dbmd(path):
    r = []; L = [list(map(int, l.split())) for l in open(path) if l.strip()]; i = 0
    while i < len(L):
        if len(L[i]) != 5: raise BadFile("header %r" % L[i])
        a, b, c, e, n = L[i]; rows = L[i + 1:i + 1 + n]
        if len(rows) != n or any(len(x) != 5 for x in rows): raise BadFile("%d rows announced: %r" % (n, rows))
        r.append(((a, b), (c, e), rows)); i += 1 + n
    return r

MPI = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader", "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "plm_rsh_agent", "/bin/false",
       "--mca", "mpi_yield_when_idle", "1", "--mca", "orte_tmpdir_base"]
class Units(dict):
    """(rank, submesh) -> Rec"""
def run(exe, d, inp, ranks, threads=1, env=None, timeout=120, log="dlog", pre=()):
    for attempt in (0, 1):
        for f in glob.glob(os.path.join(d, log + "_*")): os.remove(f)
        t = os.path.join(d, "mpi%d" % attempt); os.makedirs(t, exist_ok=True)
        e = {"OMP_NUM_THREADS": str(threads), "TMPDIR": t, "OMPI_MCA_rmaps_base_oversubscribe": "1"}; e.update(env or {})
        r = core.run_proc(MPI + [t, "-n", str(ranks)] + list(pre) + [exe, inp, os.path.join(d, log)], cwd=d, env=e, timeout=timeout if attempt else timeout / 2)
        if not core.again(r, attempt): break
    return r
def logs(d, log="dlog"):
    U = Units()
    for f in glob.glob(os.path.join(d, log + "_[0-9]*_[0-9]*")):
        k = tuple(map(int, f.rsplit("_", 2)[1:])); U[k] = core.Rec(f)
    return U

def merge(U):
    """one Rec over all submeshes (None while a submesh has not finished or the records do not fit together)"""
    U = list(U.values())
    if not U or not all(R.end and R.exc is None and R.bath is not None for R in U): return None
    n = len(U[0].q)
    if any(len(R.q) != n or R.steps != U[0].steps for R in U): return None
    M = U[0].__class__.__new__(U[0].__class__); M.__dict__.update(U[0].__dict__); M.elt = {}; [M.elt.update(R.elt) for R in U]
    ids = [e for R in U for e in R.ids]; o = np.argsort(ids, kind="stable"); M.ids = [ids[i] for i in o]; M.pos = {e: i for i, e in enumerate(M.ids)}
    M.bath = np.concatenate([R.bath for R in U])[o]; M.q = [np.concatenate([R.q[s] for R in U])[o] for s in range(n)]; M.wet = [np.concatenate([R.wet[s] for R in U])[o] for s in range(n)]
    M.dsts = [t for R in U for t in R.dsts]; M.l2sq = sum(R.l2sq or 0.0 for R in U); return M
def sim(ctx, it, rng, c, inp, part, exe, tag="distributed"):
    """partition with a random assignment and run; returns (Result, merged Rec or None, description, assignment)"""
    A = assign(rng, c.mesh, rng.choice([2, 2, 3, 4, 6])); parts = sorted(set(A.values())); nn = min(rng.choice([1, 2, 2, 3]), len(parts)); nt = rng.choice([1, 1, 2, 3])
    node = {q: i % nn for i, q in enumerate(rng.sample(parts, len(parts)))}; write_answers(c.d + "/ans", c.mesh, A, len(parts), nn, node)
    r = partition(part, c.d, inp, len(parts), nn, 1, env=dict(c.env, VERIF_PART=c.d + "/ans")); desc = dict(ranks=nn, submeshes=len(parts), threads=nt)
    if not ctx.check(r.rc == 0, "partition", "partitioner: %r" % r, it): return r, None, desc, A
    r = run(exe, c.d, inp[:-3] + "_parallelized.15", nn, nt, env=c.env); M = merge(logs(c.d)) if r.rc == 0 else None
    if M is not None:
        ctx.check(M.ids == sorted(c.mesh.elts), "elements", "the submeshes hold %d elements, the mesh %d" % (len(M.ids), len(c.mesh.elts)), it)
        ctx.obs(tag + " runs"); ctx.obs(tag + " edges", len(M.dsts))
    return r, M, desc, A
