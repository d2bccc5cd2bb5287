"""Content-hash cached parallel builder. Everything is compiled from /repo's current working tree into /verif/build."""
import hashlib, os, subprocess, sys, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
stats = {"compiled": 0, "cached": 0, "compile_s": 0.0}
class BuildError(Exception): pass

def _files(root, exts=(".hpp", ".cpp", ".h", ".tpp")):
    out = []
    for d, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x not in (".git", "_build", "build"))
        for f in sorted(fn):
            if f.endswith(exts): out.append(os.path.join(d, f))
    return out
_tree = {}
def tree_hash(root):
    if root not in _tree:
        h = hashlib.sha256()
        for f in _files(root):
            h.update(os.path.relpath(f, root).encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\1")
        _tree[root] = h.hexdigest()
    return _tree[root]

PROBLEMS = {  # name -> (type, defines)
  "rkdg": ("SWE::RKDG::Problem", ["-DSWE_SUPPORT", "-DRKDG_SUPPORT"]),
  "ehdg": ("SWE::EHDG::Problem", ["-DSWE_SUPPORT", "-DRKDG_SUPPORT", "-DEHDG_SUPPORT"]),
  "ihdg": ("SWE::IHDG::Problem", ["-DSWE_SUPPORT", "-DRKDG_SUPPORT", "-DIHDG_SUPPORT"]),
  "gn":   ("GN::EHDG::Problem",  ["-DSWE_SUPPORT", "-DGN_SUPPORT", "-DRKDG_SUPPORT", "-DEHDG_SUPPORT"]),
}
ALLDEF = ["-DSWE_SUPPORT", "-DRKDG_SUPPORT", "-DEHDG_SUPPORT", "-DIHDG_SUPPORT", "-DGN_SUPPORT"]
BASE = ["-std=c++14", "-fopenmp", "-include", "stdexcept", "-DUSE_EIGEN", "-w"]
SAN = {"": [], "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1"],
       "tsan": ["-fsanitize=thread", "-g1"],
       "mem": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,null,object-size",  # those are seen by the address sanitizer
               "-fno-sanitize-recover=undefined,float-cast-overflow", "-fno-omit-frame-pointer", "-g1", "-D_GLIBCXX_ASSERTIONS"]}
_EXCL = ("dgswemv2-ompi.cpp", "dgswemv2-serial.cpp", "simulation_base.cpp", "simulation_ompi_base.cpp", "ompi_communicator.cpp", "ehdg_main_gn.cpp")

def repo_sources():
    return [f for f in _files(os.path.join(REPO, "source"), (".cpp",)) if os.path.basename(f) not in _EXCL and "main" not in os.path.basename(os.path.dirname(f))]

def compile_obj(src, flags, opt="-O1", extra_hash="", cxx="g++"):
    h = hashlib.sha256()
    h.update(tree_hash(os.path.join(REPO, "source")).encode())
    if "/partitioner/" in src or "/mesh_generators/" in src or "-I" + REPO + "/partitioner" in flags:
        h.update(tree_hash(os.path.join(REPO, "partitioner")).encode()); h.update(tree_hash(os.path.join(REPO, "mesh_generators")).encode())
    h.update(open(src, "rb").read()); h.update(src.encode())
    if any(VERIF in f for f in flags) or src.startswith(VERIF):
        h.update(tree_hash(os.path.join(VERIF, "overlay")).encode())
        for f in _files(os.path.join(VERIF, "drivers"), (".hpp", ".h")): h.update(open(f, "rb").read())
    h.update(" ".join(flags + [opt, cxx]).encode()); h.update(extra_hash.encode())
    out = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + h.hexdigest()[:20] + ".o")
    if os.path.exists(out):
        stats["cached"] += 1; return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    t = time.time()
    cmd = [cxx, "-c", opt] + flags + [src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    os.replace(tmp, out)
    stats["compiled"] += 1; stats["compile_s"] += time.time() - t
    return out

_pool = None
def pool():
    global _pool
    if _pool is None: _pool = ThreadPoolExecutor(JOBS)
    return _pool

class Target:
    """Lazy executable: submit() starts all compiles on the shared pool, path() links."""
    def __init__(self, name, srcs, libs=(), link=()):
        self.name, self.srcs, self.libs, self.link = name, srcs, list(libs), list(link)
        self.f = None
    def submit(self):
        if self.f is None:
            seen = []
            # biggest first: the first source is the driver
            self.f = [pool().submit(compile_obj, *s) for s in self.srcs]
        return self
    def path(self):
        self.submit()
        objs = [f.result() for f in self.f]
        h = hashlib.sha256((" ".join(objs + self.libs + self.link)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", self.name + "-" + h)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run(["g++", "-o", tmp] + objs + self.link + self.libs, capture_output=True, text=True)
            if r.returncode: raise BuildError("link failed: " + self.name + "\n" + r.stderr[-4000:])
            os.replace(tmp, exe)
        return exe

_locks = {}
_objlock = threading.Lock()
_raw_compile = compile_obj
def compile_obj(src, flags, opt="-O1", extra_hash="", cxx="g++"):  # serialise identical requests
    key = (src, tuple(flags), opt, cxx)
    with _objlock: lk = _locks.setdefault(key, threading.Lock())
    with lk: return _raw_compile(src, flags, opt, extra_hash, cxx)

def inc(overlay=True):
    r = []
    if overlay: r += ["-I" + os.path.join(VERIF, "overlay")]
    return r + ["-I" + REPO + "/source", "-isystem", "/usr/include/eigen3", "-I" + os.path.join(VERIF, "drivers")]
MPI_INC = ["-isystem", PETSC + "/include", "-isystem", "/usr/lib/petscdir/petsc3.19/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
MPI_LIB = ["-L" + PETSC + "/lib", "-lpetsc_real", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi_cxx", "-lmpi"]

def libsrc(flags, opt="-O1"): return [(s, flags, opt) for s in repo_sources()]

def rec_serial(prob, san="", opt="-O1", overlay=True):
    typ, defs = PROBLEMS[prob]
    fl = BASE + defs + SAN[san] + ["-fno-access-control", "-DREC_PROBLEM=" + typ] + inc(overlay)
    lf = BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False)
    return Target("rec_%s%s" % (prob, san), [(VERIF + "/drivers/rec_serial.cpp", fl, opt)] + libsrc(lf), ["-lyaml-cpp", "-lpthread"], ["-fopenmp"] + SAN[san])

def probe(prob, san="", opt="-O1"):
    typ, defs = PROBLEMS[prob]
    fl = BASE + defs + SAN[san] + ["-fno-access-control", "-DREC_PROBLEM=" + typ] + ({"ihdg": ["-DREC_IHDG"], "gn": ["-DREC_GN"]}.get(prob, [])) + inc(True)
    lf = BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False)
    return Target("probe_%s%s" % (prob, san), [(VERIF + "/drivers/probe.cpp", fl, opt)] + libsrc(lf), ["-lyaml-cpp", "-lpthread"], ["-fopenmp"] + SAN[san])

def rec_ompi(prob, san="", opt="-O1"):
    typ, defs = PROBLEMS[prob]
    fl = BASE + defs + ["-DHAS_PETSC"] + SAN[san] + ["-fno-access-control", "-DREC_PROBLEM=" + typ] + inc(True) + MPI_INC
    lf = BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False)
    cf = BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False) + MPI_INC
    return Target("rec_ompi_%s%s" % (prob, san), [(VERIF + "/drivers/rec_ompi.cpp", fl, opt), (REPO + "/source/communication/ompi_communicator.cpp", cf, opt), (VERIF + "/shim/pmpi.cpp", ["-std=c++14"] + SAN[san] + MPI_INC, opt)] + libsrc(lf),
                  ["-lyaml-cpp"] + MPI_LIB + ["-lpthread"], ["-fopenmp"] + SAN[san])

def threads(prob, san="tsan", opt="-O1"):
    """distributed driver with the code's own output, on the instrumented thread runtime and the in-process message layer"""
    typ, defs = PROBLEMS[prob]
    fl = BASE + defs + ["-DHAS_PETSC", "-DREC_REALOUT"] + SAN[san] + ["-fno-access-control", "-DREC_PROBLEM=" + typ] + inc(True) + MPI_INC
    lf = BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False); cf = lf + MPI_INC; sf = ["-std=c++14"] + SAN[san] + MPI_INC
    return Target("thr_%s%s" % (prob, san), [(VERIF + "/drivers/rec_ompi.cpp", fl, opt), (REPO + "/source/communication/ompi_communicator.cpp", cf, opt), (VERIF + "/shim/omp_mini.cpp", sf, opt), (VERIF + "/shim/mpi_self.cpp", sf, opt)] + libsrc(lf),
                  ["-lyaml-cpp"] + MPI_LIB + ["-lpthread"], ["-fopenmp"] + SAN[san])

def harness(name, defs=None, san="", opt="-O1", overlay=True, extra=(), libs=()):
    fl = BASE + (ALLDEF[:2] if defs is None else list(defs)) + SAN[san] + ["-fno-access-control"] + inc(overlay) + list(extra)
    lf = BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False)
    return Target(name + san, [(VERIF + "/drivers/" + name + ".cpp", fl, opt)] + libsrc(lf), ["-lyaml-cpp", "-lpthread"] + list(libs), ["-fopenmp"] + SAN[san])

def generator(san="", opt="-O1"):
    return Target("quadgen" + san, [(REPO + "/mesh_generators/quad_mesh_generator.cpp", BASE + SAN[san] + inc(False) + ["-I" + REPO + "/mesh_generators"], opt)], ["-lyaml-cpp", "-lpthread"], ["-fopenmp"] + SAN[san])

def partitioner(san="", opt="-O1"):
    P = REPO + "/partitioner/"; fl = BASE + ["-DSWE_SUPPORT"] + SAN[san] + ["-I" + VERIF + "/shim", "-include", "numeric"] + inc(False) + ["-I" + REPO + "/partitioner"]
    return Target("partitioner" + san, [(P + f, fl, opt) for f in ("partitioner.cpp", "partition.cpp", "write_distributed_interfaces.cpp", "problem/swe_partitioner_inputs.cpp", "problem/default_partitioner_inputs.cpp")]
                  + [(VERIF + "/shim/metis_shim.cpp", BASE + SAN[san] + ["-I" + VERIF + "/shim", "-include", "algorithm"], opt)] + libsrc(BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False)),
                  ["-lyaml-cpp", "-ldl", "-lpthread"], ["-fopenmp"] + SAN[san])

def program(kind, san="", opt="-O0", prob=None):
    """the real program (main, factory, all problem types unless prob is given) with the user functions of the overlay; kind: serial or ompi"""
    o = kind == "ompi"; S = REPO + "/source/"
    fl = BASE + (PROBLEMS[prob][1] if prob else ALLDEF) + SAN[san] + inc(True) + (["-DHAS_PETSC"] + MPI_INC if o else [])
    src = [S + "simulation/ompi/simulation_ompi_base.cpp", S + "dgswemv2-ompi.cpp", S + "communication/ompi_communicator.cpp"] if o else [S + "simulation/serial/simulation_base.cpp", S + "dgswemv2-serial.cpp"]
    return Target("prog_%s%s%s" % (kind, prob or "", san), [(f, fl, opt) for f in src] + libsrc(BASE + ["-DSWE_SUPPORT"] + SAN[san] + inc(False)), ["-lyaml-cpp"] + (MPI_LIB if o else []) + ["-lpthread"], ["-fopenmp"] + SAN[san])

def build_all(targets):
    for t in targets: t.submit()
    return [t.path() for t in targets]

if __name__ == "__main__":
    t0 = time.time()
    ts = []
    for a in sys.argv[1:]:
        k, _, v = a.partition(":")
        if k == "progmem": ts.append(program(v.split(",")[0], "mem", prob=v.split(",")[1])); continue
        ts.append({"rec": rec_serial, "ompi": rec_ompi, "h": harness, "thr": threads, "probe": probe, "part": partitioner, "prog": program}[k](v))
    print(build_all(ts)); print(stats, time.time() - t0)
