#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's current working tree.

 omp : the library and program sources, compiled with OpenMP and memory-access
       instrumentation, linked against the simulated OpenMP/thread runtime.
 io  : the same sources without instrumentation, linked against the simulated
       operating system (files, clock).

Objects are cached under /verif/build by the hash of everything that goes into
them, so a rebuild compiles only what a change in /repo touches.
"""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HELFEM_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
CXX = shutil.which("g++-14") or "g++"

class BuildError(Exception):
    pass

def read(p):
    with open(p, "rb") as f:
        return f.read()

def sources():
    # only what the project itself builds: files its CMakeLists name
    out, cm = [], {t: set(re.findall(r"[\w./-]+\.cpp", read(os.path.join(REPO, t, "CMakeLists.txt")).decode())) for t in ("libhelfem", "libhelfemqc", "src")}
    for d in ("libhelfem/src", "libhelfemqc/src", "src/general", "src/legendre", "src/atomic", "src/sadatom", "src/diatomic"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            t = read(p).decode("utf-8", "replace")
            if re.search(r"^\s*(int|auto)\s+main\s*\(", t, re.M):
                continue
            if os.path.basename(p) == "atomdb_data.cpp":
                continue
            top = d.split("/")[0]
            if os.path.relpath(p, os.path.join(REPO, top)) not in cm[top]:
                continue
            out.append(p)
    return out

# programs whose main() the prog_* harnesses call, compiled with -Dmain=prog_<dir>_<file>
PROGS = ["atomic/main", "diatomic/main", "sadatom/main", "sadatom/1e", "sadatom/aij", "diatomic/1e", "diatomic/density_line", "diatomic/density_grid",
         "diatomic/completeness", "diatomic/corebasis", "harmonic/main", "harmonic/morse", "harmonic/softcoulomb", "general/atomdb_dump"]
def programs():
    return [(os.path.join(REPO, "src", p + ".cpp"), "prog_" + p.replace("/", "_")) for p in PROGS if os.path.exists(os.path.join(REPO, "src", p + ".cpp"))]

def headers_hash():
    h = hashlib.sha256()
    for top in ("libhelfem", "libhelfemqc", "src"):
        for p in sorted(glob.glob(os.path.join(REPO, top, "**", "*"), recursive=True)):
            if os.path.isfile(p) and re.search(r"\.(h|hh|hpp|hxx|inc|ipp|tcc)$", p):
                h.update(os.path.relpath(p, REPO).encode()); h.update(read(p))
    for p in sorted(glob.glob(os.path.join(SIM, "**", "*.[hi]*"), recursive=True)):
        h.update(read(p))
    return h.hexdigest()

def gen_dir():
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    src = read(os.path.join(REPO, "libhelfem/include/helfem.source.h")).decode()
    src = src.replace("${LIBHELFEM_VERSION}", "v0.0.1-alpha")
    p = os.path.join(g, "helfem.h")
    if not os.path.exists(p) or read(p).decode() != src:
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(src)
        os.replace(p + ".%d" % os.getpid(), p)
    return g

def incs():
    return ["-I" + gen_dir(), "-I" + os.path.join(SIM, "stubs"), "-I" + os.path.join(SIM, "rt"),
            "-I" + os.path.join(REPO, "libhelfem/include"), "-I" + os.path.join(REPO, "libhelfem/src"),
            "-I" + os.path.join(REPO, "libhelfemqc/include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "src/general"), "-I/usr/include/hdf5/serial",
            "-isystem", "/usr/include/eigen3"]

BASE = ["-std=gnu++23", "-g1", "-DNDEBUG", "-DEIGEN_DONT_PARALLELIZE", "-w", "-ffp-contract=off"]
WRAPS = ["memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
         "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "__cxa_throw"]

def compile_one(job):
    src, flags, key = job
    odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, os.path.basename(src) + "." + key[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("cannot compile %s:\n%s" % (src, r.stdout.decode("utf-8", "replace")[-4000:]))
        prog = [f[7:] for f in flags if f.startswith("-Dmain=")]
        if prog:
            # two programs may define the same helper: keep only the entry point visible
            out = subprocess.run(["nm", tmp], stdout=subprocess.PIPE).stdout.decode()
            loc = [l.split()[-1] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] in "TDBR" and prog[0] not in l.split()[-1]]
            if loc:
                subprocess.check_call(["objcopy"] + ["--localize-symbol=" + x for x in loc] + [tmp])
        if "-DSIM_RUNTIME_OMP" in flags:
            # the simulator itself calls the real functions
            subprocess.check_call(["objcopy"] + sum([["--redefine-sym", "%s=__real_%s" % (w, w)] for w in WRAPS], []) + [tmp])
        os.replace(tmp, obj)
    return obj

def build(mode, harness, repo_objs=True, extra_src=(), jobs=None):
    """returns the path of the binary for sim/harness/<harness>.cpp"""
    hh = headers_hash()
    inc = incs()
    omp = mode == "omp"
    instr = BASE + ["-O1"] + ([] if omp else ["-DHELFEM_HAVE_FLOAT128"]) + (["-fopenmp", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"] if omp else []) + inc
    cov = bool(os.environ.get("VERIF_COV"))  # tools/cover.py
    if cov:
        instr = instr + ["-fsanitize-coverage=trace-pc"]
    plain = BASE + ["-O2"] + (["-DSIM_RUNTIME_OMP"] if omp else []) + os.environ.get("SIM_CXXFLAGS", "").split() + inc
    todo = []
    def add(src, flags):
        h = hashlib.sha256()
        h.update(read(src)); h.update(hh.encode()); h.update(" ".join(flags).encode()); h.update(CXX.encode())
        todo.append((src, flags, h.hexdigest()))
    if repo_objs:
        for s in sources():
            add(s, instr)
        add(os.path.join(SIM, "stubs/atomdb_data.cpp"), instr)
    add(os.path.join(SIM, "harness", harness + ".cpp"), instr)
    if harness.startswith("prog"):
        for src, name in programs():
            add(src, instr + ["-Dmain=" + name])
    if cov:
        add(os.path.join(SIM, "rt", "cov.cpp"), plain)
    for s in extra_src:
        add(os.path.join(SIM, s), instr)
    add(os.path.join(SIM, "rt", "simrt.cpp" if omp else "simos.cpp"), plain)
    add(os.path.join(SIM, "rt", "campaign.cpp"), plain)
    with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count() or 8) as ex:
        # biggest sources first
        order = sorted(range(len(todo)), key=lambda i: -os.path.getsize(todo[i][0]))
        res = {}
        futs = {ex.submit(compile_one, todo[i]): i for i in order}
        for f in concurrent.futures.as_completed(futs):
            res[futs[f]] = f.result()
    objs = [res[i] for i in range(len(todo))]
    h = hashlib.sha256(" ".join(objs).encode() + mode.encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (mode, harness, h)); os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        link = [CXX, "-no-pie", "-o", tmp] + objs
        if omp:
            link += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        link += ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lxc", "-lquadmath", "-ldl", "-lpthread", "-lm", "-lrt"]
        if not omp:
            link += ["-rdynamic"]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("cannot link:\n%s" % r.stdout.decode("utf-8", "replace")[-6000:])
        os.replace(tmp, out)
        # older builds of the same kind
        d = os.path.dirname(out); pre = "%s-%s-" % (mode, harness)
        old = sorted((x for x in os.listdir(d) if x.startswith(pre) and not x.endswith(".tmp")), key=lambda x: os.path.getmtime(os.path.join(d, x)))
        for x in old[:-4]:
            try:
                os.unlink(os.path.join(d, x))
            except OSError:
                pass
    return out

if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2]))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(2)
