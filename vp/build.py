"""Builds harness programs against /repo's current sources with a content-addressed object cache.

Every object is keyed by its preprocessed text plus flags, so an edit is seen whatever its time stamp is, and
an edit that leaves the preprocessed text alone (a comment) costs nothing. Everything lives in /verif/build
(ignored by git) or, if that is not writable, in a private temporary directory.
"""
import atexit, concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, threading

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VP_JOBS", "8"))

MPI_ENV = {
    "OMPI_CXX": "g++", "OMPI_CC": "gcc",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "OMP_NUM_THREADS": "1", "LC_ALL": "C",
}

BASE = ["-std=c++11", "-I%s/src/base" % REPO, "-I%s/src/atm" % REPO,
        "-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF", "-DTEMPEST_LAPACK_FORTRAN_INTERFACE",
        "-fPIC", "-w", "-Wno-literal-suffix"]
VARIANTS = {
    "opt": ["-O2"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr"],
    "chk": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize=vptr", "-DDEBUG_ARRAYOUTOFBOUNDS"],
    "dbg": ["-O1", "-g"],
    # automatic variables filled with zeros, and with a pattern
    "aiz": ["-O2", "-ftrivial-auto-var-init=zero"],
    "aip": ["-O2", "-ftrivial-auto-var-init=pattern"],
}
LIBS = ["-lnetcdf", "-llapack", "-lblas", "-lgfortran"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(MPI_ENV)
    return e


_mpi = None


def mpi_flags():
    """Compile and link flags of the MPI wrapper (asked once, cached per process)."""
    global _mpi
    if _mpi is None:
        def ask(w):
            return subprocess.run(["mpiCC", w], env=env(), capture_output=True, text=True,
                                  check=True).stdout.split()
        _mpi = (ask("--showme:compile"), ask("--showme:link"))
    return _mpi


_cache_lock = threading.Lock()
_cache_ok = False


def _cache_dir():
    global CACHE, _cache_ok
    with _cache_lock:
        if not _cache_ok:
            try:
                os.makedirs(CACHE, exist_ok=True)
                fd, t = tempfile.mkstemp(dir=CACHE)
                os.close(fd)
                os.unlink(t)
            except OSError:
                CACHE = tempfile.mkdtemp(prefix="vpbuild")
                atexit.register(shutil.rmtree, CACHE, True)
            _cache_ok = True
    return CACHE


def lib_sources():
    """The library sources: what the two makefiles list (all *.cpp where a list cannot be read)."""
    out = []
    for d in ("src/base", "src/atm"):
        p = os.path.join(REPO, d)
        files = []
        try:
            t = open(os.path.join(p, "Makefile")).read()
            m = re.search(r"^FILES\s*=((?:.*\\\n)*.*)$", t, re.M)
            files = [f for f in m.group(1).replace("\\\n", " ").split() if f.endswith(".cpp")]
        except Exception:
            pass
        if not files:
            files = [os.path.basename(f) for f in sorted(glob.glob(p + "/*.cpp"))]
        out += [os.path.join(p, f) for f in files]
    return out


_pp_memo = {}


def compile_one(src, flags):
    cache = _cache_dir()
    cflags = BASE + flags + mpi_flags()[0]
    e = env()
    for attempt in (0, 1):
        pp = subprocess.run(["g++", "-E", "-P"] + cflags + [src], env=e, capture_output=True)
        if pp.returncode == 0:
            break
    if pp.returncode != 0:
        raise BuildError("preprocess %s\n%s" % (src, pp.stderr.decode(errors="replace")[-4000:]))
    h = hashlib.sha256(b"v1\0" + " ".join(cflags).encode() + b"\0" + pp.stdout).hexdigest()[:40]
    obj = os.path.join(cache, "o", h[:2], h + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = subprocess.run(["g++"] + cflags + ["-c", src, "-o", tmp], env=e, capture_output=True)
    if r.returncode != 0:
        raise BuildError("compile %s\n%s" % (src, r.stderr.decode(errors="replace")[-6000:]))
    os.replace(tmp, obj)
    return obj


def build(name, sources, variant="opt", defs=(), with_lib=True, extra_flags=(), link=()):
    """Compile sources (+ the two libraries) and link; returns the path of the program."""
    flags = VARIANTS[variant] + list(defs) + list(extra_flags)
    libflags = VARIANTS[variant]
    jobs = [(s, flags) for s in sources]
    if with_lib:
        jobs += [(s, libflags) for s in lib_sources()]
    # largest first, so that the long compile starts early
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]) if os.path.exists(jobs[i][0]) else 0)
    objs = [None] * len(jobs)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {i: ex.submit(compile_one, *jobs[i]) for i in order}
        for i, f in futs.items():
            objs[i] = f.result()
    lk = (["-L/usr/lib"] + mpi_flags()[1] + LIBS + list(link))
    key = hashlib.sha256(("\0".join(objs + lk + VARIANTS[variant])).encode()).hexdigest()[:32]
    exe = os.path.join(_cache_dir(), "x", key + "-" + name)
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    nown = len(sources)
    lib = os.path.join(_cache_dir(), "x", "lib%s.%d.%d.a" % (key, os.getpid(), threading.get_ident()))
    tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    try:
        cmd = ["g++"] + VARIANTS[variant] + objs[:nown]
        if with_lib:
            if os.path.exists(lib):
                os.unlink(lib)
            subprocess.run(["ar", "-cqs", lib] + objs[nown:], check=True, capture_output=True)
            cmd += [lib]
        cmd += lk + ["-o", tmp]
        r = subprocess.run(cmd, env=env(), capture_output=True)
        if r.returncode != 0:
            raise BuildError("link %s\n%s" % (name, r.stderr.decode(errors="replace")[-6000:]))
        os.replace(tmp, exe)
    finally:
        if os.path.exists(lib):
            os.unlink(lib)
    return exe


def harness(name, variant="opt", defs=(), **kw):
    """Build harness/<name>.cpp; "name+src/base/" links only that part of the library."""
    name, *some = name.split("+")
    srcs = [os.path.join(VERIF, "harness", name + ".cpp")] + [p for s in some for p in lib_sources() if os.path.relpath(p, REPO).startswith(s)]
    if some:
        kw["with_lib"] = False
    return build(name, srcs, variant, list(defs) + ["-I" + os.path.join(VERIF, "harness")], **kw)
