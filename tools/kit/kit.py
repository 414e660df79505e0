"""Demonstration helper: compiles a driver beside this file against /repo's built libraries and runs it in a scratch directory."""
import os, shutil, subprocess, sys, tempfile, atexit
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
W = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, W, True)
ENV = dict(os.environ, OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_pml="ob1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm="isolated",
           OMPI_MCA_plm_rsh_agent="/bin/false", OMP_NUM_THREADS="1", LC_ALL="C")


def compile(src, extra=()):
    exe = os.path.join(W, os.path.splitext(src)[0])
    c = ["mpiCC", "-std=c++11", "-O1", "-w", "-I/repo/src/base", "-I/repo/src/atm", "-I" + D, "-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF",
         "-DTEMPEST_LAPACK_FORTRAN_INTERFACE"] + list(extra) + [os.path.join(D, src), "/repo/lib/libhardcoreatm.a", "/repo/lib/libtempestbase.a",
         "-lnetcdf", "-llapack", "-lblas", "-lgfortran", "-o", exe]
    r = subprocess.run(c, env=ENV, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        sys.exit(3)
    return exe


_n = [0]


class Run:
    def grid(self, tag):
        from dump import Grid
        return Grid(self.prefix, str(tag))


def run(exe, np=None, timeout=120, args=None, ok=True, **kw):
    _n[0] += 1
    d = os.path.join(W, "r%d" % _n[0])
    os.makedirs(d)
    r = Run()
    r.dir, r.prefix = d, os.path.join(d, "d")
    cmd = [exe] + (args if args is not None else ["%s=%s" % kv for kv in dict(kw, dump=r.prefix).items()])
    if np:
        cmd = ["mpirun", "-np", str(np)] + cmd
    p = subprocess.run(cmd, env=ENV, cwd=d, capture_output=True, text=True, timeout=timeout, errors="replace")
    r.rc, r.out = p.returncode, p.stdout + p.stderr
    if ok and p.returncode:
        print("run failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), r.out[-1500:]))
        sys.exit(1)
    return r


def fail(msg):
    print("DEMO FAILS: " + msg)
    sys.exit(1)
