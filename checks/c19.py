"""C19: runs repeat exactly and never depend on uninitialised memory.

Each random configuration is run several times: with automatic variables filled with zeros or with a pattern (two builds
of the same sources), with allocated and freed heap memory filled with different bytes, in different environments and
directories, with message delays and completed messages withheld, with and without output. States, tracers, checksums,
forcing and the data in output files must be identical bit for bit. A sample of the runs is also driven under
memcheck, where any branch or address that depends on an uninitialised value inside the library is reported."""
TECHNIQUE = 'runtime monitoring: differential runs under filled stack and heap memory and perturbed message timing (bit-exact oracle over recorded states and files), and memcheck'
NOTE = 'Random configurations, a few steps each. Memory contents are sampled (two stack patterns, several heap fills). Output settings may not change the state; numbers of processes are the subject of C01.'
HARNESSES = [('sim', 'aiz'), ('sim', 'aip'), ('sim', 'dbg')]
import glob, os, re, shutil
import numpy as np
from vp.sim import sim, drop
from vp import conf

PROG = {"node": [0, 1, 2, 4], "redge": [3]}


def files(d):
    """Bytes of every variable of every file."""
    from scipy.io import netcdf_file
    out = {}
    for f in sorted(glob.glob(d + "/**/*", recursive=True)):
        if not os.path.isfile(f):
            continue
        n = os.path.relpath(f, d)
        if f.endswith(".nc"):
            try:
                nc = netcdf_file(f, "r", mmap=False)
            except Exception:
                out[n] = open(f, "rb").read()
                continue
            for v in nc.variables:
                out[n + ":" + v] = np.array(nc.variables[v].data).tobytes()
            nc.close()
        else:
            out[n] = open(f, "rb").read()
    return out


def run(ctx):
    ctx.rule = "one evaluation = one repetition of a configuration compared bit by bit with its first run, or one run under memcheck"
    Z, P, D = ctx.harness("sim", "aiz"), ctx.harness("sim", "aip"), ctx.harness("sim", "dbg")
    r = ctx.rng
    jobs = []
    for i in range(100 if ctx.thorough else 12):
        g = conf.KINDS[i % 8]
        k = conf.make(r, g, steps=4, tr=r.choice(["r:1,u:0.7", "r:1,b:2,u:0.7", None]))
        d = int(k["dt"][:-1])
        k["checksum"] = 1
        if not k.get("tr"):
            k.pop("tr", None)
        if g != "cs_sw" and r.random() < 0.4:
            k["rayleigh"] = 1e-3
        if g == "cs" and r.random() < 0.3:
            k.update(hsf="%ds" % d)
        if r.random() < 0.7 and k.get("tr"):
            o = dict(output=1, outx=9, outy=(1 if g == "xz" else 7), outdt=r.choice(["%ds" % d, "%ds" % (2 * d)]), ovort=r.choice([0, 1]), odiv=r.choice([0, 1]))
            if g != "cs_sw":
                o["otemp"] = r.choice([0, 1])
        else:
            o = {}
        jobs.append((g, k, o, conf.nproc(r, k, 0.35), r.randrange(1, 10 ** 6)))

    def one(job):
        g, k, o, np_, sd = job
        key = "%s:%s" % (g, conf.label(k))

        def go(exe, env, n=np_, **x):
            q = dict(k); q.update(o); q.update(x)
            od = ctx.newdir()
            if q.get("output"):
                q["outdir"] = od
            e = {"MALLOC_PERTURB_": "0"}
            e.update(env)
            s = sim(ctx, exe, np_=n, need="C19:" + key, what="stg", env=e, **q)
            return s, od
        ref, d0 = go(Z, {})
        if ref is None:
            return
        f0 = files(d0)
        cs0 = ref.res.lines("@CS")
        runs = [("stack and heap pattern", P, {"MALLOC_PERTURB_": "165"}, {}),
                ("other heap fill", P, {"MALLOC_PERTURB_": "91", "VP_NOISE": "x" * 3001, "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo"}, {}),
                ("zero heap", Z, {"MALLOC_PERTURB_": "255", "MALLOC_MMAP_THRESHOLD_": "4096"}, {})]
        if o:
            runs.append(("without output", Z, {}, dict(output=0)))
        if np_ > 1:
            runs.append(("message timing", Z, {}, dict(chaos=2, chseed=sd)))
        for what, exe, env, x in runs:
            b, d1 = go(exe, env, **x)
            ctx.case((what, str(sorted(k.items())), np_), sample=dict(config=k, procs=np_, repetition=what))
            ctx.count("repetitions:" + what)
            if b is None:
                continue
            kk = "%s:%s" % (what.replace(" ", "_"), key)
            if b.steps != ref.steps:
                ctx.violation("steps:" + kk, "%s steps instead of %s; %s" % (b.steps, ref.steps, b.cmd()), b.cmd())
                continue
            tags = list(range(ref.steps + 1))
            if k.get("hsf"):
                tags += ["hb%d" % q for q in range(9)] + ["ha%d" % q for q in range(9)]
            for t in tags:
                if not os.path.exists("%s.%s.0" % (ref.prefix, t)) and not glob.glob("%s*%s*" % (ref.prefix, t)):
                    continue
                A, B = ref.grid(t), b.grid(t)
                for nme in ("node", "redge", "tracers", "refnode", "refredge", "lon", "lat", "area"):
                    if nme not in A.patches[0]:
                        continue
                    u, v = A.all(nme), B.all(nme)
                    if nme in PROG and u.ndim == 3 and u.shape[1] == 5:
                        u, v = u[:, PROG[nme]], v[:, PROG[nme]]
                    ctx.count("values_compared", int(u.size))
                    same = u.shape == v.shape and np.array_equal(u.view(np.int64) if u.dtype == float else u, v.view(np.int64) if v.dtype == float else v)
                    if not same and u.shape == v.shape and np.array_equal(u, v):
                        same = True         # signed zeros
                    if not ctx.check(same, "state:%s:%s" % (kk, nme), "at %s field %s differs; %s env %s vs %s" % (t, nme, b.cmd(), env, ref.cmd()), dict(cmd=b.cmd(), env=env)):
                        break
            ctx.check(b.res.lines("@CS") == cs0 and len(cs0) == 3, "checksum:" + kk, "%s vs %s; %s" % (b.res.lines("@CS")[:3], cs0[:3], b.cmd()), b.cmd())
            if what == "message timing":
                ctx.count("messages_withheld_or_delayed", sum(q.get("hidden", 0) + q.get("delayed", 0) for q in b.res.json_lines("@MSG ")))
            if o and "output" not in x:
                f1 = files(d1)
                ctx.check(sorted(f1) == sorted(f0) and len(f0) > 0, "files:" + kk, "%s vs %s" % (sorted(f1)[:5], sorted(f0)[:5]))
                for n in f0:
                    ctx.count("file_variables_compared")
                    ctx.check(n not in f1 or f1[n] == f0[n], "output:%s:%s" % (kk, n.split(":")[-1]), "variable %s differs; %s env %s" % (n, b.cmd(), env), dict(cmd=b.cmd(), env=env))
            shutil.rmtree(d1, True)
            drop(b)
        shutil.rmtree(d0, True)
        drop(ref)
    ctx.pmap(one, jobs, 5)

    # memcheck
    jobs = []
    for i in range(16 if ctx.thorough else 4):
        g = ["cs", "cs_sw", "xy", "xz"][i % 4]
        k = conf.make(r, g, steps=1, tr="r:1,u:0.7")
        k.update(ne=2 if g.startswith("cs") else 4, checksum=1, output=1, outx=5, outy=(1 if g == "xz" else 5), outdt=k["dt"], ovort=1, odiv=1)
        if k.get("ney"):
            k["ney"] = min(k["ney"], 2)
        k.pop("patches", None)
        if g != "cs_sw":
            k.update(otemp=1, rayleigh=1e-3)
        k["end"] = k["dt"]
        jobs.append((g, k))

    def vg(job):
        g, k = job
        key = "memcheck:%s:%s" % (g, conf.label(k))
        log = ctx.path("vg%d" % id(k), "log")
        kk = dict(k, outdir=ctx.newdir())
        cmd = ["valgrind", "-q", "--error-limit=no", "--num-callers=25", "--log-file=" + log, D] + ["%s=%s" % q for q in kk.items()]
        e = ctx.run(cmd, timeout=600)
        if e.timeout:
            ctx.count("memcheck_inconclusive")
            return
        t = open(log).read() if os.path.exists(log) else ""
        ctx.case((key, str(sorted(k.items()))), sample=dict(memcheck=k))
        ctx.check(e.rc == 0 and "@END" in e.out, "crash:" + key, "status %s %s; %s" % (e.rc, e.err[-600:], " ".join(cmd)), " ".join(cmd))
        ctx.count("memcheck_runs")
        for blk in re.split(r"==\d+== *\n", t):
            m = re.search(r"(Conditional jump or move depends|Use of uninitialised value|Invalid read|Invalid write|Invalid free)", blk)
            if not m:
                continue
            fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((.+?)\)", blk)
            # the innermost frame must belong to the library or a routine it called directly
            own = [(i, f, w) for i, (f, w) in enumerate(fr) if re.match(r"(Grid|Horizontal|Vertical|Time|Model|Output|DataA|Poly|Linear|Gauss|Legendre|Cubed|Connect|Exchange|TestCase|Held|Physical|Equation|Consol|Function|LAPACK|GL|Jacobian)", f)]
            if own and own[0][0] <= 3:
                ctx.violation("uninit:%s:%s" % (m.group(1).split()[0], re.sub(r"\(.*", "", own[0][1])), "%s\n%s" % (" ".join(cmd), blk[:1500]), " ".join(cmd))
    ctx.pmap(vg, jobs, 4)
