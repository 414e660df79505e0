"""C17: command-line options.

(1) Random argument vectors over all options are parsed by the model's own macros and every variable is compared with
a reference parser. (2) Models set up from options are run and compared bitwise with models built directly."""
TECHNIQUE = 'runtime monitoring: random argument vectors parsed by the real macros against a reference parser; runs configured by options compared bitwise with directly constructed models; files and variables produced compared with the output options'
NOTE = 'All options of the standard set plus user options, any order, repeated, missing values, illegal values, undeclared names; all time schemes, dynamics, discretisation and diffusion options in random letter case. --notracers is a known finding.'
HARNESSES = [('opts', 'opt')]
import os, re
from vp.sim import reldiff
from vp.dump import Grid
from vp import geo

BOOL = "output_none perturb_restart output_vort output_div output_temp output_ps output_Ri norefstate notracers nohypervis explicitvertical vmassfluxlevels ubool".split()
STR = dict(output_dir="outVP", output_prefix="out", restart_file="", vstagger="LOR", vdisc="FE", vstretch="uniform", timescheme="strang", hmethod="V1", vmethod="V1", ustring="some text")
INT = dict(output_perfile=-1, output_x=360, output_y=180, output_z=0, hypervisorder=4, vhypervisorder=0, levels=6, order=4, vertorder=1, uint=17)
DBL = dict(nu=1e15, nud=1e15, nuv=1e15, inud=0.0, udouble=-2.5)
TIME = dict(output_restart_dt="|1", outputtime="7200s|1", dt="60s|1", endtime="120s|0", utime="2001y1M2d|0")
TIMES = {"90s": "90s", "10m": "600s", "2h": "7200s", "3d": "3d", "1d12h": "1d43200s", "86400s": "1d", "100000s": "1d13600s", "250u": "250u", "2M": "2M", "1y": "1y",
         "2001-02-03": "2001y1M2d", "2001-02-03-43200": "2001y1M2d43200s"}
BADTIME = ["1.5s", "abc", "5", "5s7", "-5s", "1e3s"]
GOODINT = ["0", "5", "-3", "+12", "007", "2147483647", "-2147483648"]
BADINT = ["5x", "1e3", "2.5", "abc", "0x10", "2147483648", "99999999999999999999", "-"]
GOODDBL = ["0", "-1.5", "1e15", "2.5e-7", "+3", ".5", "-0", "1E3", "123456789012"]
BADDBL = ["abc", "1.5x", "1e", "1,5", "--", "1.2.3"]
STRS = ["x", "LOR", "Some Thing", "-x", "--", "a=b", "/tmp/nowhere", "", "-5", "=", "v1"]


def vectors(r, n, cs):
    res = ["resolution"] if cs else ["resx", "resy"]
    for i in range(n):
        mode = r.choice(["legal"] * 6 + ["missing", "missing-end", "illegal", "undeclared", "undeclared"])
        want = {b: ("bool", "0") for b in BOOL}
        want.update({k: ("string", v) for k, v in STR.items()})
        want.update({k: ("int", str(v)) for k, v in INT.items()})
        want.update({k: ("int", str({"resy": 2}.get(k, 4))) for k in res})
        want.update({k: ("double", v) for k, v in DBL.items()})
        want.update({k: ("time", v) for k, v in TIME.items()})
        argv, warn = [], []
        names = list(want)
        picks = [r.choice(names) for _ in range(r.randrange(0, 14))]
        if i < 3:
            picks = list(names)
            r.shuffle(picks)

        def opt(k):
            t = want[k][0]
            if t == "bool":
                return ["--" + k], ("bool", "1")
            if t == "string":
                s = r.choice(STRS)
                return ["--" + k, s], ("string", s)
            if t == "int":
                s = r.choice(GOODINT)
                return ["--" + k, s], ("int", str(int(s)))
            if t == "double":
                s = r.choice(GOODDBL)
                return ["--" + k, s], ("double", float(s))
            s = r.choice(list(TIMES))
            return ["--" + k, s], ("time", TIMES[s] + want[k][1][-2:])
        fate = None
        for k in picks:
            a, v = opt(k)
            argv += a
            want[k] = v
            if mode == "undeclared" and r.random() < 0.3:
                w = r.choice(["--" + r.choice(names) + "x", "--" + r.choice(names)[:-1], "-" + r.choice(names), "--" + r.choice(names).upper() + "_", "stray", "--NU", "12", "--nu=3"])
                if w[2:] not in want:
                    argv.append(w)
                    warn.append(w)
        if mode.startswith("missing"):
            k = r.choice([q for q in names if want[q][0] != "bool"])
            if mode == "missing":
                argv += ["--" + k, "--" + r.choice(names)]
            else:
                argv += ["--" + k]
            fate = ("missing", k)
        elif mode == "illegal":
            k = r.choice([q for q in names if want[q][0] in ("int", "double", "time")])
            bad = r.choice(dict(int=BADINT, double=BADDBL, time=BADTIME)[want[k][0]])
            if bad == "--" and want[k][0] == "time":
                bad = "abc"
            argv += ["--" + k, bad]
            for q in [r.choice(names) for _ in range(r.randrange(0, 3))]:
                argv += opt(q)[0]
            fate = ("illegal", k)
        yield mode, argv, want, warn, fate


def parsing(ctx, exe):
    r = ctx.rng
    jobs = []
    for cs in (True, False):
        jobs += [(cs,) + v for v in vectors(r, 700 if ctx.thorough else 60, cs)]

    def one(j):
        return ctx.run([exe] + j[2], env=dict(VPO="mode=parse;grid=%s" % ("cs" if j[0] else "xy")))
    for j, x in zip(jobs, ctx.pmap(one, jobs)):
        cs, mode, argv, want, warn, fate = j
        ctx.case("parse:%s:%d:%s" % (mode, cs, argv))
        line = "grid=%s argv=%r" % ("cs" if cs else "xy", argv)
        if fate is None:
            if not ctx.need(x, "C17:parse:" + mode, "parsing " + line):
                continue
            got = {}
            for l in x.lines("@O "):
                p = (l + "  ").split(" ", 2)
                got[p[0]] = (p[1], p[2].strip())
            if set(got) != set(want):
                ctx.violation("parse:names", "%s: %s" % (line, set(got) ^ set(want)))
            for k, (t, v) in want.items():
                g = got.get(k, (None, None))[1]
                if g is None:
                    continue
                ok = (float(g) == v) if t == "double" else g == v.strip()
                ctx.check(ok, "value:%s:%s" % (t, k if mode == "legal" else mode), "--%s is %r, expected %r; %s" % (k, g, v, line), line)
            for w in warn:
                ctx.check('"%s"' % w in x.out, "undeclared:silent", "undeclared %r is not reported; %s" % (w, line), line)
            bad = [l for l in x.out.splitlines() if l.startswith("Warning: Invalid parameter")]
            ctx.check(len(bad) == len(warn), "undeclared:spurious", "%d undeclared, %d reported; %s" % (len(warn), len(bad), line), line)
        else:
            ctx.check(x.rc != 0 and "@O" not in x.out, "%s:accepted" % fate[0], "%s value of --%s accepted; %s" % (fate[0], fate[1], line), line)
            msg = x.out + x.err
            ctx.check(("--" + fate[1]) in msg if fate[0] == "missing" else ("Malformed" in msg or "Invalid value" in msg), "%s:message" % fate[0], "no message for %s value of --%s; %s" % (fate[0], fate[1], line), line)


def case(r, s):
    return "".join(c.upper() if r.random() < 0.5 else c for c in s)


SCH = ["strang", "strang/fe", "strang/rk4", "strang/rk3", "strang/kgu35", "strang/ssprk53", "erk", "erk/fe", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53",
       "ars222", "ars232", "ark232", "gark2", "ars343", "ars343b", "ars443", "ssp3_332"]


def configs(ctx):
    """(own settings, settings of the reference, options)."""
    r = ctx.rng
    for n, s in enumerate(SCH):
        yield "scheme:" + s, dict(eq="sw", grid="cs"), dict(scheme=s, ne=2, levels=1, stagger="lev", nohv=1), ["--timescheme", case(r, s), "--resolution", "2", "--levels", "1", "--vstagger", case(r, "lev"), "--nohypervis"]
    nh = dict(eq="nh", grid="xy", Lx=4e5, Ly=2e5, tr="r:1,u:0.7")
    for s in (SCH if ctx.thorough else r.sample([q for q in SCH if not q.startswith("erk")], 3)):
        if s.startswith("erk") or s == "strang/fe":
            continue
        yield "nh-scheme:" + s, nh, dict(scheme=s, dt="20s", end="60s", nohv=1), ["--timescheme", case(r, s), "--dt", "20s", "--endtime", "60s", "--nohypervis"]
    base = dict(dt="20s", end="40s", scheme="ars232")
    bopt = ["--dt", "20s", "--endtime", "40s", "--timescheme", "ars232"]
    one = [("v2", dict(hmethod="v2", nohv=1), ["--hmethod", "v2", "--nohypervis"]), ("v1", dict(nohv=1), ["--hmethod", "V1", "--nohypervis", "--vmethod", "v1"]),
           ("none", dict(vmethod="none", nohv=1), ["--vmethod", case(r, "none"), "--nohypervis"]),
           ("expvert", dict(expvert=1, nohv=1, dt="1s", end="3s"), ["--explicitvertical", "--nohypervis", "--dt", "1s", "--endtime", "3s"]),
           ("norefstate", dict(norefstate=1, nohv=1), ["--norefstate", "--nohypervis"]),
           ("mflev", dict(mflev=1, nohv=1), ["--vmassfluxlevels", "--nohypervis"]),
           ("hv4", dict(nu=0.02, nud=0.01, nuv=0.03), ["--nu", "0.02", "--nud", "0.01", "--nuv", "0.03"]),
           ("hv2", dict(nu=1e5, nud=2e5, nuv=5e4, hvorder=2), ["--nu", "1e5", "--nud", "2e5", "--nuv", "5e4", "--hypervisorder", "2"]),
           ("hv0", dict(nu=1e5, nud=2e5, nuv=5e4, hvorder=0), ["--nu", "1e5", "--nud", "2e5", "--nuv", "5e4", "--hypervisorder", "0"]),
           ("inud", dict(inud=1e3, nohv=1), ["--inud", "1e3", "--nohypervis"]),
           ("vhv2", dict(vhv=2, nohv=1), ["--vhypervisorder", "2", "--nohypervis"]),
           ("cubic", dict(stretch="cubic", nohv=1), ["--vstretch", case(r, "cubic"), "--nohypervis"]), ("pwlinear", dict(stretch="pwlinear", nohv=1), ["--vstretch", case(r, "pwlinear"), "--nohypervis"]),
           ("levels", dict(levels=9, nohv=1), ["--levels", "9", "--nohypervis"]), ("vorder", dict(levels=12, vorder=2, nohv=1), ["--levels", "12", "--vertorder", "2", "--nohypervis"]),
           ("fv", dict(levels=12, vorder=2, vdisc="fv", nohv=1), ["--levels", "12", "--vertorder", "2", "--vdisc", case(r, "fv"), "--nohypervis"]),
           ("order", dict(order=3, nohv=1), ["--order", "3", "--nohypervis"]), ("res", dict(ne=6, ney=3, nohv=1), ["--resx", "6", "--resy", "3", "--nohypervis"]),
           ("endtime", dict(end="70s", nohv=1), ["--endtime", "70s", "--nohypervis"]), ("lor", dict(nohv=1), ["--vstagger", case(r, "lor"), "--nohypervis"]),
           ("defaults", dict(), ["--nu", "0", "--nud", "0", "--nuv", "0"])]
    for k, ref, opt in one:
        if k == "defaults":
            ref = dict(nu=0, nud=0, nuv=0)
        o = list(opt)
        f = dict(base, **ref)
        yield "opt:" + k, nh, f, bopt + o
    yield "cs-defaults", dict(eq="nh", grid="cs"), dict(ne=4, dt="60s", end="120s", scheme="strang"), []
    yield "cs-stagger", dict(eq="nh", grid="cs"), dict(ne=2, dt="60s", end="120s", vmethod="none", stagger="cph", nohv=1), ["--resolution", "2", "--vmethod", "None", "--vstagger", case(r, "cph"), "--nohypervis"]


def models(ctx, exe):
    L = list(configs(ctx))

    def one(c):
        name, own, ref, opt = c
        d = ctx.newdir()
        own = dict(own, seed=str(ctx.rng.randrange(1000)) if False else "7", amp=0.001)
        ref = dict(dict(dt="60s", end="120s", scheme="strang"), **ref)
        v = lambda m, f: ";".join("%s=%s" % q for q in dict(own, mode=m, dump=d + "/" + m, **f).items())
        a = ctx.run([exe] + opt + ["--output_none"], env=dict(VPO=v("run", {})), cwd=d)
        b = ctx.run([exe], env=dict(VPO=v("ref", ref)), cwd=d)
        return d, a, b, sorted(os.listdir(d))
    prints = {}
    for c, (d, a, b, files) in zip(L, ctx.pmap(one, L)):
        name, own, ref, opt = c
        ctx.case("model:" + name)
        line = "%s: %s" % (name, " ".join(opt))
        if not b.rc == 0:
            ctx.violation("ref:" + name, "the directly built model fails: " + b.out[-300:] + b.err[-200:], line)
            continue
        if not ctx.need(a, "C17:model:" + name, "a model set up from options (%s)" % line):
            continue
        ctx.check(a.lines("@TIME") == b.lines("@TIME"), "time:" + name, "%s ends at %s instead of %s" % (line, a.lines("@TIME"), b.lines("@TIME")), line)
        ctx.check(not any(f.endswith(".nc") or "restart" in f for f in files), "output_none:" + name, "files written with --output_none: %s" % files, line)
        x, y = Grid(d + "/run", "final"), Grid(d + "/ref", "final")
        same = len(x.patches) == len(y.patches)
        fp = []
        for p, q in zip(x.patches, y.patches):
            for k in q.a:
                if k in ("node", "redge", "tracers", "zlev", "topo", "area", "anode"):
                    same = same and k in p.a and p.a[k].shape == q.a[k].shape and p.a[k].tobytes() == q.a[k].tobytes()
                    if k == "node":
                        fp.append(hash(p.a[k].tobytes()))
        ctx.check(same, "honoured:" + name, "a model set up from %s is not the model asked for" % line, line)
        prints.setdefault((tuple(sorted(own.items())), tuple(fp)), []).append(name)
    ctx.counters["distinct final states"] = len(prints)
    ctx.counters["models compared"] = len(L)
    for k, v in prints.items():
        if len(v) > 1 and not set(v) <= {"opt:v1", "opt:lor", "opt:defaults", "opt:norefstate", "opt:mflev", "opt:inud", "opt:cubic", "scheme:erk", "scheme:strang", "scheme:erk/kgu35", "scheme:strang/kgu35"}:
            ctx.counters.setdefault("options without effect", []).append(v)


def outputs(ctx, exe):
    """Output options: which files, variables and sizes."""
    import scipy.io
    r = ctx.rng
    flags = dict(output_vort="ZETA", output_div="DELTA", output_temp="T", output_ps="PS", output_Ri="Ri")
    jobs = []
    for k in range(40 if ctx.thorough else 8):
        on = [f for f in flags if r.random() < 0.5]
        nx, ny, nz = r.randrange(4, 12), r.randrange(2, 8), r.choice([0, 0, 4])
        per = r.choice([None, 1, 2, 5])
        every = r.choice([20, 40, 60])
        rdt = r.choice([None, 20, 40])
        none = r.random() < 0.2
        pre = r.choice(["out", "abc", "x.y"])
        jobs.append((on, nx, ny, nz, per, every, rdt, none, pre))

    def one(j):
        on, nx, ny, nz, per, every, rdt, none, pre = j
        d = ctx.newdir()
        o = ["--" + f for f in on] + ["--output_x", nx, "--output_y", ny, "--output_z", nz, "--outputtime", "%ds" % every, "--output_dir", "od", "--output_prefix", pre,
                                      "--dt", "20s", "--endtime", "120s", "--nohypervis", "--timescheme", "ars232"]
        o += ["--output_perfile", per] if per else []
        o += ["--output_restart_dt", "%ds" % rdt] if rdt else []
        o += ["--output_none"] if none else []
        v = "mode=run;eq=nh;grid=xy;Lx=4e5;Ly=2e5;seed=7;amp=0.001;tr=r:1;dump=%s/run" % d
        return d, ctx.run([exe] + [str(q) for q in o], env=dict(VPO=v), cwd=d), " ".join(map(str, o))
    for j, (d, x, line) in zip(jobs, ctx.pmap(one, jobs)):
        on, nx, ny, nz, per, every, rdt, none, pre = j
        ctx.case("output:" + line)
        if not ctx.need(x, "C17:outputs", "a run with output options (%s)" % line):
            continue
        od = d + "/od"
        nc = sorted(f for f in os.listdir(od) if f.endswith(".nc")) if os.path.isdir(od) else []
        rs = sorted(f for f in os.listdir(od) if "restart" in f) if os.path.isdir(od) else []
        ntimes = 120 // every + 1
        ctx.check(len(rs) == ((120 // rdt + 1) if rdt else 0), "restart_dt", "%d checkpoint files; %s" % (len(rs), line), line)
        ctx.check(all(f.startswith(pre + ".") for f in nc + rs), "prefix", "%s; %s" % (nc + rs, line), line)
        if none:
            ctx.check(nc == [], "output_none", "%s; %s" % (nc, line), line)
            continue
        want = 1 if not per else -(-ntimes // per)
        if not ctx.check(len(nc) == want, "perfile", "%d output files, expected %d; %s" % (len(nc), want, line), line):
            continue
        tot = 0
        for f in nc:
            q = scipy.io.netcdf_file(od + "/" + f, mmap=False)
            tot += len(q.variables["time"][:])
            dims = q.dimensions
            ctx.check(dims.get("lat") == ny and dims.get("lon") == nx, "output_xy", "%s; %s" % (dict(dims), line), line)
            ctx.check(dims.get("lev") == (nz or 6), "output_z", "%s; %s" % (dict(dims), line), line)
            for fl, var in flags.items():
                ctx.check((var in q.variables) == (fl in on), "flag:" + fl, "%s is%s in the file; %s" % (var, "" if var in q.variables else " not", line), line)
            q.close()
        ctx.check(tot == ntimes, "outputtime", "%d outputs, expected %d; %s" % (tot, ntimes, line), line)


def run(ctx):
    ctx.rule = "one evaluation: one argument vector parsed, one model set up from options and compared with the directly built one, or one run with output options; distinct by argument vector"
    exe = ctx.harness("opts")
    parsing(ctx, exe)
    models(ctx, exe)
    outputs(ctx, exe)
    # --notracers: tracers are not transported
    d = ctx.newdir()
    x = ctx.run([exe, "--notracers", "--output_none", "--nohypervis", "--dt", "20s", "--endtime", "40s"], env=dict(VPO="mode=run;eq=nh;grid=xy;Lx=4e5;Ly=2e5;seed=7;tr=r:1;dump=%s/run" % d), cwd=d)
    ctx.case("notracers")
    if ctx.need(x, "C17:notracers", "a run with --notracers"):
        g = Grid(d + "/run", "final")
        ctx.check("tracers" not in g.patches[0].a, "notracers", "--notracers has no effect: tracers are transported all the same", "opts --notracers")
    ctx.samples = ["parse: --levels 5x", "model: --timescheme STRANG/rk3 vs directly built", "output: --output_perfile 2 --outputtime 40s"]
