"""C27: the post-processing tools.

The real tools, built with address and undefined-behaviour sanitizers, run on files with random contents (dimensions,
level spacing, topography, which variables are there and where, attributes, numbers of records) and on files written by
the model itself; the files they write are compared, value by value and attribute by attribute, with an independent
statement of the conversion. Requests with something missing must be reported and must not leave data behind."""
TECHNIQUE = 'runtime monitoring: contents of the written NetCDF files compared with the input, under AddressSanitizer and UBSan'
NOTE = 'Extraction is linear in pressure or height within and beyond the column, and quadratic to the surface. The total-energy option is checked as kinetic plus internal energy on a latitude-longitude grid with all winds on levels.'
HARNESSES = [('cfc+src/base/', 'asan'), ('exs+src/base/', 'asan'), ('outh', 'opt')]
import os, glob, shutil
import numpy as np
from scipy.io import netcdf_file
from vp.sim import sim, drop
from vp import conf

ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98"}
LONG = {"U": ("m/s", "eastward_wind"), "V": ("m/s", "northward_wind"), "W": ("m/s", "upward_air_velocity"),
        "Rho": ("kg/m^3", "air_density"), "Theta": ("K", "potential_temperature"), "T": ("K", "temperature"),
        "DELTA": ("1/s", "divergence"), "ZETA": ("1/s", "relative_vorticity"), "PS": ("Pa", "surface_pressure"),
        "DeltaZ": ("m", "layer_thickness"), "Qc": (None, "cloud_water_mixing_ratio"), "Qr": (None, "rain_water_mixing_ratio"),
        "Q": (None, "specific_humidity")}
GL = dict(earth_radius=6.37122e6, g=9.80616, omega=7.29212e-5, alpha=0.0, Rd=287.0, Cp=1004.5, T0=300.0, P0=1e5, rho_water=1e3,
          Rvap=461.5, Mvap=0.608, Lvap=2.5e6)


class File:
    def __init__(self, path):
        nc = netcdf_file(path, "r", mmap=False)
        self.dims = dict(nc.dimensions)
        self.v = {n: np.array(x.data, copy=True) for n, x in nc.variables.items()}
        self.vd = {n: tuple(x.dimensions) for n, x in nc.variables.items()}
        self.va = {n: dict(x._attributes) for n, x in nc.variables.items()}
        self.a = dict(nc._attributes)
        nc.close()


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def attrs_in(a, b):
    """every attribute of a is in b with the same value"""
    return [n for n in a if n not in b or not same(a[n], b[n])]


def make(r, path, n):
    """A file of random contents, as the model writes them."""
    f = netcdf_file(path, "w", version=r.choice([1, 2]))
    rg = np.random.RandomState(r.randrange(1 << 30))
    nt, nl = r.choice([1, 2, 3, 5]), r.choice([2, 3, 4, 5, 8, 12])
    ny, nx = r.choice([2, 3, 5, nl]), r.choice([2, 4, 7, nl + 1])
    f.createDimension("time", None)
    for d, s in (("lev", nl), ("ilev", nl + 1), ("lat", ny), ("lon", nx)):
        f.createDimension(d, s)
    st = r.choice([1.0, 1.0, 1.6])
    il = (np.arange(nl + 1) / nl) ** st
    lev = il[:-1] + np.diff(il) * (0.5 if st == 1.0 else rg.uniform(0.2, 0.8, nl))
    ztop = r.choice([1e4, 3e4, 2.5e4])
    for k, v in GL.items():
        setattr(f, k, v * (1 + 0.01 * rg.rand()))
    f.Ztop = ztop
    f.equation_set = "primitive"
    if r.random() < 0.5:
        f.history = "made for a check"
        f.version = np.int32(7)
        f.steps = np.array([1.5, 2.5, -3.0])

    def var(name, dims, data, **at):
        v = f.createVariable(name, "d", dims)
        v[:] = data
        for k, x in at.items():
            setattr(v, k, x)
    var("time", ("time",), np.cumsum(rg.uniform(0.1, 1, nt)), units="days since 2000-01-01", calendar="noleap", long_name="time")
    var("lat", ("lat",), np.linspace(-80, 80, ny), units="degrees_north", long_name="latitude")
    var("lon", ("lon",), np.arange(nx) * 360.0 / nx, units="degrees_east", long_name="longitude", valid=np.array([0.0, 360.0]))
    var("lev", ("lev",), lev, units="level", long_name="level")
    var("ilev", ("ilev",), il, units="level")
    zs = rg.uniform(0, 1500, (ny, nx)) if r.random() < 0.7 else np.zeros((ny, nx))
    var("Zs", ("lat", "lon"), zs)
    z = zs + lev[:, None, None] * (ztop - zs)
    z4 = np.broadcast_to(z, (nt,) + z.shape)
    L4, I4 = ("time", "lev", "lat", "lon"), ("time", "ilev", "lat", "lon")
    sl, si = (nt, nl, ny, nx), (nt, nl + 1, ny, nx)
    P = 1e5 * np.exp(-z4 / 8000.0) * (1 + 0.001 * rg.randn(nt, 1, ny, nx))
    names = {}
    for nm, scale in (("U", 20), ("V", 20), ("Theta", 300), ("T", 250), ("ZETA", 1e-4), ("DELTA", 1e-5), ("Xtra", 1)):
        if r.random() < 0.75 or nm in ("U", "V"):
            ifc = nm == "Xtra" and r.random() < 0.5
            var(nm, I4 if ifc else L4, scale * rg.randn(*(si if ifc else sl)), units="x%d" % rg.randint(9))
            names[nm] = "i" if ifc else "n"
    wi = r.random() < 0.6
    var("W", I4 if wi else L4, rg.randn(*(si if wi else sl)))
    names["W"] = "i" if wi else "n"
    var("Rho", L4, P / 287.0 / 270.0 * (1 + 0.05 * rg.rand(*sl)), comment="density", number=np.array([3.5]))
    names["Rho"] = "n"
    if r.random() < 0.8:
        var("P", L4, P, units="Pa")
        names["P"] = "n"
    if r.random() < 0.6:
        var("PS", ("time", "lat", "lon"), 1e5 + 1e3 * rg.randn(nt, ny, nx), units="Pa")
        names["PS"] = "2"
    for q in ("Qv", "Qc", "Qr"):
        t = r.random()
        if t < 0.4:
            var("Rho" + q, L4, 0.01 * rg.rand(*sl))
            names["Rho" + q] = "n"
        elif t < 0.7:
            var(q, L4, 0.01 * rg.rand(*sl))
            names[q] = "n"
    f.close()
    return names


def lin(x, y, q):
    """y(x) along axis 0 at q, linear, extrapolating; x monotone along axis 0 (all columns)."""
    n = x.shape[0]
    up = x[1] > x[0]
    xs = np.where(up, x, -x); qs = np.where(up, q, -q)
    k = np.clip((xs < qs).sum(0) - 1, 0, n - 2)[None]
    x0, x1 = np.take_along_axis(xs, k, 0)[0], np.take_along_axis(xs, k + 1, 0)[0]
    y0, y1 = np.take_along_axis(y, k, 0)[0], np.take_along_axis(y, k + 1, 0)[0]
    return y0 + (y1 - y0) * (qs - x0) / (x1 - x0)


def clean(ctx, r, key):
    bad = "Sanitizer" in r.err or "runtime error" in r.err or r.rc != 0 or r.timeout
    return ctx.check(not bad, "run:" + key, "tool ended with status %s%s: %s; %s" % (r.rc, " (timed out)" if r.timeout else "", (r.err[-300:] if "SUMMARY" not in r.err else r.err[r.err.index("SUMMARY"):][:300]), " ".join(r.cmd)), " ".join(r.cmd))


def converter(ctx, exe, r, d, src, names, desc):
    """One run of CFConverter on a copy of src in d."""
    parts = ["tempest", "exp%d" % r.randrange(99), "r100", "L30", "cubed", "nonhydro"] + (["notes"] if r.random() < 0.4 else [])
    fn = ".".join(parts + ["nc"])
    shutil.copy(src, d + "/" + fn)
    I = File(src)
    cand = [n for n in names if n[:1] != "Q"] + ["DeltaZ"] + [q for q in ("Qv", "Qc", "Qr") if q in names or "Rho" + q in names]
    if "Qv" in cand:
        cand.append("Q")
    want = r.sample(cand, r.randrange(1, min(6, len(cand)) + 1))
    miss = None
    if r.random() < 0.25:
        miss = r.choice(["Nope", "QQ", "Qz", "Zs"])
        want.insert(r.randrange(len(want) + 1), miss)
    sep = r.choice([",", " ", ",,", ", "])
    pid = r.choice([None, "PX"])
    x = ctx.run([exe, "--in", fn, "--var", r.choice(["", ","]) + sep.join(want)] + (["--project_id", pid] if pid else []), timeout=60, cwd=d, env=ENV)
    key = "cfc"
    cmd = " ".join(x.cmd)
    if not clean(ctx, x, key):
        return
    ctx.case((src, tuple(want), sep), sample=dict(tool="CFConverter", file=desc, variables=want))
    if miss:
        ctx.check(miss in x.out or "Invalid number of dimensions" in x.out, "report:" + key, "variable %s is missing and not reported; %s" % (miss, cmd), cmd)
        want = want[:want.index(miss)]
        ctx.count("missing_requests", 1)
    got = sorted(os.path.basename(p) for p in glob.glob(d + "/*.nc") if os.path.basename(p) != fn)
    exp = sorted(".".join(parts + [w, "nc"]) for w in set(want))
    if not ctx.check(got == exp, "files:" + key, "files %s, expected %s; %s" % (got, exp, cmd), cmd):
        return
    zt = float(I.a["Ztop"])
    for w in want:
        O = File(d + "/" + ".".join(parts + [w, "nc"]))
        # the data
        if w == "DeltaZ":
            data = np.broadcast_to(np.diff(I.v["ilev"])[None, :, None, None] * (zt - I.v["Zs"])[None, None], (len(I.v["time"]), I.dims["lev"], I.dims["lat"], I.dims["lon"]))
            loc, tol = "n", 1e-12
        elif w[0] == "Q":
            q = "Qv" if w == "Q" else w
            data, tol, loc = (I.v[q], 0, "n") if q in I.v else (I.v["Rho" + q] / I.v["Rho"], 1e-14, "n")
        else:
            data, tol = I.v[w], 0
            loc = {3: "2", 4: "i" if "ilev" in I.vd[w] else "n"}[len(I.vd[w])]
        dims = ("time",) + (("z",) if loc != "2" else ()) + ("lat", "lon")
        if not ctx.check(w in O.v and O.vd[w] == dims and O.v[w].shape == data.shape, "shape:" + key, "%s has dimensions %s%s; %s" % (w, O.vd.get(w), O.v.get(w, np.zeros(0)).shape, cmd), cmd):
            continue
        err = np.abs(O.v[w] - data).max() / max(np.abs(data).max(), 1e-300)
        ctx.le(float(err), tol, "difference of the values of the converted variable", "values:" + key, "%s; %s" % (w, cmd), cmd)
        ctx.count("values_compared", data.size)
        # coordinates
        ok = same(O.v["time"], I.v["time"]) and same(O.v["lat"], I.v["lat"]) and same(O.v["lon"], I.v["lon"])
        ctx.check(ok, "coords:" + key, "time, lat or lon differ in the file of %s; %s" % (w, cmd), cmd)
        if loc != "2":
            z = zt * I.v["lev" if loc == "n" else "ilev"]
            ctx.check(O.v["z"].shape == z.shape and np.allclose(O.v["z"], z, rtol=1e-14, atol=0), "z:" + key, "z is not the height of the levels in the file of %s; %s" % (w, cmd), cmd)
        ctx.check(set(O.v) == {w, "time", "lat", "lon"} | ({"z"} if loc != "2" else set()), "extra:" + key, "variables %s in the file of %s; %s" % (sorted(O.v), w, cmd), cmd)
        # metadata
        bad = [(v, n) for v in ("time", "lat", "lon") for n in attrs_in(I.va[v], O.va[v])]
        ctx.check(not bad, "attributes:" + key, "attributes %s not kept; %s" % (bad, cmd), cmd)
        ours = {"Conventions": b"CF-1.0", "project_id": (pid or "DCMIP2016").encode(), "experiment_id": parts[1].encode(), "model_id": parts[0].encode(),
                "horizontal_resolution": parts[2].encode(), "levels": parts[3].encode(), "grid": parts[4].encode(), "equation": parts[5].encode()}
        if len(parts) == 7:
            ours["description"] = parts[6].encode()
        bad = attrs_in(I.a, O.a) + attrs_in(ours, O.a)
        ctx.check(not bad, "global:" + key, "global attributes %s not kept or wrong; %s" % (bad, cmd), cmd)
        if w in LONG:
            u, l = LONG[w]
            ctx.check((u is None or O.va[w].get("units") == u.encode()) and O.va[w].get("long_name") == l.encode(), "names:" + key, "%s described as %s; %s" % (w, O.va[w], cmd), cmd)


def extract(ctx, exe, r, d, src, names, desc):
    I = File(src)
    key = "exs"
    cand = [n for n, l in names.items() if l in "ni"]
    want = r.sample(cand, r.randrange(1, min(5, len(cand)) + 1))
    opts, ps, zs = [], [], []
    zt = float(I.a["Ztop"])
    t = r.randrange(7)
    if t in (0, 2, 4, 6) and "P" in names:
        ps = [r.choice([20000, 50000, 85000, 92500, 99999, 110000]) + r.randrange(100) for _ in range(r.randrange(1, 4))]
        opts += ["--p", r.choice([",", ", ", ",,"]).join("%g" % p for p in ps)]
        if r.random() < 0.3:
            ps = [30000.0 + 20000 * q for q in range(4)]
            opts[1] = r.choice(["30000:20000:90000", "30000:20000:99999"])
            if r.random() < 0.4:
                ps = ps[::-1]; opts[1] = "90000:-20000:30000"
    if t in (1, 2, 5, 6):
        zs = [r.choice([0, 100, 1234.5, 5000, 9999, 20000]) + r.randrange(50) for _ in range(r.randrange(1, 4))]
        opts += ["--z", ",".join("%g" % z for z in zs)]
        if r.random() < 0.3:
            n = r.choice([5, 5, 5, 150])
            zs = [500.0 + 750 / n * 5 * q for q in range(n)]
            opts[-1] = "500:%g:%g" % (750 / n * 5, zs[-1])
    surf = t in (3, 4, 5, 6)
    if not ps and not zs:
        surf = True
    if surf:
        opts.append("--surf")
    phi = r.random() < 0.4
    en = r.random() < 0.3 and names["W"] == "n" and "P" in names
    opts += ["--output_z"] * phi + ["--output_energy"] * en
    miss = None
    q = r.random()
    if q < 0.08:
        miss = "Nope"; want.append(miss)
    elif q < 0.14 and "PS" in names:
        miss = "PS"; want.append(miss)
    elif q < 0.2 and "P" not in names:
        miss = "P"; opts += ["--p", "50000"] if not ps else []
    x = ctx.run([exe, "--in", src, "--out", d + "/o.nc", "--var", r.choice([",", " "]).join(want)] + opts, timeout=60, cwd=d, env=ENV)
    cmd = " ".join(x.cmd)
    if not clean(ctx, x, key):
        return
    ctx.case((src, tuple(want), tuple(opts)), sample=dict(tool="ExtractSurface", file=desc, variables=want, options=opts))
    if miss:
        ctx.check('"%s"' % miss in x.out, "report:" + key, "%s is missing or unsuitable and not reported; %s" % (miss, cmd), cmd)
        ctx.count("missing_requests", 1)
        return
    if not ctx.check(os.path.exists(d + "/o.nc"), "files:" + key, "nothing written: %s; %s" % (x.out[-200:], cmd), cmd):
        return
    O = File(d + "/o.nc")
    ok = same(O.v["time"], I.v["time"]) and same(O.v["lat"], I.v["lat"]) and same(O.v["lon"], I.v["lon"]) and same(O.v["Zs"], I.v["Zs"])
    ctx.check(ok, "coords:" + key, "time, lat, lon or Zs differ; " + cmd, cmd)
    bad = attrs_in(I.a, O.a) + [(v, n) for v in ("time", "lat", "lon") for n in attrs_in(I.va[v], O.va[v])]
    ctx.check(not bad, "attributes:" + key, "attributes %s not kept; %s" % (bad, cmd), cmd)
    if ps:
        ctx.check(same(O.v["p"], np.array(ps, float)), "p:" + key, "pressure levels %s, requested %s; %s" % (O.v.get("p"), ps, cmd), cmd)
    if zs:
        ctx.check(same(O.v["z"], np.array([float("%g" % z) for z in zs])), "z:" + key, "height levels %s, requested %s; %s" % (O.v.get("z"), zs, cmd), cmd)
    lev, il, Zs = I.v["lev"], I.v["ilev"], I.v["Zs"]
    zn = Zs + lev[:, None, None] * (zt - Zs)
    zi = Zs + il[:, None, None] * (zt - Zs)
    n3 = min(3, len(lev))
    lag = np.array([np.prod([(0 - lev[j]) / (lev[i] - lev[j]) for j in range(n3) if j != i]) for i in range(n3)])
    exp = {}
    for w in want:
        v = I.v[w]
        onI = "ilev" in I.vd[w]
        sh = v.shape[:1] + v.shape[2:]
        if ps:
            a = (lev - il[:-1]) / np.diff(il)
            vn = v[:, :-1] * (1 - a)[None, :, None, None] + v[:, 1:] * a[None, :, None, None] if onI else v
            exp[w] = np.stack([np.stack([lin(I.v["P"][t], vn[t], float("%g" % p)) for p in ps]) for t in range(len(v))])
        if zs:
            exp[w + ("z" if ps else "")] = np.stack([np.stack([lin(zi if onI else zn, v[t], float("%g" % z)) for z in zs]) for t in range(len(v))])
        if surf:
            exp[w + "S"] = v[:, 0] if onI else (lag[None, :, None, None] * v[:, :n3]).sum(1)
        for nm in [w] * bool(ps) + [w + ("z" if ps else "")] * bool(zs) + [w + "S"] * surf:
            if nm in O.va:
                b = attrs_in(I.va[w], O.va[nm])
                ctx.check(not b, "vattributes:" + key, "attributes %s of %s not kept; %s" % (b, w, cmd), cmd)
    nt = len(I.v["time"])
    if phi and ps:
        exp["PHIZ"] = np.stack([np.stack([lin(I.v["P"][t], zn, float("%g" % p)) for p in ps]) for t in range(nt)])
    if phi and surf:
        exp["PHIZS"] = np.broadcast_to((lag[:, None, None] * zn[:n3]).sum(0), (nt,) + Zs.shape)
    if en:
        gam = float(I.a["Cp"]) / (float(I.a["Cp"]) - float(I.a["Rd"]))
        e = 0.5 * I.v["Rho"] * (I.v["U"] ** 2 + I.v["V"] ** 2 + I.v["W"] ** 2) + I.v["P"] / (gam - 1)
        A = float(I.a["earth_radius"]) ** 2 * np.pi / len(I.v["lat"]) * 2 * np.pi / len(I.v["lon"])
        exp["TE"] = (e * (np.cos(np.deg2rad(I.v["lat"]))[:, None] * (zt - Zs))[None, None]).sum((1, 2, 3)) * A / len(lev)
    fixed = {"time", "lat", "lon", "Zs"} | ({"p"} if ps else set()) | ({"z"} if zs else set())
    ctx.check(set(O.v) == fixed | set(exp), "variables:" + key, "variables %s, expected %s; %s" % (sorted(O.v), sorted(fixed | set(exp)), cmd), cmd)
    for n, e in exp.items():
        if n not in O.v:
            continue
        if not ctx.check(O.v[n].shape == e.shape, "shape:" + key, "%s has shape %s, expected %s; %s" % (n, O.v[n].shape, e.shape, cmd), cmd):
            continue
        err = np.abs(O.v[n] - e).max() / max(np.abs(e).max(), 1e-300)
        ctx.le(float(err), 1e-9, "difference of the extracted values", "values:%s:%s" % (key, "energy" if n == "TE" else "height" if n.startswith("PHIZ") else "variable"), "%s; %s" % (n, cmd), cmd)
        ctx.count("values_compared", e.size)


def refuse(ctx, exe, r, d, tool):
    """Files and requests with something essential missing must be reported, not crash and not give data."""
    src = d + "/in.nc"
    make(r, src, 0)
    I = netcdf_file(src, "r", mmap=False)
    what = r.choice(["att", "var", "file", "novar", "noin"])
    gone = r.choice(["Ztop", "Rd", "Cp", "P0", "earth_radius"] if tool == "exs" else ["Ztop"]) if what == "att" else r.choice(["time", "lat", "lon", "lev", "Zs", "Rho"] if tool == "exs" else ["time", "lat", "lon", "lev", "ilev", "Zs"])
    out = d + ("/a.b.c.d.e.f.nc" if tool == "cfc" else "/bad.nc")
    J = netcdf_file(out, "w")
    for n, s in I.dimensions.items():
        J.createDimension(n, s)
    for n, v in I.variables.items():
        if what == "var" and n == gone:
            continue
        w = J.createVariable(n, "d", v.dimensions)
        w[:] = v.data
    for n, a in I._attributes.items():
        if not (what == "att" and n == gone):
            setattr(J, n, a)
    J.close(); I.close()
    os.unlink(src)
    f = os.path.basename(out)
    if what == "file":
        os.unlink(out); gone = f
    cmdl = [exe] + ([] if what == "noin" else ["--in", f]) + ([] if what == "novar" else ["--var", "U,V"]) + (["--out", "o.nc", "--z", "1000"] if tool == "exs" else [])
    x = ctx.run(cmdl, timeout=60, cwd=d, env=ENV)
    key = "refuse:" + tool
    cmd = " ".join(x.cmd)
    if not clean(ctx, x, key):
        return
    ctx.case((tool, what, gone, r.random()), sample=dict(tool=tool, removed=gone if what in ("att", "var") else what))
    ctx.count("missing_requests", 1)
    rep = gone in x.out if what in ("att", "var", "file") else "No " in x.out
    ctx.check(rep, "report:" + key, "%s %s missing and not reported (%s); %s" % (what, gone, x.out[-120:], cmd), cmd)
    for o in glob.glob(d + "/*.nc"):
        if os.path.basename(o) != f:
            O = File(o)
            ctx.check(not ({"U", "V"} & set(n for n in O.v if O.v[n].size and np.any(np.abs(O.v[n]) < 9e36))), "wrongdata:" + key, "data written although %s is missing; %s" % (gone, cmd), cmd)


def run(ctx):
    ctx.rule = "one evaluation = one run of a tool with all the files it wrote compared"
    cfc, exs, outh = ctx.harness("cfc+src/base/", "asan"), ctx.harness("exs+src/base/", "asan"), ctx.harness("outh")
    r = ctx.rng
    import random
    N = 400 if ctx.thorough else 60

    def one(job):
        i, seed = job
        q = random.Random(seed)
        d = ctx.path("t%d" % i, "x")[:-2]
        src = d + "/in.nc"
        names = make(q, src, i)
        for tool, fn, exe in (("cfc", converter, cfc), ("exs", extract, exs)):
            os.makedirs(d + "/" + tool)
            fn(ctx, exe, q, d + "/" + tool, src, names, "random %d" % seed)
        for tool, exe in (("cfc", cfc), ("exs", exs)):
            os.makedirs(d + "/r" + tool)
            refuse(ctx, exe, q, d + "/r" + tool, tool)
        shutil.rmtree(d, ignore_errors=True)
    ctx.pmap(one, [(i, r.randrange(1 << 30)) for i in range(N)], 7)

    # files written by the model
    def model(job):
        i, seed = job
        q = random.Random(seed)
        k = conf.make(q, ["cs", "xy", "xz", "cs"][i % 4], steps=3, visc=False, explicit=False)
        k.update(outx=q.choice([6, 9]), outy=q.choice([4, 7]), perfile=-1, output=1, outdt=k["dt"])
        x = sim(ctx, outh, need="C27:model", **k)
        if x is None:
            return
        d = os.path.dirname(x.prefix)
        fs = sorted(glob.glob(d + "/out/*.nc"))
        if not ctx.check(len(fs) > 0, "model", "no output file; " + x.cmd(), x.cmd()):
            return
        I = File(fs[0])
        names = {n: {4: "i" if "ilev" in I.vd[n] else "n", 3: "2"}[len(I.vd[n])] for n in I.vd if len(I.vd[n]) >= 3}
        for tool, fn, exe in (("cfc", converter, cfc), ("exs", extract, exs)):
            os.makedirs(d + "/" + tool)
            fn(ctx, exe, q, d + "/" + tool, fs[0], names, "model output, " + k.get("grid", ""))
        drop(x)
    ctx.pmap(model, [(i, r.randrange(1 << 30)) for i in range(24 if ctx.thorough else 6)], 7)
