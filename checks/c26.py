"""C26: diagnosed fields and thermodynamic conversions.

Thermodynamic functions are evaluated under constants set in arbitrary order and compared with their closed forms.
On running grids the model's pressure, temperature, surface pressure, vorticity and divergence are recorded next to the
state: thermodynamic fields are recomputed pointwise; vorticity and divergence are recomputed from the recorded wind with
an independent element derivative and metric, averaged over the copies of each point, and for smooth winds compared
with the analytic Laplacians of the stream function and velocity potential under refinement."""
TECHNIQUE = 'runtime monitoring: recorded diagnostics recomputed independently from the recorded state, and convergence to analytic curl and divergence under refinement'
NOTE = 'Smooth and random states on both grids, with topography, tracers, patch divisions and processes; staggering LOR. The Richardson number is not claimed.'
HARNESSES = [('ops', 'opt'), ('phys+src/base/', 'opt')]
import math
import numpy as np
from vp import cs, geo, conf
from vp.sim import sim, drop
from checks.c11 import axes, rel


def thermo(ctx, exe):
    r = ctx.rng
    lines, want = [], []
    names = ["R", "Cp", "P0", "G", "Omega", "Radius", "Alpha", "T0", "RhoWater", "Rvap", "Mvap", "Lvap"]
    base = dict(R=287.0, Cp=1004.5, P0=1e5, G=9.80616, Omega=7.29212e-5, Radius=6.37122e6, Alpha=0.0, T0=300.0, RhoWater=1000.0, Rvap=461.5, Mvap=0.608, Lvap=2.5e6)
    for i in range(2000 if ctx.thorough else 200):
        lines.append("new 0")
        c = dict(base)
        sets = [r.choice(names) for _ in range(r.randrange(0, 7))]
        for n in sets:
            f = r.choice([0.5, 0.8, 1.2, 2.0, r.uniform(0.6, 1.6)])
            c[n] = base[n] * f if n != "Alpha" else f
            if n == "R" and c["R"] > 0.9 * c["Cp"]:
                c[n] = base[n]
            if n == "Cp" and c["R"] > 0.9 * c["Cp"]:
                c[n] = 2 * base[n]
            lines.append("%s %r" % (n, c[n]))
        lines.append("get 0")
        want.append(("get", c, None, sets))
        for _ in range(3):
            x = math.exp(r.uniform(math.log(0.01), math.log(2000)))
            lines.append("f %r" % x)
            want.append(("f", c, x, sets))
    path = ctx.path("phys.txt")
    open(path, "w").write("\n".join(lines) + "\n")
    res = ctx.run([exe, path])
    if res.rc != 0:
        ctx.violation("phys:crash", "thermodynamic harness ended with %d" % res.rc)
        return
    out = [l.split() for l in res.out.splitlines() if l]
    ctx.check(len(out) == len(want), "phys:lines", "%d answers for %d questions" % (len(out), len(want)))
    for (kind, c, x, sets), o in zip(want, out):
        v = [float(q) for q in o[1:]]
        R, Cp, P0 = c["R"], c["Cp"], c["P0"]
        k = R / Cp
        ctx.case(("phys", str(sorted(c.items())), x), sample=dict(constants_set=sets, rhotheta=x))
        if kind == "get":
            w = [c[n] for n in names] + [Cp - R, k, Cp / (Cp - R), P0 * (R / P0) ** (Cp / (Cp - R))]
        else:
            p = P0 * (R * x / P0) ** (1 / (1 - k))
            ex = Cp * (p / P0) ** k
            w = [p, x, ex, x, ex, p]
        for j, (a, b) in enumerate(zip(v, w)):
            ctx.le(abs(a - b) / max(abs(b), 1e-30) if b else abs(a), 1e-12, "%s %d" % (kind, j), "phys:%s%d" % (kind, j), "constants %s set in order %s, rho*theta %s: got %r, expected %r" % (c, sets, x, a, b))


def curldiv(G, pt, R):
    """Vorticity and divergence of the recorded wind, before averaging. (n, k)"""
    k = pt.k
    al, wa, be, wb = axes(k)
    o = pt.order
    gx, _ = cs.gll(o)
    D = cs.dlagrange(gx, gx)
    da, db = (al[o - 1] - al[0]) / 2, (be[o - 1] - be[0]) / 2
    X = G.panels("node")
    vo, di = [], []
    for p in sorted(X):
        U = X[p][:, :, 0, :]; V = X[p][:, :, 1, :]
        nA, nB, nk = U.shape
        if pt.cs:
            a, b = np.meshgrid(al, be, indexing="ij")
            ta, tb = cs.tangents(p, a, b)
            ta, tb = R * ta, R * tb
            g11, g12, g22 = (ta * ta).sum(-1)[..., None], (ta * tb).sum(-1)[..., None], (tb * tb).sum(-1)[..., None]
        else:
            g11 = g22 = np.ones((nA, nB, 1)); g12 = 0 * g11
        det = g11 * g22 - g12 * g12
        J = np.sqrt(det)
        cu, cv = (g22 * U - g12 * V) / det, (g11 * V - g12 * U) / det

        def dA(f):
            e = f.reshape(nA // o, o, nB, nk)
            return np.einsum("ij,ajbk->aibk", D, e).reshape(nA, nB, nk) / da

        def dB(f):
            e = f.reshape(nA, nB // o, o, nk)
            return np.einsum("ij,abjk->abik", D, e).reshape(nA, nB, nk) / db
        vo.append(((dA(V) - dB(U)) / J).reshape(-1, nk))
        di.append(((dA(J * cu) + dB(J * cv)) / J).reshape(-1, nk))
    return np.concatenate(vo), np.concatenate(di)


def pointwise(ctx, k, x, tag="z"):
    key = conf.label(k).split("/")[0]
    cmd = x.cmd()
    G = x.grid(tag)
    pt = geo.Points(k)
    R = float(k.get("radius", 6.37122e6))
    sw = k.get("eq") == "sw"
    vo, di = curldiv(G, pt, R)
    sc = max(np.abs(vo).max(), np.abs(di).max(), 1e-12)
    for nm, w in (("vort", vo), ("div", di)):
        got = G.all(nm)
        ctx.count("values", got.size)
        ctx.le(np.abs(got - pt.mean(w)).max() / sc, 1e-9, "%s against the derivative of the recorded wind" % nm, "%s:%s" % (nm, key), cmd, cmd)
        ctx.le(float(pt.spread(got).max()) / sc, 1e-11, "%s single-valued" % nm, "single:%s:%s" % (nm, key), cmd, cmd)
    if sw:
        return
    g, Rd, cp, p0 = float(k.get("gconst", 9.80616)), float(k.get("Rd", 287.0)), float(k.get("cp", 1004.5)), float(k.get("p0", 1e5))
    s = G.all("node")
    p = p0 * (Rd * s[:, 2] / p0) ** (cp / (cp - Rd))
    ctx.le(rel(G.all("pressure") / p, np.ones_like(p)), 1e-12, "pressure", "pressure:" + key, cmd, cmd)
    T = p / (Rd * s[:, 4])
    ctx.le(rel(G.all("temperature") / T, np.ones_like(T)), 1e-12, "temperature", "temperature:" + key, cmd, cmd)
    z = G.all("zint")
    ps = (g * s[:, 4] * np.diff(z, axis=1)).sum(1)
    ctx.le(rel(G.all("ps"), ps), 1e-12, "surface pressure", "ps:" + key, cmd, cmd)


def run(ctx):
    ctx.rule = "one evaluation = one set of constants and argument, one recorded model state with all its diagnostics, or one refinement sequence"
    ops = ctx.harness("ops")
    thermo(ctx, ctx.harness("phys+src/base/"))
    r = ctx.rng
    jobs = []
    for i in range(200 if ctx.thorough else 32):
        g = conf.KINDS[i % len(conf.KINDS)]
        k = conf.make(r, g, steps=1, topo=(i // 8 + i) % 2, explicit=False, visc=False, walls=(i % 7 == 0))
        k.update(hmethod="V1", scheme="strang", vmethod="NONE" if g != "cs_sw" else "V1")
        if g.startswith("cs"):
            k["radius"] = r.choice([6.37122e6, 1e5])
        if g != "cs_sw":
            k.update(r.choice([{}, {}, dict(Rd=300.0), dict(cp=900.0), dict(p0=9e4, gconst=5.0)]))
        jobs.append((k, conf.nproc(r, k), r.randrange(1, 10 ** 6), r.choice([0, 1e-3, 0.05])))

    def one(job):
        k, np_, sd, amp = job
        o = []
        if amp:
            o += ["rand:0:%d:%g:add:1e-3" % (sd, amp), "post:S:0"]
        o += ["vd:0"] + ([] if k.get("eq") == "sw" else ["temp:0", "press:0", "ps:0"]) + ["dump:z:0:sag"]
        x = sim(ctx, ops, np_=np_, need="C26:" + conf.label(k), ops=";".join(o), prefix=None, **k)
        if x is None:
            return
        ctx.case((str(sorted(k.items())), np_, amp), sample=dict(config=k, procs=np_, noise=amp))
        pointwise(ctx, k, x)
        drop(x)
    ctx.pmap(one, jobs, 7)

    # convergence to the analytic curl and divergence
    def conv(job):
        g, order, divfrac, sd, topo = job
        errs = []
        for ne in {"xy": (6, 12), "xz": (8, 16)}.get(g, (4, 8)):
            k = dict(grid="cs" if g.startswith("cs") else g, ne=ne, order=order, seed=sd, tc="rand" if g == "cs_sw" else "hs", divfrac=divfrac, dt="1s", end="1s", topo=topo, vmethod="NONE")
            if g == "cs_sw":
                k["eq"] = "sw"; del k["vmethod"]
            elif g != "cs":
                k.update(ney=ne if g == "xy" else 1, Lx=6e5, Ly=6e5)
            k["levels"] = 5
            x = sim(ctx, ops, need="C26:conv:" + g, ops="vd:0;dump:z:0:sag;ana", **k)
            if x is None:
                return
            G, A = x.grid("z"), x.grid("ana")
            e = []
            sc = max(np.abs(A.all("vort")).max(), np.abs(A.all("div")).max())
            for nm in ("vort", "div"):
                e.append(float(np.abs(G.all(nm) - A.all(nm)[:, None]).max() / sc))
            errs.append(e)
            cmd = x.cmd()
            drop(x)
        ctx.case(("conv",) + job, sample=dict(grid=g, order=order, divfrac=divfrac, errors=errs))
        for q, nm in enumerate(("vort", "div")):
            e0, e1 = errs[0][q], errs[1][q]
            ctx.le(e1, CONV[order], "%s against the analytic %s on the finer grid" % (nm, "curl" if q == 0 else "divergence"), "conv:%s:%s" % (nm, g), "errors %s; %s" % (errs, cmd), cmd)
            if e0 > 1e-8:
                ctx.le(e1 / e0, max(0.3, 2.0 ** -(order - 2.5)), "%s error ratio under halving the elements" % nm, "rate:%s:%s" % (nm, g), "errors %s; %s" % (errs, cmd), cmd)
    CONV = {3: 0.2, 4: 0.05, 5: 0.01, 6: 2e-3}
    cj = []
    for g in ("cs_sw", "cs", "xy", "xz"):
        for order in (3, 4, 5, 6) if ctx.thorough else (4, 5):
            for d in (0.0, 0.5):
                for s in range(3 if ctx.thorough else 1):
                    cj.append((g, order, d, r.randrange(1, 10 ** 6), r.choice([0, 300]) if g != "cs_sw" else 0))
    ctx.pmap(conv, cj, 7)
