"""C06: known steady states and how fast the model departs from them.

The model is started from states whose evolution is known exactly, and a recorder compares every step with it:
(a) atmosphere at rest over level ground: stays horizontally uniform and without horizontal wind to rounding, and its
vertical adjustment shrinks with the order of the column; (b) the same over terrain: spurious wind shrinks with the grid;
(c) a lake at rest over topography: exact; (d) balanced zonal flow of the shallow-water equations about any axis: error
shrinks at the rate of the horizontal order; (e) uniform flow in a box without rotation (steady) and with constant
rotation (turns as an inertial circle), uniform to rounding."""
TECHNIQUE = 'runtime monitoring: the real model started from states with exactly known evolution, every step compared; observed convergence rates as the oracle for truncation errors'
NOTE = 'Random schemes, orders, columns, stretchings, constants, diffusion, walls, process counts; rates over 2-3 resolutions with margins of 0.5-1 order. Nonhydrostatic balance to rounding is claimed horizontally only: the vertical balance is discrete to truncation error.'
HARNESSES = [('sim', 'opt')]
import numpy as np
from vp import conf, cs, geo
from vp.sim import sim, drop

R, OM, G = 6.37122e6, 7.29212e-5, 9.80616
SCH = ["strang", "strang/rk3", "strang/ssprk53", "strang/kgu35", "ars222", "ars232", "ars343", "ars443", "ssp3_332", "gark2", "ark232"]


def run(ctx):
    ctx.rule = "one evaluation = one run whose every step was compared with the exact solution, or one rate observed over a sequence of grids"
    exe = ctx.harness("sim")
    r = ctx.rng
    T = ctx.thorough

    def steps(x):
        return range(1, x.steps + 1)

    def dev(k, np_=None, key="run"):
        """Worst departures over the run: (density, horizontal speed, spread of levels)."""
        x = sim(ctx, exe, np_=np_, need="C06:" + key, what="stg", **k)
        if x is None:
            return None
        pt = geo.Points(k)
        a = x.grid(0).all("node")
        d = u = s = 0.0
        for i in steps(x):
            g = x.grid(i)
            y = g.all("node")
            if not np.isfinite(y).all():
                ctx.violation("finite:" + key, x.cmd())
                return None
            d = max(d, np.abs(y[:, 4] / a[:, 4] - 1).max())
            V = pt.vector(y[:, 0], y[:, 1])
            u = max(u, np.abs(V).max() / (float(k.get("radius", R)) if pt.cs else 1))
            s = max(s, max(np.abs(y[:, c] - y[:1, c]).max() / np.abs(y[:1, c]).max() for c in (2, 4)))
            ctx.count("states compared")
        cmd = x.cmd()
        drop(x)
        ctx.case((str(sorted(k.items())), np_), sample=dict(config=k, departure=[float(d), float(u), float(s)]))
        return d, u, s, cmd

    # (a) and (b)
    def rest(job):
        kind, K, np_, p = job
        D = []
        key = "%s:%s" % (kind, conf.label(K[0]))
        for k in K:
            q = dev(k, np_, key)
            if q is None:
                return
            D.append(q)
        cmd = D[-1][3]
        if kind == "rest":
            for q in D:
                ctx.le(q[1], 2e-10, "horizontal wind of an atmosphere at rest (m/s)", "wind:" + key, q[3], q[3])
                ctx.le(q[2], 1e-11, "horizontal differences of an atmosphere at rest", "uniform:" + key, q[3], q[3])
            e = [q[0] for q in D]
            ctx.le(e[0], {1: 5e-4, 2: 4e-5, 3: 1e-7}[p if K[0].get("vdisc") != "FV" else 1], "vertical adjustment, coarse column", "adjust:" + key, "%s %s" % (e, cmd), cmd)
            want = {1: 2, 2: 3, 3: 4}[p] if K[0].get("vdisc") != "FV" else 2
            rate = np.log2(e[-2] / max(e[-1], 1e-14))
            ctx.count("rates observed")
            ctx.check(rate > want - 0.7 or e[-1] < 2e-10, "rate:" + key, "adjustment %s shrinks at rate %.2f, not %g: %s" % (e, rate, want, cmd), cmd)
        else:
            e = [q[1] for q in D]
            ctx.le(e[0], 8e-3 if K[0]["grid"] != "cs" else 5e-4, "spurious wind over terrain (m/s)", "terrain:" + key, "%s %s" % (e, cmd), cmd)
            ctx.count("rates observed")
            ctx.check(e[-1] < (0.5 if K[0]["grid"] == "cs" else 0.2) * e[0], "terrain-rate:" + key, "spurious wind %s does not shrink: %s" % (e, cmd), cmd)

    jobs = []
    for i in range(24 if T else 6):
        p, L, fv = [(1, (12, 24), 0), (2, (12, 24), 0), (1, (12, 24), 0), (2, (12, 24), 1), (3, (30, 60), 0), (2, (24, 48), 0)][i % 6]
        if p == 3 and not T and i:
            L = (30, 60)
        b = dict(u0=0, amp=0, vorder=p, scheme=r.choice(SCH), order=r.choice([3, 4, 4, 5]), seed=r.randrange(1, 10 ** 6))
        if fv:
            b["vdisc"] = "FV"
        if i % 2:
            b.update(grid="cs", ne=2, dt="60s", end="300s", omega=r.choice([OM, 1e-4, 0]))
        else:
            b.update(grid=r.choice(["xz", "xy"]), ne=3, Lx=3e5, dt="20s", end="100s", reflat=r.choice([0, 0.7]))
            b.update(ney=1 if b["grid"] == "xz" else 2, Ly=3e5 if b["grid"] == "xz" else 2e5)
            if r.random() < 0.4 and b["grid"] == "xy":
                b["noflux"] = 1
        if r.random() < 0.5:
            # reference-state-free diffusion leaves uniform levels alone
            nu = 1e15 if b["grid"] == "cs" else 1e5
            b.update(nu=nu, nud=nu, nuv=nu)
            if b["grid"] != "cs":
                b["hvorder"] = 2
        if r.random() < 0.4:
            b["gconst"] = r.choice([9.7, 9.9])
        jobs.append((rest, ("rest", [dict(b, levels=l) for l in L], conf.nproc(r, b) if b["grid"] == "cs" else None, p)))
    for i in range(6 if T else 2):
        if i % 2 == 0:
            b = dict(grid="cs", vorder=2, levels=12, dt="60s", end="300s")
            seq = [dict(ne=n) for n in ((2, 4, 8) if T else (2, 4))]
        else:
            b = dict(grid="xz", Lx=4e5, Ly=3e5, vorder=2, dt="10s", end="100s")
            seq = [dict(ne=n, levels=l) for n, l in ((8, 12), (8, 48))]
        b.update(u0=0, amp=0, topo=500 if b["grid"] == "cs" else 100, order=4, scheme=r.choice(SCH), seed=r.choice([1, 2, 3]))
        jobs.append((rest, ("terrain", [dict(b, **q) for q in seq], None, 2)))

    # (c)
    def lake(job):
        k, np_ = job
        key = "lake:" + conf.label(k)
        x = sim(ctx, exe, np_=np_, need="C06:" + key, what="stg", **k)
        if x is None:
            return
        pt = geo.Points(k)
        a = x.grid(0).all("node")
        rad = float(k.get("radius", R))
        for i in steps(x):
            y = x.grid(i).all("node")
            ctx.count("states compared")
            ctx.le(np.abs(y[:, 2] / a[:, 2] - 1).max(), 1e-12, "surface of a lake at rest", "surface:" + key, "step %d %s" % (i, x.cmd()), x.cmd())
            ctx.le(np.abs(pt.vector(y[:, 0], y[:, 1])).max() / rad, 1e-10, "current in a lake at rest (m/s)", "current:" + key, "step %d %s" % (i, x.cmd()), x.cmd())
        ctx.case((str(sorted(k.items())), np_), sample=dict(config=k))
        drop(x)
    for i in range(30 if T else 8):
        k = dict(grid="cs", eq="sw", tc="rest", H0=r.choice([1000, 5000]), topo=r.choice([200, 700]), ne=r.choice([2, 4]), order=r.choice([2, 3, 4, 5, 6]), dt="60s", end="300s",
                 scheme=r.choice(SCH + ["erk", "strang/rk4", "erk/kgu35"]), seed=r.randrange(1, 10 ** 6), alpha=r.choice([0, 0, 30, 90]), tr="r:1")
        if r.random() < 0.3:
            k["radius"] = 5e6
        jobs.append((lake, (k, conf.nproc(r, k))))

    # (d)
    def balanced(job):
        K, np_, want = job
        e, v = [], []
        key = "zonal:%d:%s" % (K[0]["order"], K[0]["scheme"])
        for k in K:
            x = sim(ctx, exe, np_=np_, need="C06:" + key, what="sg", every=10 ** 6, **k)
            if x is None:
                return
            al, u0, H0 = np.radians(float(k["alpha"])), float(k["u0"]), float(k["H0"])
            rad, om, gr = float(k.get("radius", R)), float(k.get("omega", OM)), float(k.get("gconst", G))
            pt = geo.Points(k)
            y = x.grid("final").all("node")
            lon, lat = np.arctan2(pt.r[:, 1], pt.r[:, 0]), np.arcsin(pt.r[:, 2])
            q = -np.cos(lon) * np.cos(lat) * np.sin(al) + np.sin(lat) * np.cos(al)
            h = H0 - (rad * om + 0.5 * u0) * u0 * q * q / gr
            E, N = cs.east_north(pt.r)
            W = (u0 * (np.cos(lat) * np.cos(al) + np.cos(lon) * np.sin(lat) * np.sin(al)))[:, None] * E - (u0 * np.sin(lon) * np.sin(al))[:, None] * N
            e.append(np.abs(y[:, 2, 0] - h).max() / H0)
            v.append(np.abs(pt.vector(y[:, 0], y[:, 1])[:, 0] / rad - W).max() / u0)
            cmd = x.cmd()
            ctx.count("states compared")
            ctx.case((str(sorted(k.items())), np_), sample=dict(config=k, height=float(e[-1]), wind=float(v[-1])))
            drop(x)
        for nm, z in (("height", e), ("wind", v)):
            rate = np.log2(z[-2] / max(z[-1], 1e-15)) / np.log2(K[-1]["ne"] / K[-2]["ne"])
            ctx.count("rates observed")
            ctx.check(rate > want[0] or z[-1] < 3e-7, "rate:%s:%s" % (nm, key), "error %s at rate %.2f < %g: %s" % (z, rate, want[0], cmd), cmd)
            ctx.le(z[-1], want[1] * (1 if nm == "height" else 20), "error of balanced zonal flow (%s, order %d)" % (nm, K[0]["order"]), "error:%s:%s" % (nm, key), "%s %s" % (z, cmd), cmd)
    Z = {3: ((4, 8), (0.9, 4e-3)), 4: ((3, 6), (2.0, 4e-4)), 5: ((2, 4), (2.8, 2e-4)), 6: ((2, 4), (3.3, 2e-5))}
    for i in range(24 if T else 8):
        o = [4, 5, 3, 6][i % 4]
        nes, want = Z[o]
        if T and i % 3 == 0 and o < 6:
            nes = tuple(2 * n for n in nes)
        b = dict(grid="cs", eq="sw", tc="sw2", u0=r.choice([20, 40, -15]), H0=3000, order=o, dt="60s" if max(nes) * o >= 24 else "100s", end="6000s", alpha=[0, 30, 45, 90, 137][(i // 2) % 5],
                 scheme=r.choice(SCH + ["erk", "strang/rk4"]))
        if r.random() < 0.3:
            b["omega"] = r.choice([0, 1e-4, -7e-5])
        if r.random() < 0.3:
            b["gconst"] = 9.7
        jobs.append((balanced, ([dict(b, ne=n) for n in nes], conf.nproc(r, dict(b, ne=nes[0])), want)))

    # (e)
    def uniform(job):
        k, np_ = job
        key = "uniform:" + conf.label(k)
        x = sim(ctx, exe, np_=np_, need="C06:" + key, what="stg", **k)
        if x is None:
            return
        f = 2 * float(k["omega"]) if k["grid"] == "xy" else 0.0
        dt = float(k["dt"][:-1])
        for i in steps(x):
            g = x.grid(i)
            y = g.all("node")
            t = i * dt
            ux, uy = k["u0"] * k["ux"], k["u0"] * k["uy"]
            c, s = np.cos(f * t), np.sin(f * t)
            W = np.array([ux * c + uy * s, uy * c - ux * s])
            ctx.count("states compared")
            # the vertical adjustment of the column carries no horizontal momentum where the wind is uniform with height
            ctx.le(max(np.abs(y[:, m] - W[m]).max() for m in (0, 1)), 1e-9 + (abs(f) * dt) ** 3 * 20 * i, "uniform wind (m/s)", "wind:" + key, "step %d %s" % (i, x.cmd()), x.cmd())
            ctx.le(max(np.abs(y[:, m] - y[:1, m]).max() / np.abs(y[:1, m]).max() for m in (2, 4)), 1e-11, "uniformity of levels", "levels:" + key, "step %d %s" % (i, x.cmd()), x.cmd())
        ctx.case((str(sorted(k.items())), np_), sample=dict(config=k))
        drop(x)
    for i in range(16 if T else 5):
        g = ["xy", "xy", "xz"][i % 3]
        k = dict(grid=g, tc="uniform", u0=20, ux=r.uniform(-1, 1), uy=0 if g == "xz" else r.uniform(-1, 1), ne=r.choice([3, 4]), ney=1 if g == "xz" else 2, Lx=3e5, Ly=2e5, order=r.choice([3, 4, 5]), amp=0,
                 levels=8, vorder=1, dt="10s", end="100s", scheme=r.choice(SCH), reflat=np.pi / 2 if i % 2 else 0.7, omega=OM if i % 2 else 0, tr="r:1")
        jobs.append((uniform, (k, None)))
    ctx.pmap(lambda j: j[0](j[1]), jobs, 8)
