"""C23: the tendencies converge to the governing equations.

The state of a smooth random flow is put on the grid, the horizontal and vertical dynamics are asked for one forward
step of one second, and the difference is compared at every point with the right-hand side of the equations of motion
evaluated independently (sixth-order differences of the analytic state in longitude, latitude and height). Done on two
grids of the same configuration: the error must be small on the finer one and must fall at the expected rate."""
TECHNIQUE = 'runtime monitoring: differential oracle (analytic tendency of a smooth state) on the real dynamics at two resolutions; convergence-rate monitor'
NOTE = 'Lorenz staggering (the only one the time stepping supports). With a vertical flow through the levels the upwinding makes the error first-order in the level spacing; horizontally the rate is that of the polynomial order. Lateral walls excluded (the smooth states do not satisfy them).'
HARNESSES = [('ops', 'opt'), ('sim', 'opt')]
import numpy as np
from vp.sim import sim, drop
from vp import geo, conf

G = 9.80616
# largest rms error on the finer grid, relative to the largest tendency (W: to gravity)
SPHERE, BOX, RATE = {}, {}, {}
for _o, _uv, _t, _t5 in ((3, 5e-4, 3e-2, 3e-2), (4, 4e-5, 2.5e-3, 2.5e-3), (5, 4e-6, 2.5e-4, 5e-4)):
    SPHERE.update({("sw", "UV", _o): _uv, ("sw", "T", _o): _t, ("still", "UV", _o): _uv, ("still", "T", _o): _t5, ("vert", "UV", _o): 0.03, ("vert", "T", _o): 0.03,
                   ("still", "W", _o): 1.2e-3, ("vert", "W", _o): 1.2e-3})
for _o, _uv, _t in ((3, 0.05, 0.12), (4, 0.06, 0.03), (5, 0.01, 3e-3)):
    BOX.update({("still", "UV", _o): _uv, ("still", "T", _o): _t, ("vert", "UV", _o): 0.1, ("vert", "T", _o): 0.06, ("still", "W", _o): 1.2e-3, ("vert", "W", _o): 1.2e-3})
# the part of the tendency that is due to the wind (tendency of the flow minus that of the same air at rest)
for _t in (SPHERE, BOX):
    for _o, _uv, _s in ((3, 0.025, 0.05), (4, 0.005, 0.01), (5, 0.005, 0.01)):
        _t.update({("advflow", "UV", _o): 0.06, ("advflow", "T", _o): 0.02, ("advflow", "W", _o): 0.08, ("advstill", "UV", _o): _uv, ("advstill", "T", _o): _s, ("advstill", "W", _o): _s})
# least decrease of the rms and the largest error from one grid to the next of half the spacing
for _o, _s, _m in ((3, 3.0, 2.0), (4, 6.0, 3.5), (5, 9.0, 5.0)):
    RATE.update({("sw", _o): (_s, _m), ("still", _o): (2.2, 1.6), ("vert", _o): (1.6, 1.2), ("W", _o): (3.2, 2.4), ("advflow", _o): (1.75, 1.35), ("advstill", _o): (2.0, 1.3)})


def measure(ctx, exe, k, key, np_, adv=False):
    sw, ex = k.get("eq") == "sw", k.get("expvert")
    o = "eval:0:wterr=1;wfix:0;" if not sw else "eval:0;"
    o += "post:S:0;post:T:0;dump:x:0:stgG;copy:0:1;hexp:0:1:1"
    o += "" if sw else ";vexp:0:1:1" + ("" if ex else ";vite:0:1:1")
    o += ";dss:S:1;dss:T:1;dump:y:1:st;eval:2:tend=1&wterr=1;" + ("" if sw else "wfix:2;") + "dump:z:2:st"
    p = sim(ctx, exe, np_=np_, need=key, ops=o, dt="60s", end="60s", **k)
    q = sim(ctx, exe, np_=np_, need=key, ops=o, dt="60s", end="60s", **dict(k, u0=0, w0=0)) if adv else None
    if not p or adv and not q:
        return None
    X, Y, Z = [p.grid(t) for t in "xyz"]
    if adv:
        X0, Y0, Z0 = [q.grid(t) for t in "xyz"]
    P = geo.Points(k)
    m = np.ones(P.n, bool)
    if P.cs:        # the differences in longitude lose accuracy near the poles
        m = np.abs(np.cos(X.all("lat").ravel())) > 0.05
    elif k["grid"] == "xy":      # the Coriolis parameter jumps across the seam of a periodic beta plane
        m = (P.y > 1e-6) & (P.y < float(k["Ly"]) * (1 - 1e-9))
    out = {}
    T = [("node", 0, "U"), ("node", 1, "V"), ("node", 2, "H" if sw else "RhoTheta")] + ([] if sw else [("redge", 3, "W"), ("node", 4, "Rho")])
    T += [("tracers", c, "tracer%d" % c) for c in range(2)]
    vec = max(np.abs(Z.all("node")[m][:, :2] - (Z0.all("node")[m][:, :2] if adv else 0)).max(), 1e-30)
    for a, c, n in T:
        f = Y.all(a)[m, c] - X.all(a)[m, c]
        g = Z.all(a)[m, c]
        if adv:     # what is due to the wind alone: pressure and gravity cancel
            f = f - (Y0.all(a)[m, c] - X0.all(a)[m, c])
            g = g - Z0.all(a)[m, c]
        if a == "redge" and adv:
            f, g = f[:, 1:-1], g[:, 1:-1]
            sc = np.full(f.shape, np.abs(g).max())
        elif a == "redge":        # relative to gravity, in covariant units: most of the tendency is the imbalance of two large terms
            f, g = f[:, 1:-1], g[:, 1:-1]
            sc = np.full(f.shape, G) * np.abs(X.all("dre")[m][:, 1:-1, 2])
        else:
            sc = np.full(f.shape, vec if n in "UV" else np.abs(g).max())
        e = np.abs(f - g) / sc
        rms = np.sqrt((e ** 2).mean())
        out[n] = (e.max(), rms)
        ctx.count("points_compared", e.size)
    drop(p)
    if adv:
        drop(q)
    return out


def run(ctx):
    ctx.rule = "one evaluation = one configuration at one resolution: every component compared with the analytic tendency at every point"
    exe = ctx.harness("ops")
    r = ctx.rng
    jobs = []

    def add(kind, hi, lo, n=1, **kw):
        for _ in range(n):
            k = dict(seed=r.randrange(1, 10 ** 6), tr="r:1,r:2")
            k.update(kw)
            jobs.append((kind, dict(k, **lo), dict(k, **hi)))

    T = 4 if ctx.thorough else 1
    for o, a, b in ((3, 6, 12), (4, 4, 8), (5, 4, 8)):
        for pt in (6, 24)[:1 if not ctx.thorough else 2]:
            add("sw", dict(ne=b), dict(ne=a), n=T, grid="cs", eq="sw", order=o, topo=r.choice([0, 500]), patches=pt, alpha=r.choice([0, 45]), omega=r.choice([7.292e-5, 3e-4]))
    H = dict(levels=16, ne=8)
    L = dict(levels=8, ne=4)
    # three-dimensional, on the sphere
    cs = [("still", dict(order=4)), ("still", dict(order=4, hmethod="V2")), ("vert", dict(order=4, w0=1)), ("vert", dict(order=4, w0=1, hmethod="V2")), ("still", dict(order=5))]
    extra = [dict(vdisc="FV", vorder=2, order=4), dict(order=4, vorder=2), dict(order=4, stretch="cubic"), dict(order=4, expvert=1), dict(order=3)]
    cs += [("still", e) for e in (extra if ctx.thorough else r.sample(extra, 1))]
    cs += [("vert", dict(e, w0=1)) for e in (extra if ctx.thorough else r.sample(extra[:4], 1))]
    for kind, e in cs:
        v2 = e.get("vorder") == 2
        add(kind, dict(ne=8, levels=24 if v2 else 16), dict(ne=4, levels=12 if v2 else 8), grid="cs", topo=500, amp=r.choice([1e-3, 1e-2]), alpha=r.choice([0, 45]), omega=r.choice([7.292e-5, 3e-4]), **e)
    # slices and boxes
    for i in range(24 if ctx.thorough else 8):
        g = "xz" if i % 2 else "xy"
        e = [dict(), dict(vorder=2), dict(vdisc="FV", vorder=2), dict(stretch="cubic"), dict(expvert=1), dict(mflev=1)][(i // 2 + (r.randrange(6) if not ctx.thorough else 0)) % 6]
        kind = "vert" if r.random() < 0.5 or "mflev" in e else "still"
        w = dict(w0=1) if kind == "vert" else {}
        k = dict(grid=g, deg=1, Lx=6e5, topo=300, amp=r.choice([1e-3, 1e-2]), order=r.choice([3, 4, 5]), hmethod=r.choice(["V1", "V2"]), **e, **w)
        if k["hmethod"] == "V2":
            k["order"] = 4
        if g == "xy":
            k.update(Ly=6e5, reflat=r.choice([0, 0.7]), omega=r.choice([7.292e-5, 1e-3]))
            lo, hi = dict(ne=8, ney=8, levels=12), dict(ne=16, ney=16, levels=24)
        else:
            lo, hi = dict(ne=16, levels=12), dict(ne=32, levels=24)
        add(kind, hi, lo, **k)

    # the part due to the wind, on a planet (box) small enough for the vertical flow to be as important as the horizontal
    adv = [dict(), dict(hmethod="V2"), dict(order=3), dict(order=5), dict(vorder=2), dict(vdisc="FV", vorder=2), dict(stretch="cubic"), dict(expvert=1)]
    for kind in ("advflow", "advstill"):
        w = dict(u0=r.choice([20, -20]), w0=20 if kind == "advflow" else 0)
        for g in ("cs", "xz", "xy"):
            for e in adv if ctx.thorough else [adv[0], adv[1] if kind == "advstill" or g == "cs" else r.choice(adv[1:])]:
                k = dict(dict(grid=g, amp=1e-3, order=4, topo=3000 if g == "cs" else 1500, omega=1e-3), **w)
                k.update(e)
                if g == "cs":
                    k.update(radius=r.choice([1e5, 3e5]), alpha=r.choice([0, 45]))
                    lo, hi = dict(ne=4, levels=12), dict(ne=8, levels=24)
                elif g == "xz":
                    k.update(Lx=1e5, deg=1)
                    lo, hi = dict(ne=12, levels=12), dict(ne=24, levels=24)
                else:
                    k.update(Lx=1e5, Ly=1e5, deg=1, reflat=r.choice([0, 0.7]))
                    lo, hi = dict(ne=8, ney=8, levels=12), dict(ne=16, ney=16, levels=24)
                add(kind, hi, lo, **k)

    meas = ctx.pmap(lambda q: measure(ctx, exe, q[1], "C23:" + q[0] + ":" + conf.label(q[1]), q[2], q[0].startswith("adv")),
                    [(j[0], k, conf.nproc(r, k)) for j in jobs for k in (j[2], j[1])])
    for i, (kind, k0, k1) in enumerate(jobs):
        b, a = meas[2 * i], meas[2 * i + 1]
        if a is None or b is None:
            continue
        o = k0["order"]
        lb = "%s%s:o%d%s" % (k0["grid"], ":" + kind, o, "".join(":" + str(k0[q]) for q in ("hmethod", "vdisc", "vorder", "stretch", "mflev", "expvert") if q in k0))
        for k in (k0, k1):
            ctx.case("%s:%s:%d" % (lb, k["ne"], k["seed"]), sample=dict(config=lb, ne=k["ne"], levels=k.get("levels", 1), error={n: float("%.3g" % v[1]) for n, v in (a if k is k0 else b).items()}))
        for n in a:
            if n == "V" and k0["grid"] == "xz":
                ctx.le(b[n][0], 1e-9, "wind across a slice", "tendency:%s:V" % lb, "nothing accelerates the wind across the slice")
                continue
            what = "%s: rms error %.3g -> %.3g, largest %.3g -> %.3g as the grid is refined" % (n, a[n][1], b[n][1], a[n][0], b[n][0])
            g = "W" if n == "W" else "UV" if n in "UV" else "T"
            box = k0["grid"] != "cs"
            bound = (BOX if box else SPHERE)[kind, g, o]
            if not (kind == "advstill" and n == "W" and "stretch" in k0):     # (a small difference of large terms where the levels are stretched: the rate decides)
              ctx.le(b[n][1], bound, "rms error, %s %s %s" % ("box" if box else "sphere", kind, g), "tendency:%s:%s" % (lb, n), what, str(k0))
            ratio, mr = RATE["W" if n == "W" and kind[:3] != "adv" else kind, o]
            if kind == "advstill" and b[n][1] < 1e-3:
                continue            # (dominated by rounding and by the differences that make the analytic tendency)
            if box and kind[:3] != "adv":
                ratio, mr = min(ratio, 1.6 if n != "W" else 3.0), min(mr, 1.05)
            if b[n][1] < 5e-5 and n != "W" and box:
                continue            # (other errors, such as those of the spacing of the levels, of the same size)
            ctx.le(ratio * b[n][1] / a[n][1], 1.0, "decrease of the rms error", "rate:%s:%s" % (lb, n), what, str(k0))
            ctx.le(mr * b[n][0] / a[n][0], 1.0, "decrease of the largest error", "rate:%s:%s" % (lb, n), what, str(k0))
    ctx.check(ctx.counters.get("points_compared", 0) > 100000, "nothing-observed", "no tendencies compared")

    # the alternative vertical methods compute the same tendency
    sm = ctx.harness("sim")
    for grid in ("cs", "xy"):
        base = dict(grid=grid, ne=3, order=4, levels=8, vorder=1, hmethod="V1", scheme="strang", dt="1s", end="1s", amp=0.01, seed=r.randrange(1, 10 ** 6), tc="hs", u0=20)
        if grid == "xy":
            base.update(ney=3, Lx=4e5, Ly=4e5)
        t = {}
        for v in ("V1", "V2"):
            x = sim(ctx, sm, need="vmethod:%s:run:%s" % (v, grid), vmethod=v, **base)
            if x is None:
                break
            a, b = x.grid(0), x.grid(1)
            t[v] = [(b.all("redge" if c == 3 else "node") - a.all("redge" if c == 3 else "node"))[:, c] for c in range(5)]
            cmd = x.cmd()
            drop(x)
        if len(t) < 2:
            continue
        ctx.case("vmethod:%s" % grid, sample=dict(config="vmethod V1 and V2", grid=grid))
        for n, p, q in zip(("U", "V", "P", "W", "Rho"), t["V1"], t["V2"]):
            ctx.check(np.abs(q - p).max() <= 0.3 * np.abs(p).max(), "vmethod:V2:%s:%s" % (grid, n), "tendency of %s: %.3g with vmethod V1, differs by %.3g with V2; %s" % (n, np.abs(p).max(), np.abs(q - p).max(), cmd), cmd)
