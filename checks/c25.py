"""C25: the Held-Suarez forcing.

The state is recorded immediately before and after applications of the real forcing, both single applications to
varied states (poles to equator, warm and cold, noisy, over terrain, with tracers, changed constants, short and long
intervals, both staggerings) and those the model makes during runs at various intervals. The oracle is an independent
statement of the published forcing: equilibrium temperature, relaxation and friction rates as functions of latitude and
pressure. Friction must be the backward Euler factor; the temperature change at constant density must agree with the
published rate up to second order in rate times interval; density, vertical velocity, tracers and winds above the
boundary layer must not change, temperature must move towards equilibrium and not past it. During runs the intervals
forced must add up to the time elapsed."""
TECHNIQUE = 'runtime monitoring: state recorded before and after every application of the forcing, compared with an independent statement of the published forcing'
NOTE = 'The temperature step is linearly implicit, so agreement with the published rate is to second order in rate times interval. Surface pressure (in runs) is bracketed by the usual extrapolations from the lowest levels. Overshoot judged for intervals up to four days.'
HARNESSES = [('ops', 'opt'), ('sim', 'opt')]
import re
import numpy as np
from vp.sim import sim, drop
from vp import conf

DAY = 86400.0
SECS = {"200s": 200., "1800s": 1800., "6h": 21600., "1d": DAY, "3d": 3 * DAY}


def judge(ctx, key, B, A, I, k, dt, cmd):
    """B, A: state before and after; I: state with every variable at both locations (None: bracket the surface)"""
    cph = k.get("stagger") == "CPH"
    Rd, cp, p0 = float(k.get("Rd", 287.0)), float(k.get("cp", 1004.5)), float(k.get("p0", 1e5))
    gam, kap = cp / (cp - Rd), Rd / cp
    pf = lambda rt: p0 * (rt * Rd / p0) ** gam
    lat = B.all("lat").reshape(-1, 1)
    nb, eb, na, ea = B.all("node"), B.all("redge"), A.all("node"), A.all("redge")
    fin = np.isfinite(na).all() and np.isfinite(ea).all()
    ctx.check(bool(fin), "finite:" + key, "forcing gives a state that is not finite; " + cmd, cmd)
    if not fin:
        return
    zl = B.g["retalev"]
    if I is not None:
        ni, ei = I.all("node"), I.all("redge")
        ps = pf(ei[:, 2, :1])
        lo, hi = ps * (1 - 1e-9), ps * (1 + 1e-9)
        pn = pf(ni[:, 2])
    else:
        rt = nb[:, 2]; pn = pf(rt)
        f = zl[0] / (zl[1] - zl[0])
        c = np.concatenate([pf(rt[:, :1] + f * (rt[:, :1] - rt[:, 1:2])), pn[:, :1] + f * (pn[:, :1] - pn[:, 1:2]),
                            pn[:, :1] * (pn[:, :1] / pn[:, 1:2]) ** f], 1)
        lo, hi = c.min(1, keepdims=True), c.max(1, keepdims=True)
        w = 0.25 * (hi - lo) + 1e-4 * hi
        lo, hi = lo - w, hi + w
    scale = lambda p, q: np.maximum(0.0, (p / q - 0.7) / 0.3)

    # wind
    b0, b1 = scale(pn, hi), scale(pn, lo)
    f0, f1 = 1 / (1 + b0 * dt / DAY), 1 / (1 + b1 * dt / DAY)     # f0 >= f1
    sc = np.abs(nb[:, :2]).max()
    top = b1 == 0
    for c in (0, 1):
        u, v = nb[:, c], na[:, c]
        over = np.maximum(np.abs(v) - np.abs(u) * f0, np.abs(u) * f1 - np.abs(v)).max()
        ctx.le(over / sc if sc else over, 1e-12, "friction outside the published rate", "friction:" + key, "component %d; %s" % (c, cmd), cmd)
        ctx.check(bool((u * v >= 0).all()), "sign:" + key, "friction reverses the wind; " + cmd, cmd)
        ctx.check(bool((u[top] == v[top]).all()), "top:" + key, "wind above the boundary layer changed; " + cmd, cmd)
    ctx.count("upper_level_points", int(top.sum()))
    ctx.count("boundary_layer_points", int((b0 > 0).sum()))

    # unchanged parts
    ctx.check(bool((nb[:, 4] == na[:, 4]).all()), "density:" + key, "density changed by the forcing; " + cmd, cmd)
    ctx.check(bool((eb[:, 3] == ea[:, 3]).all()), "w:" + key, "vertical velocity changed by the forcing; " + cmd, cmd)
    if "tracers" in B.patches[0]:
        ctx.check(bool((B.all("tracers") == A.all("tracers")).all()), "tracers:" + key, "tracers changed by the forcing; " + cmd, cmd)

    # temperature
    if cph:
        rt, rt1, rho = eb[:, 2], ea[:, 2], ei[:, 4]
    else:
        rt, rt1, rho = nb[:, 2], na[:, 2], nb[:, 4]
    p = pf(rt)
    T = p / (rho * Rd)
    Te = np.maximum(200.0, (315.0 - 60.0 * np.sin(lat) ** 2 - 10.0 * np.log(p / p0) * np.cos(lat) ** 2) * (p / p0) ** kap)
    x = Te / T
    inc = rt1 / rt - 1
    e = []
    for q in (hi, lo):
        kT = (1 / 40.0 + (1 / 4.0 - 1 / 40.0) * scale(p, q) * np.cos(lat) ** 4) / DAY
        H = -kT / gam * (1 - x)                          # d ln(rho theta)/dt; T goes as its gamma-th power
        D = kT / gam * (1 + (gam - 1) * x)
        e.append(dt * H)
        e.append(dt * H / (1 + dt * D) ** 2)              # an exact or any implicit treatment lies between
    l, h = np.minimum.reduce(e), np.maximum.reduce(e)
    # inside a small interval the band is narrow: its width is of second order
    ctx.le(np.maximum(inc - h, l - inc).max() / np.abs(e[0]).max(), 1e-9, "temperature relaxation outside the published rate", "relax:" + key, cmd, cmd)
    far = np.abs(x - 1) > 1e-9
    ctx.check(bool((inc[far] * (x[far] - 1) > 0).all()), "direction:" + key, "temperature moved away from equilibrium; " + cmd, cmd)
    T1 = T * (rt1 / rt) ** gam
    ctx.check(bool((((T1 - Te) * (T - Te))[far] > 0).all()), "overshoot:" + key, "temperature relaxed past the equilibrium; " + cmd, cmd)
    ctx.count("temperature_points", int(far.sum()))
    ctx.count("points_at_the_200K_floor", int((Te == 200.0).sum()))
    ctx.count("warming_points", int((x > 1).sum()))
    ctx.count("cooling_points", int((x < 1).sum()))


def run(ctx):
    ctx.rule = "one evaluation = one recorded application of the forcing (all columns and levels), or one run whose intervals were added up"
    ops, exe = ctx.harness("ops"), ctx.harness("sim")
    r = ctx.rng

    def config(i, steps):
        k = conf.make(r, "cs", steps=steps, topo=i % 2, explicit=False, visc=None if steps > 1 else False, walls=False, tr=r.choice(["r:1,u:0.7", None]))
        k.update(r.choice([{}, {}, {}, dict(Rd=300.0), dict(cp=950.0), dict(p0=9e4)]))
        if k["tr"] is None:
            del k["tr"]
        return k
    jobs = []
    for i in range(160 if ctx.thorough else 28):
        k = config(i, 1)
        k.update(hmethod="V1", scheme="strang", vmethod="NONE", tc="hs", amp=r.choice([0.02, 0.15]), ztop=r.choice([1e4, 2e4, 3e4]))
        if i % 4 == 3:
            k.update(stagger="CPH", vorder=1)
            k["ztop"] = min(k["ztop"], 1e4)      # (the model extrapolates the density to the top; in deep thick layers it comes out negative)
            k.pop("vdisc", None)
        jobs.append((k, conf.nproc(r, k), r.randrange(1, 10 ** 6), r.choice([0, 3e-4, 2e-3]), r.choice(sorted(SECS))))

    def one(job):
        k, np_, sd, amp, dt = job
        key = "%s/v%d" % (k.get("stagger", "LOR"), k["vorder"])
        o = []
        if amp:
            o += ["rand:0:%d:%g:add:1e-3" % (sd, amp), "post:S:0"]
        o += ["copy:0:1", "dump:b:0:stg"]
        o += ["r2n:2:1", "n2r:4:1"] if k.get("stagger") == "CPH" else ["n2r:2:1", "n2r:4:1"]
        o += ["dump:i:1:s", "hs:" + dt, "dump:a:0:st"]
        x = sim(ctx, ops, np_=np_, need="C25:" + key, ops=";".join(o), **k)
        if x is None:
            return
        ctx.case((str(sorted(k.items())), np_, amp, dt), sample=dict(config=k, procs=np_, noise=amp, interval=dt))
        judge(ctx, key, x.grid("b"), x.grid("a"), x.grid("i"), k, SECS[dt], x.cmd())
        drop(x)
    ctx.pmap(one, jobs, 7)

    jobs = []
    for i in range(24 if ctx.thorough else 6):
        N = 12 if ctx.thorough else 6
        k = config(i, N)
        k.pop("vdisc", None)      # (second-order FV takes the lowest level's value at the ground)
        jobs.append((k, conf.nproc(r, k), r.choice([1, 1, 2, 2.5, 3]), N))

    def runs(job):
        k, np_, m, N = job
        dt = float(k["dt"][:-1])
        f = m * dt
        x = sim(ctx, exe, np_=np_, need="C25:run", what="s", every=N, hsf="%gs" % f, **k)
        if x is None:
            return
        at = [float(q) for q in re.findall(r"@HS \d+ (\S+)", x.res.out)]
        ctx.case((str(sorted(k.items())), np_, m), sample=dict(config=k, procs=np_, interval=f, applied_at=at))
        # the interval forced so far never differs from the time elapsed by a whole interval
        ok = all(abs((n + 1) * f - t) < max(f, dt) - 1e-6 for n, t in enumerate(at)) and len(at) == int((N * dt + 1e-6) // f)
        ctx.check(ok, "cadence", "forcing of interval %g applied at times %s of a run of %g s; %s" % (f, at, N * dt, x.cmd()), x.cmd())
        for n in range(len(at)):
            judge(ctx, "run", x.grid("hb%d" % n), x.grid("ha%d" % n), None, k, f, x.cmd())
        drop(x)
    ctx.pmap(runs, jobs, 7)

