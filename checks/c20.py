"""C20: the implicit vertical solve.

On states of the real model (smooth or noisy, over flat ground or terrain), with F read off the model's own explicit
evaluation of the implicit terms: d = x1 - x0 from StepImplicit must satisfy the linearised backward-Euler equations
d + dt J(x0) d = -dt F(x0), with J d taken as a central difference of F along d, for every column whose upwind direction
does not change in between; the residual of the true backward-Euler equation must shrink with the third power of dt; no
other column may be influenced; copies of shared columns must agree; and a fully explicit model must compute the sum of
the explicit part and the explicit evaluation of the implicit part."""
TECHNIQUE = 'runtime monitoring: the solver\'s answers checked against a directional difference quotient of the model\'s own residual function, perturbation of single columns, and comparison of explicit and implicit evaluation paths'
NOTE = 'Columns in which the sign of the vertical flow changes between the compared states are left out (upwinding is not differentiable there). With the mass flux on levels the model uses an approximate Jacobian; there only first-order agreement is required. F itself is checked against the continuous equations under C23.'
HARNESSES = [('ops', 'opt')]
import numpy as np
from vp.sim import sim, drop
from vp import geo, conf

EPS = 2e-5
START = "wfix:0;dss:S:0;dss:T:0"       # (a physical vertical velocity: the initial state holds it unconverted)
VAR = [("node", 2, "rhotheta"), ("redge", 3, "W"), ("node", 4, "rho")]


def config(r, big=False):
    g = r.choice(["cs", "cs", "xy", "xz"])
    k = dict(grid=g, order=r.choice([3, 4, 5]), scheme=r.choice(["strang", "ark232", "ars343"]), seed=r.randrange(1, 10 ** 6), tr="r:1,u:0.7",
             amp=r.choice([1e-3, 1e-2]), dt="60s", end="60s", w0=r.choice([0.1, 2, 10]))
    if g == "cs":
        k.update(ne=r.choice([2, 2, 4]), topo=r.choice([0, 800]))
        if r.random() < 0.3:
            k.update(ne=2, patches=24)
    else:
        k.update(ne=r.choice([2, 4]), ney=1 if g == "xz" else r.choice([2, 3]), Lx=4e5, Ly=3e5, topo=r.choice([0, 500]), reflat=r.choice([0, 0.7]))
        if r.random() < 0.4:
            k["patches"] = 2
    q = r.random()
    k.update(dict(levels=r.choice([6, 8, 10]), vorder=1) if q < 0.4 else dict(levels=r.choice([12, 16]), vorder=2) if q < 0.65 else
             dict(levels=r.choice([12, 14]), vorder=2, vdisc="FV") if q < 0.85 else dict(levels=30, vorder=3))
    if r.random() < 0.3:
        k["stretch"] = r.choice(["cubic", "pwlinear"])
    return k


def ratio(x, y):
    return float(np.max(np.abs(x)) / (np.max(np.abs(y)) or 1)) if x.size else 0.0


def xidot(G, w, m):
    return G[:, 0] * m[..., 0] + G[:, 1] * m[..., 1] + w * m[..., 2]


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, state, step size, operation) at which every column was examined"
    exe = ctx.harness("ops")
    r = ctx.rng
    N = 90 if ctx.thorough else 22
    jobs = []
    for i in range(N):
        k = config(r)
        if i % 7 == 6:
            k.update(mflev=1)
        noise = r.choice(["", "", "rand:0:%d:1e-4:add;dss:S:0;dss:T:0" % r.randrange(1000), "rand:0:%d:1e-3:add;dss:S:0;dss:T:0" % r.randrange(1000)])
        jobs.append((i, k, noise, [r.choice([1, 5, 20]), r.choice([40, 100, 200])], r.random(), r.random(), conf.nproc(r, k)))

    def lab(k, noise):
        return "/".join("%s" % v for v in [k["grid"], "o%d" % k["order"], "vo%d" % k["vorder"], k.get("vdisc", "FE"), "topo" if k["topo"] else "flat", k.get("stretch", "uni"),
                                           "mflev" if k.get("mflev") else "", "noisy" if noise else ""] if v)

    def solve(j):
        i, k, noise, dts, u1, u2, np_ = j
        L = lab(k, noise)
        o = [START] + ([noise] if noise else []) + ["n2r:0:0", "n2r:1:0", "dump:x0:0:stgG"]
        for a, dt in enumerate(dts):
            o += ["copy:0:1", "vimp:0:1:%g" % dt, "dump:x1_%d:1:st" % a, "copy:0:2", "vite:0:2:%g" % dt, "dump:f0_%d:2:st" % a]
            for s in (1, -1):
                o += ["copy:0:2", "lin:2:%.17g,%.17g,0:T" % (1 - s * EPS, s * EPS), "dump:z_%d_%d:2:st" % (a, s),
                      "copy:2:3", "vite:2:3:%g" % dt, "dump:fz_%d_%d:3:st" % (a, s)]
        p = sim(ctx, exe, np_=np_, need="C20:" + L, ops=";".join(o), **k)
        if not p:
            return
        X = p.grid("x0"); m = X.all("cmxE"); e = X.all("redge"); P = geo.Points(k)
        q0 = xidot(e, e[:, 3], m)
        for a, dt in enumerate(dts):
            x1, f0 = p.grid("x1_%d" % a), p.grid("f0_%d" % a)
            z = {s: p.grid("z_%d_%d" % (a, s)) for s in (1, -1)}; fz = {s: p.grid("fz_%d_%d" % (a, s)) for s in (1, -1)}
            sg = [np.sign(xidot(e, z[s].all("redge")[:, 3], m)) for s in (1, -1)]
            ok = ((sg[0] == np.sign(q0)) & (sg[1] == np.sign(q0)))[:, 1:-1].all(1)
            n = int(ok.sum())
            ctx.count("columns_solved", len(ok)); ctx.count("columns_with_fixed_upwinding", n)
            ctx.case("solve:%d:%d" % (i, a), sample={"config": L, "dt": dt, "columns": n} if i < 4 else None)
            for arr, c, nm in VAR + [("tracers", t, "tracer%d" % t) for t in range(2)]:
                g = lambda G: G.all(arr)[ok, c]
                x0 = g(X); d = g(x1) - x0
                F0 = x0 - g(f0)                                         # dt F(x0)
                Fz = {s: g(z[s]) - g(fz[s]) for s in (1, -1)}           # dt F(x0 +- eps d)
                J = (Fz[1] - Fz[-1]) / (2 * EPS)
                ctx.check(bool(np.isfinite(x1.all(arr)[:, c]).all()), "C20:finite:%s:%s" % (nm, L), "the implicit solve returns values that are not finite", p.cmd())
                if not n:
                    continue
                # rounding of F (the vertical force is a difference of large terms), amplified by 1/eps
                rnd = 1e-15 * (np.max(np.abs(x0)) if nm != "W" else 9.81 * dt * np.max(np.abs(X.all("dre")[..., 2])) + np.max(np.abs(x0))) / EPS
                if k.get("mflev"):
                    continue
                sc = np.max(np.abs(d) + np.abs(F0) + np.abs(J))
                slope = 0.0
                if nm == "W" and k["topo"]:     # the model leaves the tilt of the levels out of the derivative of the shear term
                    U, cA, cB = X.all("node")[ok], X.all("cmaE")[ok][..., 2], X.all("cmbE")[ok][..., 2]
                    dxi = np.diff(X.g["retalev"])
                    sh = [np.max(np.abs(np.diff(U[:, c2], axis=1) / dxi)) for c2 in (0, 1)]
                    slope = 3 * dt * (np.max(np.abs(cA)) * sh[0] + np.max(np.abs(cB)) * sh[1]) * np.max(np.abs(d))
                    ctx.count("slope_terms")
                if sc > 0:
                    ctx.le(np.max(np.abs(d + J + F0)) / sc, 2e-6 + (40 * rnd + slope) / sc, "the linearised backward-Euler equation for %s (relative residual)" % nm,
                           "C20:linear:%s:%s" % (nm, L), "dt=%g" % dt, p.cmd())
            # copies of shared columns
            for arr, c, nm in VAR + [("tracers", t, "tracer%d" % t) for t in range(2)]:
                v = x1.all(arr)[:, c]
                w = P.mean(v)
                ctx.le(np.max(np.abs(v - w)) / (np.max(np.abs(v)) or 1), 1e-9, "copies of shared columns, %s" % nm, "C20:copies:%s:%s" % (nm, L), "dt=%g" % dt, p.cmd())
            # what the solve must leave alone
            for arr, c, nm in [("node", 0, "U"), ("node", 1, "V")]:
                ctx.check(bool(np.array_equal(x1.all(arr)[:, c], X.all(arr)[:, c])), "C20:untouched:%s:%s" % (nm, L), "the implicit solve changed %s" % nm, p.cmd())
        drop(p)

    def order(j):
        """Backward-Euler residual against the step size; no change for vanishing steps."""
        i, k, noise, dts, u1, u2, np_ = j
        L = lab(k, "")
        S = [2, 1, 0.5, 0.25]
        S2 = [0.04, 0.02]
        o = [START, "n2r:0:0", "n2r:1:0", "dump:x0:0:stgG"]
        for a, dt in enumerate(S + S2 + [1e-6]):
            o += ["copy:0:1", "vimp:0:1:%g" % dt, "dump:x1_%d:1:st" % a, "copy:1:2", "vite:1:2:%g" % dt, "dump:x2_%d:2:st" % a, "copy:0:2", "vite:0:2:%g" % dt, "dump:f0_%d:2:st" % a]
        p = sim(ctx, exe, np_=np_, need="C20:" + L, ops=";".join(o), **k)
        if not p:
            return
        X = p.grid("x0"); m = X.all("cmxE"); e = X.all("redge")
        q0 = np.sign(xidot(e, e[:, 3], m))
        ok = np.ones(len(q0), bool)
        for a in range(len(S)):
            ok &= (np.sign(xidot(e, p.grid("x1_%d" % a).all("redge")[:, 3], m)) == q0)[:, 1:-1].all(1)
        ctx.case("order:%d" % i)
        for arr, c, nm in VAR + [("tracers", t, "tracer%d" % t) for t in range(2)]:
            x0 = X.all(arr)[:, c]
            R, D = [], []
            for a, dt in enumerate(S + S2):
                x1, x2, f0 = (p.grid("%s_%d" % (t, a)).all(arr)[:, c] for t in ("x1", "x2", "f0"))
                R.append(np.max(np.abs((2 * x1 - x2 - x0)[ok])) if ok.any() else 0)
                D.append((np.max(np.abs(x1 - x0)), np.max(np.abs(f0 - x0)), np.max(np.abs(x1 - f0))))
            t = p.grid("x1_%d" % len(S + S2)).all(arr)[:, c]
            f = np.max(np.abs(p.grid("f0_%d" % len(S + S2)).all(arr)[:, c] - x0))
            ctx.le(np.max(np.abs(t - x0)) / (2 * f + 1e-11 * np.max(np.abs(x0)) or 1), 1.0, "change over a vanishing step, %s" % nm, "C20:zero:%s:%s" % (nm, L), "", p.cmd())
            if ok.mean() > 0.02 and not k.get("mflev"):
                fl = 1e-13 * np.max(np.abs(x0)) + (1e-14 * 9.81 * np.max(np.abs(X.all("dre")[..., 2])) if nm == "W" else 0)
                ctx.le(R[3], 0.25 * R[1] + 20 * fl, "backward-Euler residual of %s at a quarter of the step against a quarter of it" % nm, "C20:order:%s:%s" % (nm, L), str(R), p.cmd())
            # first-order agreement with the explicit evaluation, everywhere (also without the exact Jacobian)
            # x1 - (x0 - dt F) = O(dt^2)
            if D[0][1] > 0:
                ctx.le(D[5][2], 0.35 * D[4][2] + 1e-11 * np.max(np.abs(x0)), "departure of %s from the explicit evaluation when the step is halved" % nm, "C20:first:%s:%s" % (nm, L), str([q[2] for q in D]), p.cmd())
        drop(p)

    def local(j):
        """Change one column; nothing else may notice."""
        i, k, noise, dts, u1, u2, np_ = j
        L = lab(k, noise)
        g = k["grid"]; o = k["order"]
        nA, nB = k["ne"] * o, (k["ne"] if g == "cs" else k["ney"]) * o
        pan = int(u1 * 6) if g == "cs" else 0
        A = int(u1 * 997) % k["ne"] * o + 1 + int(u2 * 31) % (o - 2)
        B = int(u2 * 991) % (nB // o) * o + 1 + int(u1 * 37) % (o - 2)
        lev = k["levels"]
        kk = int(u2 * 613) % (lev - 1) + 1
        what = [(0, 2, 1.0), (1, 3, 2e3), (0, 4, 1e-4), (2, 0, 1e-4), (0, 0, 3e-7 if g == "cs" else 1e-7), (0, 1, 1e-7)][int(u1 * 101) % 6]
        if what[0] == 0 and what[1] in (0, 1):
            what = (0, what[1], 5.0)
        dt = dts[0]
        ops = [START] + ([noise] if noise else []) + ["copy:0:2", "poke:2:%d:%d:%d:%d:%d:%d:%g:add" % (pan, A, B, what[0], what[1], kk, what[2])]
        names = ["vimp", "vite", "vexp"]
        ops += ["dump:base:0:st"]
        for nm in names:
            ops += ["copy:0:1", "copy:2:3", "%s:0:1:%g" % (nm, dt), "%s:2:3:%g" % (nm, dt), "dump:a_%s:1:st" % nm, "dump:b_%s:3:st" % nm]
        k2 = dict(k)
        if u2 < 0.3:
            k2["expvert"] = 1
        p = sim(ctx, exe, np_=np_, need="C20:" + L, ops=";".join(ops), **k2)
        if not p:
            return
        ctx.case("local:%d" % i)
        for nm in names:
            a, b = p.grid("a_" + nm), p.grid("b_" + nm)
            dif = 0
            for arr in ("node", "redge", "tracers"):
                cs = {"node": [0, 1, 2, 4], "redge": [3], "tracers": [0, 1]}[arr]
                dif = dif + (np.abs(a.all(arr)[:, cs] - b.all(arr)[:, cs]) > 0).reshape(a.all(arr).shape[0], -1).sum(1)
            n = int((dif > 0).sum())
            ctx.count("columns_watched", len(dif))
            ctx.check(n == 1, "C20:local:%s:%s" % (nm, L), "%s: changing one column at one level changed the results in %d columns" % (nm, n), p.cmd())
        drop(p)

    def explicit(j):
        """Fully explicit evaluation = explicit part + explicit evaluation of the implicit part."""
        i, k, noise, dts, u1, u2, np_ = j
        L = lab(k, noise)
        dt = 1.0
        o = [START] + ([noise] if noise else [])
        p = sim(ctx, exe, np_=np_, need="C20:" + L, ops=";".join(o + ["n2r:0:0", "n2r:1:0", "copy:0:1", "vexp:0:1:%g" % dt, "vite:0:1:%g" % dt, "dump:x0:0:stg", "dump:s:1:st",
                                                                     "copy:0:2", "vfexp:0:2:%g" % dt, "dump:f:2:st"]), **k)
        q = sim(ctx, exe, np_=np_, need="C20:" + L, ops=";".join(o + ["n2r:0:0", "n2r:1:0", "copy:0:1", "vexp:0:1:%g" % dt, "dump:x0:0:stg", "dump:s:1:st",
                                                                     "copy:0:2", "vimp:0:2:%g" % dt, "dump:n:2:st"]), **dict(k, expvert=1))
        if not p or not q:
            return
        ctx.case("explicit:%d" % i)
        for arr, c, nm in [("node", 0, "U"), ("node", 1, "V")] + VAR + [("tracers", t, "tracer%d" % t) for t in range(2)]:
            x = p.grid("x0").all(arr)[:, c]
            a, b, f = p.grid("s").all(arr)[:, c] - x, q.grid("s").all(arr)[:, c] - x, p.grid("f").all(arr)[:, c] - x
            s = np.max(np.abs(a)) or 1
            ctx.le(np.max(np.abs(a - b)), 1e-9 * s + 1e-13 * np.max(np.abs(x)), "explicit evaluation of %s: fully explicit against split" % nm, "C20:explicit:%s:%s" % (nm, L), "", p.cmd())
            if nm not in ("U", "V"):
                n = q.grid("n").all(arr)[:, c]
                ctx.check(bool(np.array_equal(n, x)), "C20:noop:%s:%s" % (nm, L), "the implicit solve changes %s in a fully explicit model" % nm, q.cmd())
        drop(p); drop(q)

    tasks = [(f, j) for j in jobs for f in (solve, order, local, explicit)]
    ctx.pmap(lambda t: t[0](t[1]), tasks, 8)
