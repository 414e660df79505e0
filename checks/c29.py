"""C29: solid boundaries, ground and model top; periodic sides.

Monitors over the state recorded after initialisation and after every step: wall-normal velocity (both components on
no-slip walls), vertical velocity at the top and, over level ground, at the bottom. Over terrain the horizontal step,
which imposes the condition, is driven directly and the contravariant vertical velocity at the ground computed from
its result; after whole steps the remaining splitting difference is bounded. Periodic sides: the same flow in a box of
one period and in boxes of two or three periods (either direction) must agree point by point."""
TECHNIQUE = 'runtime monitoring: boundary velocities monitored after every step, and a differential run in a box of several periods'
NOTE = 'Random configurations. Ground condition over terrain is exact after each horizontal step; after a whole step it holds up to the splitting of the vertical advection and diffusion of wind, bounded at 1e-3 (none) of its terms when neither diffusion, friction nor walls act. At walls that terrain meets, the flow through the wall is zero after every averaging and bounded at 1e-3 of the wind after whole steps.'
HARNESSES = [('sim', 'opt'), ('ops', 'opt')]
import numpy as np
from vp.sim import sim, drop
from vp import geo, conf


WB = 1e-3      # after whole steps, up to splitting


def walls_zero(ctx, pt, F, key, what, cmd, G=None, X=None, bound=1e-12):
    """G, X: state (vertical velocity on levels at the walls) and metric, for walls that terrain meets."""
    for msk, comp, kind in pt.walls():
        u = F["u"][msk]
        sc = max(np.abs(F["u"]).max(), 1e-3)
        ctx.count("wall_points", int(msk.sum()))
        v = u[..., comp]
        if X is not None and kind == 1:
            n, g = G.all("node")[msk], X.all("cma" if comp == 0 else "cmb")[msk]
            v = g[..., 0] * n[:, 0] + g[..., 1] * n[:, 1] + g[..., 2] * n[:, 3]
        ctx.le(np.abs(v).max() / sc, bound if kind == 1 else 1e-12, "wall-normal velocity" + (" at terrain" if X is not None else ""), "normal:" + key, "%s, component %d; %s" % (what, comp, cmd), cmd)
        if kind == 2:
            ctx.le(np.abs(u[..., 1 - comp]).max() / sc, 1e-12, "no-slip tangential velocity", "noslip:" + key, "%s; %s" % (what, cmd), cmd)


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, step or operation) whose boundary values were examined, or one pair of boxes"
    exe, ops = ctx.harness("sim"), ctx.harness("ops")
    r = ctx.rng
    N = 150 if ctx.thorough else 24
    jobs = []
    for i in range(N):
        g = ["xy", "cs", "xy", "xz"][i % 4]
        k = conf.make(r, g, steps=(12 if ctx.thorough else 4), walls=(g != "cs" and i % 8 != 4), topo=(i // 4) % 2, visc=[None, False][(i // 3) % 2], tr="r:1,u:0.7")
        if g != "cs" and r.random() < 0.4 and k.get("bc"):
            k["rayleigh"] = 1e-2
        jobs.append((k, conf.nproc(r, k), r.randrange(1, 10 ** 6)))

    def one(job):
        k, np_, sd = job
        key = conf.label(k)
        pt = geo.Points(k)
        x = sim(ctx, exe, np_=np_, need="C29:" + key, what="stgG", **k)
        if x is not None:
            for s in range(x.steps + 1):
                G = x.grid(s)
                F = geo.state_fields(pt, G, tracers=False)
                ctx.case((str(sorted(k.items())), np_, s), sample=dict(config=k, procs=np_))
                if s:       # (the test case's own wind need not meet the walls)
                    walls_zero(ctx, pt, F, key, "step %d" % s, x.cmd(), G, x.grid(0) if k.get("topo") else None, WB if k.get("topo") else 1e-12)
                w = F["w"]
                # covariant W = w dz/dxi: velocity scale of the wind times the depth of the model
                sc = max(np.abs(F["u"]).max() * (1 if not pt.cs else 1 / 6.37122e6) * 1e4, 1.0)
                ctx.le(np.abs(w[:, -1]).max() / sc, 1e-12, "vertical velocity at the top", "top:" + key, "step %d; %s" % (s, x.cmd()), x.cmd())
                if not k.get("topo"):
                    ctx.le(np.abs(w[:, 0]).max() / sc, 1e-12, "vertical velocity at level ground", "ground:" + key, "step %d; %s" % (s, x.cmd()), x.cmd())
            drop(x)
        if not k.get("topo") or k["scheme"] == "spex":
            return
        dt = float(k["dt"][:-1])
        if k.get("bc"):
            o = ["dump:g:0:G", "rand:0:%d:0.02:add:1e-3" % sd, "dss:S:0", "r2n:3:0", "dump:a:0:s", "copy:0:1", "hexp:0:1:%g" % (0.2 * dt), "dss:S:1", "r2n:3:1", "dump:b:1:s"]
            p = sim(ctx, ops, np_=np_, need="C29:ops:" + key, ops=";".join(o), **k)
            if p is not None:
                for t in "ab":
                    ctx.case((str(sorted(k.items())), np_, "wall", t, sd))
                    walls_zero(ctx, pt, geo.state_fields(pt, p.grid(t), tracers=False), key, "averaged state " + t, p.cmd(), p.grid(t), p.grid("g"))
                drop(p)
        k2 = dict(k, bc=None)
        pt2 = geo.Points({q: v for q, v in k2.items() if v is not None})
        o = ["dump:g:0:G", "rand:0:%d:0.02:add:1e-3" % sd, "dss:S:0", "copy:0:1", "hexp:0:1:%g" % (0.2 * dt), "n2r:0:1", "n2r:1:1", "dump:h:1:s",
             "eval:0:", "post:0", "step:3:%g" % dt, "dump:f:0:s", "n2r:0:0", "n2r:1:0", "dump:s:0:s"]
        p = sim(ctx, ops, np_=np_, need="C29:ops:" + key, ops=";".join(o), **k2)
        if p is None:
            return
        X = p.grid("g").all("cmxE")[:, 0]
        for t in ("h", "s"):
            E = p.grid(t).all("redge")[:, :, 0]
            a, b, c = X[:, 0] * E[:, 0], X[:, 1] * E[:, 1], X[:, 2] * E[:, 3]
            sc = np.abs(a).max() + np.abs(b).max()
            ctx.case((str(sorted(k.items())), np_, "op", t, sd))
            rel = np.abs(a + b + c).max() / sc
            if t == "h":
                ctx.le(rel, 1e-11, "flow through terrain after a horizontal step", "slope:" + key, p.cmd(), p.cmd())
            elif not k.get("nu") and not k.get("rayleigh"):
                ctx.le(rel, 1e-2, "flow through terrain after steps", "slope-steps:" + key, p.cmd(), p.cmd())
            if t == "h":
                continue
            E = p.grid(t).all("redge")[:, 3, -1]
            ctx.check(np.abs(E).max() == 0 or np.abs(E).max() <= 1e-12 * np.abs(p.grid(t).all("redge")[:, 3]).max(), "top-op:" + key, p.cmd())
        drop(p)

    def period(job):
        k, np_, m, n = job
        key = "period:" + conf.label(k)
        pc = k.pop("patches", None)
        a = sim(ctx, exe, need="C29:" + key, what="stG", **k)
        if a is not None and 0 < np.abs(a.grid(0).all("topod")).max() < 1e-10:
            # level raised ground: vertical motion is rounding noise at the start and the upwinding follows its sign
            ctx.count("level_raised_ground_skipped")
            return drop(a)
        k2 = dict(k, gLx=k["Lx"] * m, gLy=k["Ly"] * n, ne=k["ne"] * m, ney=k["ney"] * n)
        if pc:
            k2["patches"] = pc * m if pc * m <= 12 else m
        b = sim(ctx, exe, np_=np_ if k2.get("patches", 1) >= np_ else 1, need="C29:" + key, what="st", **k2)
        if a is None or b is None:
            return
        for s in range(a.steps + 1):
            A, B = a.grid(s), b.grid(s)
            ctx.case((str(sorted(k2.items())), np_, s))
            for name, comps in (("node", (0, 1, 2, 4)), ("redge", (3,)), ("tracers", None)):
                u, v = A.panels(name)[0], B.panels(name)[0]
                v = v.reshape(m, u.shape[0], n, u.shape[1], *u.shape[2:])
                for c in (comps or range(u.shape[2])):
                    uc, vc = u[:, :, c], v[:, :, :, :, c]
                    sc = np.abs(u[:, :, :2]).max() if name == "node" and c < 2 else max(np.abs(uc).max(), 10.0 if name == "redge" else 1e-12)
                    ctx.count("values_compared", int(vc.size))
                    # rounding differs (positions up to n periods away), the implicit solve amplifies it
                    ctx.le(np.abs(vc - uc[None, :, None]).max() / sc, 1e-8 if name == "redge" else 1e-9, "one period vs several", "%s:%s%d" % (key, name, c), "step %d; %s" % (s, b.cmd()), b.cmd())
        drop(a); drop(b)

    pj = []
    for i in range(24 if ctx.thorough else 6):
        k = conf.make(r, ["xy", "xz", "xy"][i % 3], walls=False, steps=4, visc=False, tr="r:1,u:0.7")
        if r.random() < 0.4:
            n = 0.02 if k["order"] < 5 else 0.004
            k.update(r.choice([dict(nu=1e5, nud=1e5, nuv=5e4, hvorder=2), dict(nu=n, nud=n, nuv=n)]))
        k.update(ne=4, reflat=1.5707963267948966)      # no beta term: it is not periodic
        k["Lx"] = 4e5
        m, n = r.choice([(2, 1), (1, 2), (2, 2), (3, 1)]) if k["grid"] == "xy" else r.choice([(2, 1), (3, 1)])
        if "patches" in k:
            k["patches"] = 2
        pj.append((k, r.choice([1, 2]), m, n))
    ctx.pmap(one, jobs, workers=7)
    ctx.pmap(period, pj, workers=7)
