"""C03: one value per physical point.

Monitors: (a) a recorder in the run dumps the state after initialisation and every step; all copies of each physical
point (found from geometry, independently of the model's connectivity) must agree in scalars and in the physical
velocity vector; (b) the averaging is driven directly on random, per-copy independent data: the result must be the mean
of the copies (so constants and continuous fields are unchanged and the weighted integral is kept), a second
application must change nothing, and continuous data must come back as they were."""
TECHNIQUE = 'runtime monitoring: per-point agreement of all copies after every step, and direct driving of the averaging on random data against its mean'
NOTE = 'Random configurations of both grids, several processes and patches. Small grids (ne 2-6). W at interfaces is compared to 1e-8 of its scale (the implicit solve amplifies rounding).'
HARNESSES = [('sim', 'opt'), ('ops', 'opt')]
import numpy as np
from vp.sim import sim, drop
from vp import geo, conf


def scale(n, v):
    return np.abs(v).max()


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, step) compared over all copies of all points, or one averaging of random data"
    exe, ops = ctx.harness("sim"), ctx.harness("ops")
    r = ctx.rng
    N = 160 if ctx.thorough else 16
    jobs = []
    for i in range(N):
        g = conf.KINDS[i % len(conf.KINDS)]
        k = conf.make(r, g, steps=(12 if ctx.thorough else 4))
        jobs.append((k, conf.nproc(r, k), r.randrange(1, 10 ** 6)))

    def one(job):
        k, np_, sd = job
        key = conf.label(k)
        pt = geo.Points(k)
        walls = pt.walls()
        x = sim(ctx, exe, np_=np_, need="C03:" + key, what="stg", **k)
        if x is not None:
            A = None
            for s in range(x.steps + 1):
                G = x.grid(s)
                F = geo.state_fields(pt, G)
                fin = all(np.isfinite(v).all() for v in F.values())
                ctx.check(fin, "finite:" + key, "step %d of %s" % (s, x.cmd()))
                if not fin:
                    break
                ctx.case((str(sorted(k.items())), np_, s), sample=dict(config=k, procs=np_, copies=int((pt.cnt > 1).sum())))
                for n, v in F.items():
                    ctx.count("copies_compared", int(v.size))
                    sc = scale(n, v)
                    if n == "w":
                        # natural scale of W: vertical displacement rate comparable with the wind over the depth
                        sc = max(sc, 10.0)
                    tol = 1e-8 if n == "w" else 1e-10
                    ctx.le(pt.spread(v).max() / max(sc, 1e-300), tol, "spread of " + ("q" if n[0] == "q" else n), "spread:%s:%s" % (n if n[0] != "q" else "q", key),
                           "step %d, %s: copies of a point differ; %s" % (s, n, x.cmd()), x.cmd())
                a = pt.spread(G.all("area"))
            if A is None:
                pass
            drop(x)
        # the averaging itself
        o = sim(ctx, ops, np_=np_, need="C03:ops:" + key, **dict(k, ops="dump:a:0;dss:S:0;dss:T:0;dump:a2:0;rand:0:%d:0.5:add:1e-3;dump:b:0:stg;dss:S:0;dss:T:0;dump:c:0;dss:S:0;dss:T:0;dump:d:0;vd:0;dump:e:0:a;dss:V:0;dss:D:0;dump:f:0:a" % sd))
        if o is None:
            return
        a, a2, b, c, d = [geo.state_fields(pt, o.grid(t)) for t in ("a", "a2", "b", "c", "d")]
        area = o.grid("b").all("area")
        ctx.le((pt.spread(area) / area.max()).max(), 1e-12, "area spread", "area:" + key, "copies of a point carry different weights")
        ctx.case((str(sorted(k.items())), np_, "dss", sd))
        for n in b:
            v, w, z = b[n], c[n], d[n]
            m = pt.mean(v)
            keep = np.ones(pt.n, bool)
            for msk, comp, kind in walls:
                if n in ("u", "w"):
                    keep &= ~msk
            sc = np.abs(v).max()
            ctx.count("values_averaged", int(v.size))
            nm = "q" if n[0] == "q" else n
            ctx.check(n == "w" and k.get("eq") == "sw" or pt.spread(v).max() > 1e-3 * sc, "probe:" + key, "random data were not discontinuous")
            ctx.le(np.abs(w - m)[keep].max() / sc, 1e-12, "averaging vs mean of copies", "mean:%s:%s" % (nm, key), "%s; %s" % (n, o.cmd()), o.cmd())
            ctx.le(np.abs(z - w).max() / sc, 1e-12, "second averaging", "idempotent:%s:%s" % (nm, key), "%s; %s" % (n, o.cmd()), o.cmd())
            ctx.le(np.abs(a2[n] - a[n])[keep].max() / max(np.abs(a[n]).max(), 1e-300), 1e-11, "continuous data", "continuous:%s:%s" % (nm, key), "%s; %s" % (n, o.cmd()), o.cmd())
            if v.ndim == 2 and v.shape[1] == area.shape[1]:
                i0, i1 = (area * v).sum(), (area * w).sum()
                ctx.le(abs(i1 - i0) / (area * np.abs(v)).sum(), 1e-13, "integral", "integral:%s:%s" % (nm, key), "%s: %.17g -> %.17g; %s" % (n, i0, i1, o.cmd()), o.cmd())
        for msk, comp, kind in walls:
            un = c["u"][msk][..., comp]
            ctx.le(np.abs(un).max() / np.abs(b["u"]).max(), 1e-12 if not k.get("topo") else 1.0, "wall velocity", "wall:" + key, "%s" % o.cmd())
        # vorticity and divergence averaging
        ge, gf = o.grid("e"), o.grid("f")
        for nme in ("vort", "div"):
            v, w = ge.all(nme), gf.all(nme)
            sc = np.abs(v).max()
            if sc > 0:
                ctx.le(np.abs(w - pt.mean(v)).max() / sc, 1e-11, nme + " averaging", "mean:%s:%s" % (nme, key), o.cmd(), o.cmd())
        drop(o)

    ctx.pmap(one, jobs, workers=7)
