"""C05: tracers are carried with the air and stay non-negative.

Monitored after every step: tracers started as equal fields stay equal, a tracer of uniform mixing ratio keeps that
ratio to air density, and tracers are non-negative after any step whose last operation is the horizontal filter.
Single applications of the two filters on hostile data are checked element by element."""
TECHNIQUE = 'runtime monitoring: tracer consistency and non-negativity monitors over states recorded after every step, and an element-by-element monitor of single filter applications'
NOTE = 'Random configurations of both grids (topography, walls, diffusion, hyperviscosity, every scheme, several processes). Ratio bound 1e-10, equality of like tracers bitwise. Shallow water over topography with diffusion is left out of the ratio claim (there the surface height is diffused, not the depth).'
HARNESSES = [('sim', 'opt'), ('ops', 'opt')]
import numpy as np
from vp.sim import sim, drop
from vp import conf

TR = "r:1,u:0.7,r:1,b:2,u:0.7,b:2"
SAME = [(0, 2), (1, 4), (3, 5)]


def rho_of(G):
    x = G.all("node")
    return x[:, 4] if x.shape[1] > 3 else x[:, 2] - G.all("topo").reshape(len(x), -1)[:, :1]


def elements(G, order):
    """Per element blocks: area (E, n*n, k), tracers (E, c, n*n, k)."""
    ar, tr = G.panels("area"), G.panels("tracers")
    A, T = [], []
    n = order
    for p in sorted(ar):
        a, t = ar[p], tr[p]
        ea, eb = a.shape[0] // n, a.shape[1] // n
        A.append(a.reshape(ea, n, eb, n, -1).transpose(0, 2, 1, 3, 4).reshape(ea * eb, n * n, -1))
        T.append(t.reshape(ea, n, eb, n, t.shape[2], t.shape[3]).transpose(0, 2, 4, 1, 3, 5).reshape(ea * eb, t.shape[2], n * n, t.shape[3]))
    return np.concatenate(A), np.concatenate(T)


def columns(G):
    """Vertical columns: weights (P, 1, k), tracers (P, c, k)."""
    return G.all("area")[:, None], G.all("tracers")


def filter_check(ctx, what, key, cmd, w, before, after, axis):
    """w, before, after broadcastable; sums over axis are the limiter's domains."""
    sc = np.abs(before).max() or 1.0
    ctx.check(np.isfinite(after).all(), "finite:%s:%s" % (what, key), "%s: not finite; %s" % (what, cmd), cmd)
    ctx.check(after.min() >= 0, "negative:%s:%s" % (what, key), "%s leaves %.3g; %s" % (what, after.min(), cmd), cmd)
    m0, m1 = (w * before).sum(axis=axis), (w * after).sum(axis=axis)
    ms = (w * np.abs(before)).sum(axis=axis)
    neg = before.min(axis=axis) < 0
    pos = m0 > 1e-12 * ms
    if pos.any():
        # the scale is the mass of the domain before filtering, positive and negative parts both counted
        d = (np.abs(m1 - m0) / np.where(ms > 0, ms, 1))[pos].max()
        ctx.le(d, 1e-12, "filter mass", "mass:%s:%s" % (what, key), "%s changes the tracer mass of a domain of positive net mass; %s" % (what, cmd), cmd)
    keep = np.broadcast_to(np.expand_dims(~neg, axis), before.shape)
    d = np.abs(after - before)[keep].max() if keep.any() else 0.0
    ctx.le(d / sc, 1e-14, "filter untouched", "touched:%s:%s" % (what, key), "%s alters a domain without negative values; %s" % (what, cmd), cmd)
    none = m0 < -1e-12 * ms
    if none.any():
        nn = np.broadcast_to(np.expand_dims(none, axis), before.shape)
        ctx.check(np.abs(after[nn]).max() <= 1e-14 * sc, "netneg:%s:%s" % (what, key), "%s: %.3g left in a domain of negative net mass; %s" % (what, np.abs(after[nn]).max(), cmd), cmd)
    ctx.count("filter domains seen", int(neg.size))
    ctx.count("filter domains with negatives and positive mass", int((neg & pos).sum()))
    ctx.count("filter domains of negative mass", int(none.sum()))
    return int((neg & pos).sum())


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, step) or one filter application examined"
    exe, ops = ctx.harness("sim"), ctx.harness("ops")
    r = ctx.rng
    N = 240 if ctx.thorough else 40
    jobs = []
    for i in range(N):
        g = conf.KINDS[i % len(conf.KINDS)]
        steps = (30 if i % 4 == 0 else 10) if ctx.thorough else 5
        k = conf.make(r, g, tr=TR, steps=steps, topo=(i // 2) % 2, visc=[True, False, None][i % 3])
        if g != "cs_sw" and r.random() < 0.3:
            k["rayleigh"] = r.choice([1e-3, 1e-1])
        jobs.append((k, conf.nproc(r, k)))

    def one(job):
        k, np_ = job
        key = conf.label(k) + ("/mflev" if k.get("mflev") else "")
        sw = k.get("eq") == "sw"
        x = sim(ctx, exe, np_=np_, need="C05:" + key, what="stg", **k)
        if x is None:
            return
        cmd = x.cmd()
        # the filter ends the step when the last operation of the scheme is horizontal or the diffusion of the step is on
        filtered = not k.get("expvert") and k["scheme"] not in ("spex",)
        for s in range(x.steps + 1):
            G = x.grid(s)
            t, rho = G.all("tracers"), rho_of(G)
            for a, b in SAME:
                ctx.check(np.array_equal(t[:, a], t[:, b]), "same:" + key, "step %d: tracers %d and %d were the same field and differ by %.3g; %s" % (s, a, b, np.abs(t[:, a] - t[:, b]).max(), cmd), cmd)
            if not (sw and k.get("topo") and k.get("nu")):
                d = np.abs(t[:, 1] / rho / 0.7 - 1).max()
                if k.get("mflev") and d > 1e-10:
                    ctx.violation("ratio:" + key, "step %d: uniform mixing ratio off by %.3g; %s" % (s, d, cmd), cmd)
                elif not k.get("mflev"):
                    ctx.le(d, 1e-10, "ratio" + ("" if s else " at start"), "ratio:" + key, "step %d: mixing ratio of a uniform tracer; %s" % (s, cmd), cmd)
            if filtered:
                m = t.min()
                sc = np.abs(t).max()
                ctx.check(m >= (0 if t.size and sw else -1e-14 * sc) - 1e-14 * sc, "negative:step:" + key, "step %d: tracer %.3g below zero; %s" % (s, m, cmd), cmd)
                ctx.count("states checked for negatives")
            ctx.case((str(sorted(k.items())), np_, s), sample=dict(config=k, procs=np_, worst_ratio=float(np.abs(t[:, 1] / rho / 0.7 - 1).max()), min=float(t.min())) if s == x.steps else None)
        drop(x)

    ctx.pmap(one, jobs, workers=7)

    fj = []
    for i in range(60 if ctx.thorough else 14):
        g = ["cs", "xy", "cs_sw", "xz"][i % 4]
        k = conf.make(r, g, tr="r:1,b:2,b:1", steps=1, explicit=False, topo=i % 2, walls=False, visc=True)
        fj.append((k, r.randrange(1, 10 ** 6), conf.nproc(r, k), r.choice([0.03, 0.3, 1.0])))

    def filt(job):
        k, sd, np_, amp = job
        key = conf.label(k)
        sw = k.get("eq") == "sw"
        order = int(k["order"])
        # a zero step of the dynamics: only its filter acts. "rand" adds noise of the given size to every field.
        o = ["copy:0:1", "rand:1:%d:%g:add:1e-3" % (sd, amp), "dump:f:1:stg", "hexp:0:1:0", "dump:h:1:stg"]
        if not sw:
            o += ["copy:0:1", "rand:1:%d:%g:add:1e-3" % (sd, amp), "dump:g:1:stg", "vfilt:1", "dump:v:1:stg"]
        p = sim(ctx, ops, np_=np_, need="C05:filter:" + key, ops=";".join(o), **k)
        if p is None:
            return
        a, t0 = elements(p.grid("f"), order)
        _, t1 = elements(p.grid("h"), order)
        n = filter_check(ctx, "horizontal filter", key, p.cmd(), a[:, None], t0, t1, 2)
        if not sw:
            w, c0 = columns(p.grid("g"))
            _, c1 = columns(p.grid("v"))
            n += filter_check(ctx, "vertical filter", key, p.cmd(), w, c0, c1, 2)
        ctx.case(("filter", str(sorted(k.items())), sd, np_), nontrivial=n > 0)
        drop(p)

    ctx.pmap(filt, fj, workers=7)
    if not ctx.counters.get("filter domains with negatives and positive mass"):
        ctx.violation("filter:unseen", "no filter application met negative values in a domain of positive mass: the workload does not exercise the filter")
