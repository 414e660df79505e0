"""C07: order of accuracy of every time scheme, observed with dynamics whose tendencies are known (harness/ode.cpp)."""
TECHNIQUE = 'runtime monitoring: real time schemes driven with instrumented dynamics; convergence-order oracle against an exact solution'
NOTE = 'Every selectable scheme, in eight modes with random smooth systems; observed order at every node, stale-data poisoning of work instances, zero-tendency and post-step monitors.'
HARNESSES = [('ode', 'opt'), ('sim', 'opt')]
import math
import numpy as np
from vp.sim import sim, drop

# scheme: (order explicit horizontal, order explicit vertical, order implicit, order explicit h+v, order h+implicit, order all)
ORD = {
    "strang": (3, 3, 2, 3, 2, 2), "strang/fe": (1, 1, 2, 1, 1, 1), "strang/rk4": (4, 4, 2, 4, 2, 2),
    "strang/rk3": (3, 3, 2, 3, 2, 2), "strang/kgu35": (3, 3, 2, 3, 2, 2), "strang/ssprk53": (3, 3, 2, 3, 2, 2),
    "erk": (3, None, None, None, None, None), "erk/fe": (1, None, None, None, None, None), "erk/rk4": (4, None, None, None, None, None),
    "erk/rk3": (3, None, None, None, None, None), "erk/kgu35": (3, None, None, None, None, None), "erk/ssprk53": (3, None, None, None, None, None),
    "ars222": (2, 2, 2, 2, 2, 2), "ars232": (2, 2, 2, 2, 2, 2), "ark232": (2, 2, 2, 2, 2, 2), "gark2": (2, 2, 2, 2, 2, 2),
    "ars343": (3, 3, 3, 3, 3, 3), "ars343b": (3, 3, 3, 3, 3, 3), "ars443": (3, 3, 3, 3, 3, 3), "ssp3_332": (2, 2, 2, 2, 2, 2),
    "spex": (3, 3, None, 1, None, None),
}
MODES = ("expl", "expv", "impl", "ev", "hi", "full")


def run(ctx):
    ctx.rule = "one evaluation = one scheme integrated in one mode (parts switched on) with one number of steps; errors against a fine reference solution at every node"
    exe = ctx.harness("ode")
    nseeds = 10 if ctx.thorough else 2
    jobs = [(s, ctx.rng.randrange(1, 10 ** 6), N) for s in ORD for N in (["16,32,64,128"] if not ctx.thorough else ["8,16,32,64,128,256"]) for _ in range(nseeds)]

    def one(j):
        s, seed, N = j
        r = ctx.run([exe, "scheme=" + s, "seed=%d" % seed, "N=" + N, "ztop=700" if s == "spex" else "ztop=1"], timeout=200)
        if not ctx.need(r, s, "scheme " + s):
            return
        J = r.json_lines()
        for mi, m in enumerate(MODES):
            L = [x for x in J if x["mode"] == m]
            if not ctx.check(len(L) == len(N.split(",")), "missing:%s:%s" % (s, m), "%d results" % len(L), r.cmd):
                continue
            exp = ORD[s][mi]
            for x in L:
                ctx.case((s, m, x["N"], seed), sample=dict(scheme=s, mode=m, N=x["N"], error=max(x["err"])) if x["N"] == 128 and m == "full" else None)
                ctx.count("nodes", x["nodes"])
                ctx.count("explicit_evaluations", x["expl"])
                ctx.count("implicit_solves", x["impl"])
            if exp is None:
                if s.startswith("erk") and m in ("expv", "ev", "hi", "full"):
                    # the vertical terms ought to be integrated too
                    ctx.check(max(L[-1]["err"]) < 0.05, "order:%s:%s" % (s, m), "error %g at %d steps" % (max(L[-1]["err"]), L[-1]["N"]))
                continue
            tot = []
            for x in L:
                e = max(x["err"])
                tot.append(float("inf") if not all(v == v for v in x["err"]) else e)
                ctx.le(x["same"], 1e-12, "tracer equal to density", "tracer:%s:%s" % (s, m), "a tracer with the density's own equation departs from the density", r.cmd)
            # slope between the first and the last step count that is above rounding
            hi = len(tot) - 1
            while hi > 1 and tot[hi] < 1e-12:
                hi -= 1
            p = math.log(tot[hi - 2] / tot[hi]) / math.log(L[hi]["N"] / L[hi - 2]["N"]) if tot[hi] > 0 and tot[hi - 2] < float("inf") else 0.0
            ctx.margin("order deficit", exp - p, 0.35)
            ctx.check(p > exp - 0.35, "order:%s:%s" % (s, m), "observed order %.3f, expected %d; errors %s for N %s" % (p, exp, tot, N), r.cmd)
            # each component must converge as well (sign changes of its error make single slopes unreliable)
            for c in range(7):
                e0, e1 = L[0]["err"][c], L[-1]["err"][c]
                if e1 > 1e-11:
                    bound = 6.0 * tot[0] * (L[0]["N"] / L[-1]["N"]) ** (exp - 0.35)
                    ctx.le(e1, bound, "component error", "order:%s:%s" % (s, m), "component %d: errors %s" % (c, [x["err"][c] for x in L]), r.cmd)
        for x in J:
            if x["mode"] == "zero":
                ctx.case((s, "zero", x["N"], seed))
                # rounding of the stage combinations (whose coefficients add up to one)
                ctx.le(max(x["chg"]) if all(v == v for v in x["chg"]) else float("nan"), 2e-12, "change with zero tendencies", "zero:" + s, "N=%d" % x["N"], r.cmd)
            if x["mode"] == "after":
                ctx.case((s, "after", x["N"], seed))
                e = max(x["err"]) if all(v == v for v in x["err"]) else float("nan")
                ctx.le(e, 1e-11, "post-step process", "after:" + s, "a process applied after the step has the wrong extent (N=%d, %d calls)" % (x["N"], x["after"]), r.cmd)
                ctx.check(x["alias"] == 0, "alias:" + s, "work space overlaps the data")
        ctx.count("schemes_run", 1)
    ctx.pmap(one, jobs)
    agree(ctx)
    ctx.check(ctx.counters.get("explicit_evaluations", 0) > 10000, "nothing-observed", "no tendencies were requested")


def agree(ctx):
    """Runs of the real model: every scheme tends to the same solution as the step shrinks, with the vertical implicit or explicit."""
    exe = ctx.harness("sim")
    r = ctx.rng
    fam = []
    for i in range(12 if ctx.thorough else 4):
        kind = ["xz", "xy", "sw", "xy"][i % 4]
        if kind == "sw":
            fam.append(("sw", dict(grid="cs", eq="sw", ne=4, order=r.choice([3, 4]), topo=500, seed=r.randrange(1, 10 ** 6), end="3600s"), ["450s", "112500000u"], "56250000u"))
            continue
        k = dict(grid=kind, ne=r.choice([4, 6]), levels=8, Lx=6e5, Ly=3e5, topo=300, seed=r.randrange(1, 10 ** 6), w0=1, amp=1e-2, end="3s",
                 order=r.choice([3, 4]), hmethod="V1")
        if kind == "xy":
            k.update(ney=3, reflat=0.7)
        fam.append(("impl", k, ["250000u", "62500u"], "31250u"))
        fam.append(("expl", dict(k, expvert=1), ["250000u", "62500u"], "31250u"))
    jobs = []
    for f in fam:
        for s in ORD:
            # (forward Euler amplifies sound waves)
            if s == "ars343b" or s == "strang/fe" and f[0] == "expl" or f[0] != "sw" and s.startswith("erk") or f[0] != "expl" and s == "spex":
                continue
            jobs.append((f, s))

    def state(p, n):
        g = p.grid(n)
        a = [g.all("node")[:, c] for c in ((0, 1, 2) if p.sw else (0, 1, 2, 4))]
        return np.stack(a), (None if p.sw else g.all("redge")[:, 3]), g.all("tracers")

    def go(k, s, dt, scale=False):
        p = sim(ctx, exe, need="C07:model:" + s, what="st", scheme=s, tr="r:1", **dict(k, dt=dt))
        if not p:
            return None
        p.sw = k.get("eq") == "sw"
        a, b = state(p, 0), state(p, p.steps)
        sc = 0.0
        for n in (range(1, p.steps + 1, 3) if scale else ()):      # largest changes on the way
            q = state(p, n)
            sc = np.maximum(sc, [np.abs(x - y).max() for x, y in zip(q[0], a[0])]
                            + [0 if a[1] is None else np.abs(q[1] - a[1]).max(), np.abs(q[2] - a[2]).max()])
        drop(p)
        return a, b, sc

    refs = {}
    for f, ref in zip(fam, ctx.pmap(lambda f: go(f[1], "strang/rk4", f[3], True), fam)):
        refs[id(f)] = ref

    def one(job):
        f, s = job
        ref = refs[id(f)]
        if ref is None:
            return
        e = []
        for dt in f[2]:
            q = go(f[1], s, dt)
            if q is None:
                return
            v = []
            # the two wind components share a scale, and so do theta and density when nearly constant
            for c in range(len(ref[0][0])):
                sc = max(ref[2][j] for j in ((0, 1) if c < 2 else (c,)))
                v.append(np.abs(q[1][0][c] - ref[1][0][c]).max() / sc)
            if ref[0][1] is not None:
                v.append(np.abs(q[1][1] - ref[1][1]).max() / ref[2][-2])
            v.append(np.abs(q[1][2] - ref[1][2]).max() / ref[2][-1])
            e.append(v)
            ctx.case("model:%s:%s:%s:%d" % (f[0], s, dt, f[1]["seed"]))
        ctx.count("model_runs_compared", 2)
        low = s in ("spex", "strang/fe", "erk/fe")
        for i, (x, y) in enumerate(zip(*e)):
            what = "field %d: departures %s from the fine reference, relative to its change" % (i, [float(v[i]) for v in e])
            ctx.le(y, 0.12 if low else 5e-3, "departure from the reference solution" + (" (first-order)" if low else ""), "model:%s:%s" % (f[0], s), what, str(f[1]))
            if y > 1e-3:
                ctx.le(2.0 * y / x, 1.0, "decrease of the departure with a quarter of the step", "model:%s:%s" % (f[0], s), what, str(f[1]))
    ctx.pmap(one, jobs)
