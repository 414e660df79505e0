"""C04: conservation of air mass (fluid volume) and tracer mass.

A recorder in the run dumps the state after initialisation and after every step; the checker integrates density (or
fluid depth) and every tracer with exactly rounded sums and the model's volume weights, and follows the integral from
step to step. Single operations (one explicit horizontal / vertical step, one implicit solve, one application of
diffusion) are driven directly as well, so that an error cannot hide behind another one."""
TECHNIQUE = 'runtime monitoring: conservation monitor over recorded states after every step and after every single operation of the dynamics'
NOTE = 'Random configurations of both grids with topography, solid walls, diffusion, hyperviscosity, Rayleigh friction, every scheme, several processes. Bound 1e-13 of the integral of the absolute value. Small grids (ne 2-6), 6 to 40 steps.'
HARNESSES = [('sim', 'opt'), ('ops', 'opt')]
import math
import numpy as np
from vp.sim import sim, drop
from vp import geo, conf

TOL = 1e-13


def integrals(G, sw):
    """{name: (integral, integral of |.|)}"""
    area = G.all("area")
    x = G.all("node")
    out = {}
    if sw:
        z = G.all("topo")
        h = x[:, 2] - z.reshape(len(z), -1)[:, :1]
        out["depth"] = h
    else:
        out["rho"] = x[:, 4]
    if "tracers" in G.patches[0]:
        t = G.all("tracers")
        for c in range(t.shape[1]):
            out["q%d" % c] = t[:, c]
    r = {}
    for n, v in out.items():
        m = (area * v).ravel()
        r[n] = (math.fsum(m) if np.isfinite(m).all() else float("nan"), float(np.abs(m).sum()))
    return r


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, step or single operation) whose integrals were compared with the ones before"
    exe, ops = ctx.harness("sim"), ctx.harness("ops")
    r = ctx.rng
    N = 200 if ctx.thorough else 30
    jobs = []
    for i in range(N):
        g = conf.KINDS[i % len(conf.KINDS)]
        steps = (40 if i % 4 == 0 else 10) if ctx.thorough else 6
        # every combination of topography and diffusion appears for every kind
        # tracers whose element means stay positive: elsewhere the limiter has to add mass
        k = conf.make(r, g, tr="r:1,r:2,u:0.7", steps=steps, topo=(i // 2) % 2, visc=[True, False, None][i % 3])
        if g != "cs_sw" and r.random() < 0.3:
            k["rayleigh"] = r.choice([1e-3, 1e-1])
        if "nu" in k and r.random() < 0.3 and g != "cs_sw":
            k["inud"] = k["nud"] * 0.1
        jobs.append((k, conf.nproc(r, k), r.randrange(1, 10 ** 6)))

    def compare(key, a, b, what, cmd, name=""):
        for n in a:
            ctx.count("integrals", 1)
            sc = max(a[n][1], b[n][1]) or 1.0
            ctx.le(abs(b[n][0] - a[n][0]) / sc, TOL, name + (n if n[0] != "q" else "tracer"), "mass:%s:%s" % (n if n[0] != "q" else "q", key),
                   "%s: integral of %s %.17g -> %.17g; %s" % (what, n, a[n][0], b[n][0], cmd), cmd)

    def one(job):
        k, np_, sd = job
        key = conf.label(k)
        sw = k.get("eq") == "sw"
        x = sim(ctx, exe, np_=np_, need="C04:" + key, what="stg", **k)
        if x is not None:
            first = prev = None
            for s in range(x.steps + 1):
                I = integrals(x.grid(s), sw)
                if prev is not None:
                    compare(key, prev, I, "step %d" % s, x.cmd(), "one step ")
                    compare(key, first, I, "steps 0-%d" % s, x.cmd(), "from start ")
                else:
                    first = I
                prev = I
                ctx.case((str(sorted(k.items())), np_, s), sample=dict(config=k, procs=np_, masses={n: v[0] for n, v in I.items()}) if s == 1 else None)
            drop(x)
        # single operations on data with independent values everywhere (made continuous first, as the operations expect)
        if k["scheme"] == "spex":
            return
        dt = float(k["dt"][:-1])
        o = ["rand:0:%d:%s:add:1e-3" % (sd, 0.02), "dss:S:0", "dss:T:0", "dump:a:0:stg", "copy:0:1", "hexp:0:1:%g" % (0.2 * dt), "post:1", "dump:h:1:stg"]
        if not sw:
            o += ["copy:0:1", "vexp:0:1:%g" % (0.02 * dt), "dump:v:1:stg"]
            if not k.get("expvert"):
                o += ["copy:0:1", "vimp:1:1:%g" % (0.2 * dt), "dump:i:1:stg"]
        o += ["copy:0:1", "hafter:0:1:2:%g" % (0.2 * dt), "dump:d:1:stg"]
        p = sim(ctx, ops, np_=np_, need="C04:ops:" + key, ops=";".join(o), **dict(k, tr="r:1,u:0.7"))
        if p is not None:
            a = integrals(p.grid("a"), sw)
            for t in ("h", "v", "i", "d"):
                try:
                    G = p.grid(t)
                except FileNotFoundError:
                    continue
                compare("op-%s:%s" % (t, key), a, integrals(G, sw), "operation " + t, p.cmd(), "operation ")
                ctx.case((str(sorted(k.items())), np_, "op", t, sd))
            drop(p)

    ctx.pmap(one, jobs, workers=7)
