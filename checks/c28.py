"""C28: the initial state is the analytic initial condition.

The harness evaluates the test case itself at the longitude, latitude and height of every node and interface of every
patch (those arrays are C11's business) at the start time; the state, reference state, tracers, topography and Rayleigh
strength the model holds before its first step are compared with these values after an independent conversion to the
prognostic variables (wind to covariant components through 3-vectors, density-weighted potential temperature)."""
TECHNIQUE = 'runtime monitoring: state before the first step compared at every point with the test case evaluated by the harness and converted independently'
NOTE = 'Time-dependent analytic fields with tracers, topography, reference states, staggerings, patch divisions, process counts and start times; a non-zero initial vertical velocity is a listed finding.'
HARNESSES = [('sim', 'opt')]
import numpy as np
from vp import cs, geo, conf
from vp.sim import sim, drop


def compare(ctx, k, x):
    key = conf.label(k).split("/")[0] + "/" + k.get("stagger", "")
    cmd = x.cmd()
    G, A = x.grid(0), x.grid("ana")
    pt = geo.Points(k)
    sw = k.get("eq") == "sw"
    R = float(k.get("radius", 6.37122e6))

    def conv(s):
        s = np.array(s)
        if pt.cs:
            lo, la = G.all("lon"), G.all("lat")       # (the direction of east at a pole goes with the longitude used)
            e = np.stack([-np.sin(lo), np.cos(lo), 0 * lo], -1)
            n = np.stack([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)], -1)
            v = s[:, 0][..., None] * e[:, None, :] + s[:, 1][..., None] * n[:, None, :]
            for p in range(6):
                m = pt.P == p
                ta, tb = cs.tangents(p, pt.a[m], pt.b[m])
                s[m, 0] = R * (v[m] * ta[:, None, :]).sum(-1)
                s[m, 1] = R * (v[m] * tb[:, None, :]).sum(-1)
        if not sw:
            s[:, 2] = s[:, 2] * s[:, 4]
        return s

    def eq(got, want, what, c, tol=1e-12, scale=None):
        s = np.abs(want).max() if scale is None else scale
        d = np.abs(got - want).max()
        ctx.count("values", got.size)
        ctx.le(d / s if s > 0 else d, tol, what, "%s%s:%s" % (what.replace(" ", "_"), c, key), "component %s; %s" % (c, cmd), cmd)

    names = [("node", "refnode", "rayn"), ("redge", "refredge", "raye")]
    for st, ref, ray in names:
        if sw and st == "redge":
            continue            # two-dimensional equations carry no interface state
        want, got = conv(A.all(st)), G.all(st)
        u = max(np.abs(want[:, :2]).max(), 1e-3)
        for c in range(got.shape[1]):
            if c == 3 and float(k.get("w0", 0)):
                zx = G.all("dre" if st == "redge" else "drn")[..., 2]
                # covariant vertical velocity: w dz/dxi; the bottom and top values belong to the boundary condition
                g, w = got[:, c], want[:, c] * zx
                raw = np.abs(g - want[:, c])[:, 1:-1].max() < 1e-12       # stored as it came: the listed finding
                eq(g[:, 1:-1], w[:, 1:-1], "unconverted vertical velocity" if raw else "initial vertical velocity", c)
                continue
            if c == 3 and st == "redge":
                # ground: the boundary condition may set it over terrain
                eq(got[:, c, 1:-1], want[:, c, 1:-1], "initial state", c, scale=u if np.abs(want[:, c]).max() == 0 else None)
                continue
            eq(got[:, c], want[:, c], "initial state " + st, c, scale=u if c < 2 else None)
        if not sw and int(k.get("ref", 1)) and not int(k.get("norefstate", 0)):
            want, got = conv(A.all(ref)), G.all(ref)
            for c in range(got.shape[1]):
                eq(got[:, c], want[:, c], "reference state " + st, c)
        if k.get("rayleigh") and ray in G.patches[0]:
            eq(G.all(ray), A.all(ray), "Rayleigh strength", ray)
    if "tracers" in A.patches[0]:
        want, got = A.all("tracers"), G.all("tracers")
        for c in range(want.shape[1]):
            eq(got[:, c], want[:, c], "tracer density", c)
    eq(G.all("topo"), A.all("topo"), "topography", "", scale=max(np.abs(A.all("topo")).max(), 1.0))


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, number of processes) whose whole initial state was compared at every point"
    exe = ctx.harness("sim")
    r = ctx.rng
    jobs = []
    for i in range(400 if ctx.thorough else 64):
        g = conf.KINDS[i % len(conf.KINDS)]
        k = conf.make(r, g, steps=1, topo=(i // 8 + i) % 2, explicit=False, walls=(i % 5 == 0))
        k["vmethod"] = "NONE" if g != "cs_sw" else "V1"
        k.update(hmethod="V1", scheme="strang")
        if g != "cs_sw":
            k["stagger"] = r.choice(["LOR", "LOR", "LOR", "CPH"])
            if r.random() < 0.5:
                k["rayleigh"] = 1e-3
            k["ref"] = r.choice([1, 1, 0])
            k["refoff"] = r.choice([0, 1])
            k["refu"] = r.choice([0, 0, 5])
            if i % 16 == 5:
                k["w0"] = 1.0
                k["topo"] = 0
        else:
            k["tc"] = r.choice(["rand", "sw2"])
            k["alpha"] = r.choice([0, 45, 90])
        if g.startswith("cs"):
            k["ne"] = r.choice([2, 3, 4, 6]) if not k.get("patches") else 4
            k["radius"] = r.choice([6.37122e6, 1e6])
        k["amp"] = 0.05
        k["tdep"] = r.choice([0, 1e-3])
        y, mo, d, s = r.randrange(0, 3000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(0, 86400)
        k["start"] = "%04d-%02d-%02d-%05d" % (y, mo, d, s)
        k["dt"] = "1s"
        k["end"] = "%04d-%02d-%02d-%05d" % (y, mo, d, min(s + 1, 86399)) if s < 86399 else "%04d-%02d-%02d-00001" % (y, mo, d)
        jobs.append((k, conf.nproc(r, k)))

    def one(job):
        k, np_ = job
        x = sim(ctx, exe, np_=np_, need="C28:" + conf.label(k), what="rGGstl", ana=1, **k)
        if x is None:
            return
        ctx.case((str(sorted(k.items())), np_), sample=dict(config=k, procs=np_))
        compare(ctx, k, x)
        drop(x)
    ctx.pmap(one, jobs, 7)
