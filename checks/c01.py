"""C01: every division of the domain gives the same answer.

Monitors: (a) a recorder in the run dumps the global state after initialisation and after every step; runs of the
same configuration under different process counts and patch counts are compared point by point; (b) ownership:
from the patch headers every grid point is owned by exactly one patch and every patch by exactly one rank;
(c) the checksums every run reports and the output files are compared."""
TECHNIQUE = 'runtime monitoring: state, checksum and output recorders compared across domain divisions (differential oracle)'
NOTE = 'Randomised configurations (grids, equation sets, schemes, orders, topography, diffusion, tracers) run on several numbers of MPI processes and patches; every value of every step is compared. Small grids (ne 2-12).'
HARNESSES = [('sim', 'opt')]
import glob, os, re
import numpy as np
from scipy.io import netcdf_file
from vp.sim import sim, drop, compdiff

TOL = 1e-9


def configs(ctx, n):
    r = ctx.rng
    out = []
    SCH = ["strang", "strang/rk3", "strang/ssprk53", "ars222", "ars232", "ars343", "ars443", "ssp3_332", "gark2", "ark232"]
    for i in range(n):
        g = ["cs", "cs", "cs_sw", "xy", "cs", "xz", "cs_sw", "xy", "xz", "cs"][i % 10]
        k = dict(seed=r.randrange(1, 10 ** 6), order=r.choice([3, 4, 4, 5]), scheme=r.choice(SCH), what="stga", checksum=1)
        if g.startswith("cs"):
            k["ne"] = r.choice([2, 4, 6, 6])
            k.update(dt="60s", end="240s", topo=r.choice([0, 800]), tr="r:1,b:2")
            if r.random() < 0.5:
                k.update(nu=1e15, nud=1e15, nuv=1e15)
            if g == "cs_sw":
                k.update(eq="sw", scheme=r.choice(SCH + ["strang/rk4", "erk", "erk/rk3"]))
            else:
                vo = r.choice([1, 1, 2])
                k.update(levels=(5 if vo == 1 else 12), vorder=vo, hmethod=r.choice(["V1", "V1", "V2"]), rayleigh=r.choice([0, 0.001]))
        else:
            ne = r.choice([6, 12])
            k.update(grid=g, ne=ne, ney=(1 if g == "xz" else r.choice([2, 3, 4])), Lx=100e3 * ne, Ly=3e5, dt="20s", end="80s",
                     topo=r.choice([0, 300]), levels=5, tr="r:1,b:2", hmethod=r.choice(["V1", "V1", "V2"]), reflat=r.choice([0, 0.7]))
            if r.random() < 0.5 or i % 10 == 3:
                b = [r.choice([0, 1, 2]), r.choice([0, 1, 2]) if g == "xy" else 0]
                k["bc"] = "%d,%d,%d,%d" % tuple([b[0], b[1]] + [r.choice([1, 2]) if q else 0 for q in b])
                k.update(dt="10s", end="40s")
                if i % 10 == 3:         # terrain that meets a wall cut by the divisions
                    k.update(topo=300, bc="%d,1,%d,%d" % (b[0], b[0] and 1, r.choice([1, 2])))
            q = r.random()      # in a box the fourth-order coefficient is multiplied by (element area)^1.6
            if q < 0.3:
                k.update(nu=0.02, nud=0.02, nuv=0.02)
            elif q < 0.6:
                k.update(nu=1e5, nud=1e5, nuv=1e5, hvorder=2)
        if k.get("hmethod") == "V2":
            k["order"] = 4
        if r.random() < 0.5 or i in (0, 3):
            k.update(output=1, outdt=k["dt"], outx=13, outy=7 if g != "xz" else 1, ovort=1, odiv=1, otemp=(0 if g == "cs_sw" else 1))
        out.append((g, k))
    return out


def others(r, g, k, n):
    """Other divisions of the domain that the configuration admits."""
    ne = k["ne"]
    if g.startswith("cs"):
        pc = [6] + [6 * d * d for d in (2, 3) if ne % d == 0]
        cand = [(p, np_) for p in pc for np_ in (1, 2, 3, 4, 5, 6, 7, 8) if np_ <= p and (p, np_) != (6, 1)]
    else:
        pc = [p for p in (1, 2, 3, 4, 6) if ne % p == 0]
        cand = [(p, np_) for p in pc for np_ in (1, 2, 3, 4, 5, 6) if np_ <= p and (p, np_) != (1, 1)]
    big = [c for c in cand if c[0] > (6 if g.startswith("cs") else 1)]
    sel = []
    for q in range(n):
        pool = big if (q % 2 and big) else cand
        c = r.choice(pool)
        cand = [x for x in cand if x != c] or cand
        sel.append(c)
    return sel


def ownership(ctx, G, key):
    cover = {}
    for p in G.patches:
        cover.setdefault(p.panel, []).append((p.a0, p.a1, p.b0, p.b1))
    ids = [p.ix for p in G.patches]
    ctx.check(sorted(ids) == list(range(len(ids))), "own:patch-on-two-ranks:" + key, "patch indices over all ranks: %s" % ids)
    for pan, bs in cover.items():
        nA, nB = max(b[1] for b in bs), max(b[3] for b in bs)
        m = np.zeros((nA, nB), int)
        for b in bs:
            m[b[0]:b[1], b[2]:b[3]] += 1
        ctx.check((m == 1).all(), "own:cover:" + key, "panel %d: points owned %d..%d times" % (pan, m.min(), m.max()))


def outputs(d):
    out = {}
    for f in sorted(glob.glob(d + "/*.nc")):
        nc = netcdf_file(f, "r", mmap=False)
        for v in nc.variables:
            a = nc.variables[v].data
            if a.dtype.kind == "f":
                out[os.path.basename(f) + ":" + v] = np.array(a, float)
        nc.close()
    return out


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, division) run compared with the reference division at every step"
    exe = ctx.harness("sim")
    cfgs = configs(ctx, 200 if ctx.thorough else 10)
    jobs = []
    for g, k in cfgs:
        jobs.append((g, k, others(ctx.rng, g, k, 4 if ctx.thorough else 3)))

    def one(job):
        g, k, oth = job
        tag = "%s/%s/%s" % (g, k["scheme"], k.get("hmethod", ""))
        def go(p, n):
            kk = dict(k)
            if kk.get("output"):
                kk["outdir"] = ctx.newdir()
            kk["patches"] = p
            r = sim(ctx, exe, np_=n, need="C01:%s:p%d:n%d" % (tag, p, n), timeout=150, **kk)
            return r
        ref = go(6 if g.startswith("cs") else 1, 1)
        if ref is None:
            return
        steps = ref.steps
        A = [ref.grid(s) for s in range(steps + 1)]
        names = [n for n in ("node", "redge", "tracers") if n in A[0].patches[0]]
        okfin = all(np.isfinite(A[-1].all(n)).all() for n in names)
        ctx.check(okfin, "finite:" + tag, "reference run is not finite: " + ref.cmd())
        ownership(ctx, A[0], tag)
        if not okfin:
            return
        oref = outputs(ref.kw["outdir"]) if k.get("output") else {}
        cref = [[float(x) for x in l.split()[1:]] for l in ref.res.lines("@CS")]
        for p, n in oth:
            r = go(p, n)
            key = "%s:p%dn%d" % (tag, p, n)
            ctx.case((g, str(sorted(k.items())), p, n), sample=dict(division="%d patches on %d ranks" % (p, n), config=k))
            if r is None:
                continue
            ctx.count("divisions", 1)
            if r.steps != steps:
                ctx.violation("steps:" + key, "%s steps instead of %d" % (r.steps, steps), r.cmd())
                continue
            for s in range(steps + 1):
                B = r.grid(s)
                if s == 0:
                    ownership(ctx, B, key)
                for nme in names + ["lon", "lat", "area", "zlev"] + (["vort", "div"] if s == steps and k.get("output") else []):
                    if nme not in A[s].patches[0]:
                        continue
                    x, y = A[s].all(nme), B.all(nme)
                    if x.ndim < 3:
                        x, y = x.reshape(x.shape[0], 1, -1), y.reshape(y.shape[0], 1, -1)
                    if x.ndim == 3 and nme in ("node", "redge") and x.shape[1] == 5:
                        x, y = x.copy(), y.copy()       # the other copies are scratch
                        x[:, [3] if nme == "node" else [0, 1, 2, 4]] = 0
                        y[:, [3] if nme == "node" else [0, 1, 2, 4]] = 0
                    d = compdiff(x, y) if nme in ("node", "redge") else (np.abs(x - y).max() / max(np.abs(x).max(), 1e-300) if x.shape == y.shape else float("inf"))
                    ctx.count("values_compared", int(x.size))
                    if not ctx.le(d, TOL, "division difference", "state:%s:%s" % (key, nme), "step %d, field %s, %s vs %s" % (s, nme, ref.cmd(), r.cmd()), r.cmd()):
                        break
            cs = [[float(x) for x in l.split()[1:]] for l in r.res.lines("@CS")]
            ctx.check(len(cs) == len(cref) == 3, "cs-missing:" + key, "checksums reported: %d" % len(cs))
            for q, (a, b) in enumerate(zip(cref, cs)):
                # a sum can cancel: compare on the scale of the L1 norm
                sc = cref[1] if q == 0 else a
                for c in range(len(a)):
                    ctx.le(abs(a[c] - b[c]) / (abs(sc[c]) + 1e-300) if sc[c] else abs(b[c]), 1e-9, "checksum difference", "checksum:" + key, "checksum type %d comp %d: %.17g vs %.17g; %s" % (q, c, a[c], b[c], r.cmd()))
            if k.get("output"):
                o = outputs(r.kw["outdir"])
                ctx.check(sorted(o) == sorted(oref) and len(o) > 0, "outfiles:" + key, "files/variables %s vs %s" % (sorted(oref)[:6], sorted(o)[:6]))
                for nme in oref:
                    if nme in o:
                        a, b = oref[nme], o[nme]
                        if a.shape != b.shape:
                            ctx.violation("outshape:" + key, "%s shape %s vs %s" % (nme, a.shape, b.shape))
                        elif a.size:
                            s = np.abs(a).max()
                            ctx.count("output_values_compared", int(a.size))
                            ctx.le(np.abs(a - b).max() / s if s > 0 else np.abs(b).max(), 3e-6 if a.dtype == np.float32 else 1e-6, "output difference", "output:" + key + ":" + nme.split(":")[1], r.cmd())
            drop(r)
        drop(ref)

    ctx.pmap(one, jobs, workers=5)
    ctx.count("reference_runs", len(cfgs))
