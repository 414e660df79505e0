"""C21: reported global sums, norms and integrals equal their definitions.

The model's own reductions are called on arbitrary data and compared with exactly rounded sums over the recorded
fields and weights; the kinetic energy is recomputed from physical velocities."""
TECHNIQUE = 'runtime monitoring: reported reductions of the running model compared with exactly rounded sums over recorded fields and weights'
NOTE = 'Arbitrary (random, discontinuous and smooth) fields on both grids, several processes and divisions; checksums of all components and tracers in four norms, energy, shallow-water potential enstrophy, momentum sums; also the checksums announced during runs. Bound 1e-12 of the sum of absolute values.'
HARNESSES = [('sim', 'opt'), ('ops', 'opt')]
import math, re
import numpy as np
from vp.sim import sim, drop
from vp import geo, conf

TOL = 1e-12


def fsum(x):
    x = np.asarray(x).ravel()
    return math.fsum(x) if np.isfinite(x).all() else float("nan")


def norms(w, v):
    """The four checksums with the scale each is compared at."""
    a = fsum(w * np.abs(v))
    q = fsum(w * v * v)
    return [(fsum(w * v), a), (a, a), (math.sqrt(q), math.sqrt(q)), (float(np.abs(v).max()),) * 2]


def fields(G, sw):
    """[(weights, values)] of the components in order."""
    x, ar = G.all("node"), G.all("area")
    out = []
    for c in range(x.shape[1]):
        if c == 3:
            out.append((G.all("areaE"), G.all("redge")[:, 3]))
        else:
            out.append((ar, x[:, c]))
    t = []
    if "tracers" in G.patches[0]:
        q = G.all("tracers")
        t = [(ar, q[:, c]) for c in range(q.shape[1])]
    return out, t


def run(ctx):
    ctx.rule = "one evaluation = one reported number compared with its definition"
    exe, ops = ctx.harness("sim"), ctx.harness("ops")
    r = ctx.rng
    N = 160 if ctx.thorough else 32
    jobs = []
    for i in range(N):
        g = ["cs", "xy", "cs_sw", "xz", "cs_sw"][i % 5]
        k = conf.make(r, g, steps=3 if i % 2 else 1, topo=(i // 5) % 2)
        jobs.append((k, conf.nproc(r, k, 0.4), r.randrange(1, 10 ** 6), r.choice([0.0, 1e-3, 0.3])))

    def one(job):
        k, np_, sd, amp = job
        key = conf.label(k)
        sw = k.get("eq") == "sw"
        o = ["rand:0:%d:%g:add:1e-3" % (sd, amp)]
        if not sw:
            o += ["n2r:4:0", "r2n:3:0"]
        # the vorticity the enstrophy uses is computed by the call itself, so the fields are recorded afterwards
        o += ["cs:a:0", "energy:b:0", "dump:x:0:stgGa"] if sw is False else ["cs:a:0", "dump:x:0:stgGa"]
        if sw:
            o = o[:1] + ["cs:a:0", "energy:b:0", "dump:x:0:stgGa"]
        p = sim(ctx, ops, np_=np_, need="C21:" + key, ops=";".join(o), **k)
        if p is None:
            return
        cmd = p.cmd()
        G = p.grid("x")
        st, tr = fields(G, sw)
        got = {}
        for l in p.res.lines("@CS a "):
            w = l.split()
            got[(int(w[0]), int(w[1]))] = [float(q) for q in w[2:]]
        for d, F in ((0, st), (1, tr)):
            for c, (w, v) in enumerate(F):
                for t, (val, sc) in enumerate(norms(w, v)):
                    if (d, t) not in got or len(got[(d, t)]) <= c:
                        ctx.violation("missing:%d:%d" % (d, t), "checksum not reported: %s" % cmd, cmd)
                        continue
                    ctx.le(abs(got[(d, t)][c] - val) / (sc or 1.0), TOL, ("state", "tracer")[d] + " " + ("sum", "L1", "L2", "Linf")[t],
                           "checksum:%s:%s:%d:%s" % ("ST"[d], ("sum", "L1", "L2", "Linf")[t], c, key), "component %d: %.17g against %.17g; %s" % (c, got[(d, t)][c], val, cmd), cmd)
                    ctx.case((str(sorted(k.items())), np_, sd, d, c, t), sample=dict(config=k, procs=np_, norm=t, reported=got[(d, t)][c], expected=val) if c == 0 and t == 2 else None)
        ph = {a: float(b) for a, b in re.findall(r"(\w+)=(\S+)", p.res.lines("@PHYS ")[0])}
        e = [float(q) for q in (p.res.lines("@EN b ") or ["nan nan nan nan"])[0].split()]
        pt = geo.Points(k)
        x, ar = G.all("node"), G.all("area")
        if sw:
            z = G.all("topo").reshape(len(x), -1)[:, :1]
            u = pt.vector(x[:, 0], x[:, 1]) / ph["R"]
            K = 0.5 * (u ** 2).sum(-1) * (x[:, 2] - z) + 0.5 * ph["g"] * (x[:, 2] ** 2 - z ** 2)
            f = 2 * ph["omega"] * pt.r[:, 2:3]
            vo = G.all("vort")
            Q = 0.5 * (vo + f) ** 2 / (x[:, 2] - z)
            exp = [("energy", ar * K, e[0]), ("enstrophy", ar * Q, e[1])]
        else:
            U, V, W, R = x[:, 0], x[:, 1], x[:, 3], x[:, 4]
            We, Re = G.all("redge")[:, 3], G.all("redge")[:, 4]
            A, B, X, XE = (G.all(n) for n in ("cma", "cmb", "cmx", "cmxE"))
            if not k.get("topo"):
                # level ground: physical velocities, no metric of the model
                u = pt.vector(U, V) / (ph["R"] if pt.cs else 1.0)
                kh = (u ** 2).sum(-1)
            else:
                kh = A[..., 0] * U * U + 2 * A[..., 1] * U * V + B[..., 1] * V * V + 2 * (X[..., 0] * U + X[..., 1] * V) * W
            pr = ph["p0"] * (x[:, 2] * ph["Rd"] / ph["p0"]) ** (ph["cp"] / ph["cv"])
            zl = G.all("zlev")
            E = R * (0.5 * kh + ph["g"] * zl) + pr / (ph["Rd"] / ph["cv"])
            aE = G.all("areaE")
            tot = np.concatenate([(ar * E).ravel(), (aE * 0.5 * Re * XE[..., 2] * We ** 2).ravel()])
            exp = [("energy", tot, e[0]), ("zonal momentum", ar * R * U, e[1]), ("vertical momentum", ar * R * W, e[2])]
        for n, v, got1 in exp:
            val, sc = fsum(v), fsum(np.abs(v)) or 1.0
            ctx.le(abs(got1 - val) / sc, TOL if n != "energy" else 1e-11, n, "total:%s:%s" % (n, key), "%s %.17g against %.17g; %s" % (n, got1, val, cmd), cmd)
            ctx.case((str(sorted(k.items())), np_, sd, n), sample=dict(config=k, name=n, reported=got1, expected=val) if n == "energy" else None)
        if sw:
            # kinetic energy alone: rescaling the wind scales its share by the square
            ctx.count("kinetic share of energy x1e6", float(1e6 * fsum(ar * 0.5 * (u ** 2).sum(-1) * (x[:, 2] - z)) / (fsum(ar * np.abs(K)) or 1)))
        drop(p)
        # the numbers announced by a run belong to the state at that time
        q = sim(ctx, exe, np_=np_, need="C21:run:" + key, what="stg", outdt=k["dt"], **k)
        if q is None:
            return
        ann = re.findall(r"Checksum \((\w+)\): (\S+)", q.res.out)
        st, tr = fields(q.grid(0), sw)
        n = len(st) + len(tr)
        S = q.steps
        ctx.check(len(ann) == n * (S + 1), "announced:count:" + key, "%d checksums announced, expected %d x %d; %s" % (len(ann), n, S + 1, q.cmd()), q.cmd())
        for s in range(min(S + 1, len(ann) // n)):
            st, tr = fields(q.grid(s), sw)
            for c, (w, v) in enumerate(st + tr):
                val, sc = fsum(w * v), fsum(w * np.abs(v)) or 1.0
                ctx.le(abs(float(ann[s * n + c][1]) - val) / sc, TOL, "announced sum", "announced:%s:%s" % (ann[s * n + c][0], key), "output %d: %s announced for %.17g; %s" % (s, ann[s * n + c], val, q.cmd()), q.cmd())
                ctx.case((str(sorted(k.items())), np_, "ann", s, c))
        drop(q)

    ctx.pmap(one, jobs, workers=7)
