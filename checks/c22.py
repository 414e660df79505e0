"""C22: symmetries of the domain.

Pairs of runs of the real model: a random configuration from random smooth data, and the same configuration from the
data transformed by a symmetry of the grid (cube rotations and reflections on the sphere, those that keep the rotation
axis when the planet turns and all 48 when it does not; whole-element shifts, mirror images and exchange of the two
axes in boxes). After every step the second run's fields, transformed back as scalars, vectors and points, must be those
of the first to within accumulated rounding."""
TECHNIQUE = 'runtime monitoring: metamorphic oracle over recorded runs from symmetrically transformed initial data, compared after every step'
NOTE = 'Random smooth data, a few steps per run; every scheme, method, diffusion and boundary kind the random configurations reach. In rotating boxes only shifts along x are used (the Coriolis parameter varies with y).'
HARNESSES = [('sim', 'opt')]
import itertools
import numpy as np
from scipy.spatial import cKDTree
from vp.sim import sim, drop
from vp import geo, conf

ALL = [np.array([[s[i] * (p[i] == j) for j in range(3)] for i in range(3)], float)
       for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)]
AXIS = [S for S in ALL if S[2, 2] != 0 and round(np.linalg.det(S) * S[2, 2]) == 1]     # keep the axial vector along z


def run(ctx):
    ctx.rule = "one evaluation = one (configuration, symmetry, step) at which all fields were compared"
    exe = ctx.harness("sim")
    r = ctx.rng
    N = 140 if ctx.thorough else 28
    jobs = []
    for i in range(N):
        g = ["cs", "xy", "cs_sw", "xz", "cs", "xy", "cs_sw"][i % 7]
        k = conf.make(r, g, steps=(8 if ctx.thorough else 4), topo=(i // 7) % 2, visc=[True, False, None][i % 3], tr="r:1,u:0.7")
        if r.random() < 0.3:
            k["w0"] = 1.0
        if r.random() < 0.3 and g != "cs_sw":
            k["rayleigh"] = 1e-3
        T, vec = {}, None
        if g.startswith("cs"):
            rot = r.random() < 0.5
            S = r.choice([q for q in (AXIS if rot else ALL) if not np.array_equal(q, np.eye(3))])
            if not rot:
                k["omega"] = 0
            T = dict(R=",".join("%g" % v for v in S.ravel()), psgn="%g" % np.linalg.det(S))
            op = S
        else:
            bc = [int(q) for q in k.get("bc", "0,0,0,0").split(",")]
            ops = []
            if bc[0] == 0:
                ops += ["shx", "shx"]
            if bc[1] == 0 and g == "xy" and k["ney"] > 1:
                ops += ["shy"]
            ops += ["mirx"] + (["miry", "swap"] if g == "xy" else [])
            o = r.choice(ops)
            if o != "shx":
                k["omega"] = 0
            m = 0
            if o == "shx":
                m = r.randrange(1, k["ne"]); T = dict(shx=m * k["Lx"] / k["ne"])
            elif o == "shy":
                m = r.randrange(1, k["ney"]); T = dict(shy=m * k["Ly"] / k["ney"])
            elif o == "swap":
                k.update(ney=k["ne"], Ly=k["Lx"])
                T = dict(swapxy=1, psgn=-1)
                if "bc" in k:
                    T["bc"] = ",".join(str(bc[q]) for q in (1, 0, 3, 2))
            else:
                T = {o: -1, "psgn": -1}
                if "bc" in k:
                    T["bc"] = ",".join(str(bc[q]) for q in ((2, 1, 0, 3) if o == "mirx" else (0, 3, 2, 1)))
            op = (o, m)
        jobs.append((g, k, T, op, conf.nproc(r, k), conf.nproc(r, k)))

    def one(job):
        g, k, T, op, np0, np1 = job
        key = conf.label(k)
        x = sim(ctx, exe, np_=np0, need="C22:" + key, what="s" + "t", **k)
        k1 = dict(k); k1.update(T)
        y = sim(ctx, exe, np_=np1, need="C22:" + key, what="s" + "t", **k1)
        if x is None or y is None:
            return
        p0, p1 = geo.Points(k), geo.Points(k1)
        # row of the first run for each row of the second; V: vectors of the second expressed in the first
        if p0.cs:
            S = op
            d, j = cKDTree(p0.r).query(p1.r @ S.T)
            V = S
            name = "sphere%s" % ("" if k.get("omega") == 0 else "_rotating")
        else:
            o, m = op
            X, Y = p1.x.copy(), p1.y.copy()
            V = np.eye(3)
            if o in ("shx", "shy"):
                X, Y = X - float(T.get("shx", 0)), Y - float(T.get("shy", 0))
            elif o == "mirx":
                X = -X; V[0, 0] = -1
            elif o == "miry":
                Y = -Y; V[1, 1] = -1
            else:
                X, Y = Y, X; V = np.array([[0., 1, 0], [1, 0, 0], [0, 0, 1]])
            Lx, Ly = k["Lx"], k["Ly"]
            # within the box; at solid walls both ends are distinct points, which labels tell apart
            def fold(q, L, per, ref):
                if per:
                    return np.mod(np.round(q / L, 9), 1.0)
                return np.round(q / L + (1.0 if ref else 0.0), 9)
            per = [v == 0 for v in p0.bc[:2]]
            a = np.stack([fold(X, Lx, per[0], o == "mirx"), fold(Y, Ly, per[1], o == "miry")], 1)
            b = np.stack([fold(p0.x, Lx, per[0], False), fold(p0.y, Ly, per[1], False)], 1)
            d, j = cKDTree(b).query(a)
            name = "box_" + o
        ctx.check(float(d.max()) < 1e-7, "points:" + name, "grid points do not map to grid points (%g); %s" % (d.max(), y.cmd()), y.cmd())
        steps = min(x.steps, y.steps)
        ctx.count("pairs:" + name, 1)
        for s in range(steps + 1):
            F, H = geo.state_fields(p0, x.grid(s)), geo.state_fields(p1, y.grid(s))
            ctx.case((str(sorted(k.items())), str(T), s), sample=dict(config=k, symmetry=T, step=s))
            for n in F:
                f, h = F[n][j], H[n]
                if n == "u":
                    h = h @ V.T
                    sc = np.abs(f).max()
                else:
                    sc = np.abs(f).max()
                    if n == "w":      # covariant: wind scale times depth
                        sc = max(sc, 1.0 * 1e4)
                e = float(np.abs(f - h).max() / max(sc, 1e-3))
                ctx.le(e, 1e-9, "departure from symmetry of " + ("tracers" if n[0] == "q" else n), "sym:%s:%s" % (name, key), "step %d, field %s; %s" % (s, n, y.cmd()), y.cmd())
                if not e <= 1e-9:
                    break
        drop(x); drop(y)
    ctx.pmap(one, jobs, 7)
