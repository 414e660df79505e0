"""C09: reference output files.

Models run with output switched on while the recorder dumps the state after every step. An independent interpolator
(panel search with the independent cubed-sphere geometry, Lagrange basis of the containing element, column interpolation
assembled from its definition) predicts every number of every record of every file from the dumped fields."""
TECHNIQUE = 'runtime monitoring: every value of every output file compared with an independent interpolation of the dumped model state of the same time'
NOTE = 'Random configurations (both grids, both equation sets, terrain, stretchings, FE and FV columns), output resolutions including points on element, patch and panel edges, output levels, single files and several, 1-6 processes, optional fields, user data, reference profile removed or not. At points on edges the value of any adjoining element is accepted.'
HARNESSES = [('outh', 'opt')]
import glob, os
import numpy as np
from scipy.io import netcdf_file
from vp.sim import sim, drop
from vp import geo, conf, cs
from checks.c14 import ref_interp

R = 6.37122e6


class Locator:
    """Candidate (rows, weights, position) of every output point."""

    def __init__(self, k, X, Y):
        self.pt = pt = geo.Points(k)
        o = pt.order
        if pt.cs:
            ne, al = pt.ne, cs.panel_nodes(pt.ne, o)[0]
            n = len(al)
        self.cand = []
        for y in Y:
            for x in X:
                c = []
                if pt.cs:
                    r = cs.xyz(np.radians(x), np.radians(y))
                    for p in range(6):
                        ex, ey, ez = cs.BASIS[p]
                        d = r @ ez
                        if d < 0.3:
                            continue
                        a, b = np.arctan2(r @ ex, d), np.arctan2(r @ ey, d)
                        for i in self.el(a, -np.pi / 4, np.pi / 4, ne):
                            for j in self.el(b, -np.pi / 4, np.pi / 4, ne):
                                wa, wb = cs.lagrange(al[i * o:i * o + o], a)[0], cs.lagrange(al[j * o:j * o + o], b)[0]
                                rows = (p * n + i * o + np.arange(o))[:, None] * n + j * o + np.arange(o)
                                c.append((rows.ravel(), np.outer(wa, wb).ravel(), (p, a, b)))
                else:
                    ne, ney = pt.ne, int(k.get("ney", 1))
                    x0, y0, Lx, Ly = float(k.get("x0", 0)), float(k.get("y0", 0)), float(k.get("Lx", 1e5)), float(k.get("Ly", 1e5))
                    xs, ys = cs.axis_nodes(ne, o, x0, x0 + Lx)[0], cs.axis_nodes(ney, o, y0, y0 + Ly)[0]
                    for i in self.el(x, x0, x0 + Lx, ne):
                        for j in self.el(y, y0, y0 + Ly, ney):
                            wa, wb = cs.lagrange(xs[i * o:i * o + o], x)[0], cs.lagrange(ys[j * o:j * o + o], y)[0]
                            rows = (i * o + np.arange(o))[:, None] * len(ys) + j * o + np.arange(o)
                            c.append((rows.ravel(), np.outer(wa, wb).ravel(), None))
                self.cand.append(c)
        self.edge = sum(len(c) > 1 for c in self.cand)

    @staticmethod
    def el(a, lo, hi, ne):
        q = (a - lo) / (hi - lo) * ne
        if q < -1e-9 or q > ne + 1e-9:
            return []
        s = {min(max(int(np.floor(q + e)), 0), ne - 1) for e in (-1e-9, 1e-9)}
        return sorted(s)

    def scalar(self, f, shape):
        """f (n, k) -> list over points of arrays (candidates, k)."""
        return [np.stack([w @ f[rows] for rows, w, _ in c]) for c in self.cand]

    def wind(self, u, v, M):
        """Covariant components (n, k) interpolated, moved to the output levels, turned into east and north components."""
        out = []
        for c in self.cand:
            q = []
            for rows, w, at in c:
                a, b = M @ (w @ u[rows]), M @ (w @ v[rows])
                if at is not None:
                    p, al, be = at
                    w3 = cs.physical(p, np.full(a.shape, al), np.full(a.shape, be), a, b, R)
                    e, n = cs.east_north(cs.pos(p, al, be))
                    a, b = w3 @ e, w3 @ n
                q.append(np.stack([a, b]))
            out.append(np.stack(q))
        return out


def compare(ctx, got, want, scale, name, key, detail, cmd):
    """got (points, k); want list over points of (candidates, k)."""
    w = 0.0
    for i, q in enumerate(want):
        d = np.abs(q - got[i]).reshape(len(q), -1).max(axis=1).min()
        w = max(w, d) if np.isfinite(d) else float("inf")
    ctx.count("values_compared", got.size)
    ctx.le(w / scale, 1e-11, name, key, detail, cmd)


def columns(p, N, E, src, O):
    return ref_interp(p, E[::p], N, E, src, O, 0)


def job_of(r, ctx, i):
    g = ["cs", "xy", "cs_sw", "xz", "cs"][i % 5]
    steps = r.choice([2, 3, 4])
    k = conf.make(r, g, steps=steps, explicit=False)
    if g != "cs_sw":
        k["w0"] = r.choice([0, 1.0])
    dt = int(k["dt"][:-1])
    every = r.choice([1, 2])
    k["outdt"] = "%ds" % (every * dt)
    k["perfile"] = r.choice([-1, -1, 1, 2])
    k["outx"] = r.choice([1, 3, 8, 12, 16, 2 * k["ne"], 4 * k["ne"]])
    k["outy"] = r.choice([1, 2, 4, 5, 6, 8, 12])
    if g == "xz":
        k["outy"] = r.choice([1, 3])
    if g != "cs_sw":
        k["outz"] = r.choice([0, 0, 1, 5, 9, 24])
    for f in ("ovort", "odiv", "otemp", "ops"):
        if r.random() < 0.5 and not (g == "cs_sw" and f in ("otemp", "ops")):
            k[f] = 1
    if r.random() < 0.5:
        k["ud2d"] = r.choice([1, 2])
    if r.random() < 0.5:
        k["own"] = "o" + ("n" if r.random() < 0.5 else "") + ("r" if r.random() < 0.5 and g != "cs_sw" else "")
    else:
        k["output"] = 1
        if r.random() < 0.3 and g != "cs_sw":
            k["ori"] = 1
    if "r" in k.get("own", ""):
        k["ref"] = 1
        k["refu"] = r.choice([0, 5])
    return k, conf.nproc(r, k, 0.5), every, steps


def run(ctx):
    ctx.rule = "one evaluation = one time record of one run, all its variables compared at all output points"
    exe = ctx.harness("outh")
    N = 150 if ctx.thorough else 30
    jobs = [job_of(ctx.rng, ctx, i) for i in range(N)]

    def one(job):
        k, np_, every, steps = job
        key = conf.label(k)
        x = sim(ctx, exe, np_=np_, need="C09:" + key, **k)
        if x is None:
            return
        d = os.path.dirname(x.prefix)
        files = sorted(glob.glob(d + "/out/*.nc"))
        cmd = x.cmd()
        want_steps = [s for s in range(steps + 1) if s % every == 0 or s == steps]
        pf = k["perfile"]
        nf = 1 if pf < 0 else -(-len(want_steps) // pf)
        if not ctx.check(len(files) == nf, "files:" + key, "%d output files, %d expected; %s" % (len(files), nf, cmd), cmd):
            return
        rec = 0
        dt = int(k["dt"][:-1])
        loc = None
        for fi, f in enumerate(files):
            nc = netcdf_file(f, "r", mmap=False)
            V = {n: np.array(v.data, dtype=float) for n, v in nc.variables.items()}
            t = V["time"]
            nw = len(want_steps) if pf < 0 else min(pf, len(want_steps) - pf * fi)
            if not ctx.check(len(t) == nw, "records:" + key, "%s holds %d records, %d expected; %s" % (f, len(t), nw, cmd), cmd):
                return
            G0 = x.grid(0)
            N, E = G0.g["retalev"], G0.g["retaint"]
            sw = k.get("eq") == "sw"
            p = 1 if k.get("vdisc") == "FV" else int(k.get("vorder", 1))
            nZ = int(k.get("outz", 0))
            onnodes = nZ > 0 or "n" in k.get("own", "")
            O = (np.arange(nZ) + 0.5) / nZ if nZ else N
            nx, ny = k["outx"], k["outy"]
            if x.kw.get("grid") == "cs":
                b = (-180, 180, -90, 90)
            else:
                b = (float(k.get("x0", 0)), float(k.get("x0", 0)) + k["Lx"], 0.0, k["Ly"])
            X = b[0] + (np.arange(nx) + 0.5) * (b[1] - b[0]) / nx
            Y = b[2] + (np.arange(ny) + 0.5) * (b[3] - b[2]) / ny
            for nm, wv in (("lon", X), ("lat", Y), ("lev", O), ("ilev", E)):
                ok = V[nm].shape == wv.shape
                ctx.check(ok, "coord:%s:%s" % (nm, key), "%s has shape %s; %s" % (nm, V[nm].shape, cmd), cmd)
                if ok:
                    ctx.le(np.abs(V[nm] - wv).max() / max(np.abs(wv).max(), 1e-300), 1e-12, "coordinates", "coord:%s:%s" % (nm, key), "in %s; %s" % (f, cmd), cmd)
            att = {"Ztop": (1.0 if sw else 10000.0), "earth_radius": R, "g": 9.80616}
            for nm, wv in att.items():
                ctx.check(abs(float(nc._attributes[nm]) - wv) < 1e-9 * abs(wv), "attr:%s:%s" % (nm, key), "attribute %s is %s; %s" % (nm, nc._attributes[nm], cmd), cmd)
            units = nc.variables["time"].units.decode()
            ctx.check(units.startswith("days since 0000-01-01"), "units:" + key, "units %r; %s" % (units, cmd), cmd)
            if loc is None:
                loc = Locator(k, X, Y)
                ctx.count("output_points", len(X) * len(Y))
                ctx.count("points_on_edges", loc.edge)
            I = np.eye(len(N))
            Mn = I if np.array_equal(O, N) else columns(p, N, E, 0, O)
            Me = columns(p, N, E, 1, O) if onnodes else np.eye(len(E))
            for i in range(len(t)):
                s = want_steps[rec]
                rec += 1
                ctx.case((str(sorted(k.items())), np_, s), sample=dict(config=k, procs=np_))
                kk = "%s" % key
                ctx.le(abs(t[i] - s * dt / 86400.0), 1e-12, "time", "time:" + kk, "record %d of %s; %s" % (i, f, cmd), cmd)
                G = x.grid(s)
                node, red = G.all("node"), G.all("redge")
                if "r" in k.get("own", ""):
                    node, red = node - G.all("refnode"), red - G.all("refredge")
                ns = len(X) * len(Y)

                def get(n, i=i):
                    v = V[n][i]
                    return v.reshape(-1, ns).T
                det = "record %d of %s; %s" % (i, os.path.basename(f), cmd)
                uv = loc.wind(node[:, 0], node[:, 1], Mn)
                gu = np.stack([get("U"), get("V")], 1)
                compare(ctx, gu, uv, max(np.abs(gu).max(), 1e-3), "wind", "wind:" + kk, det, cmd)

                def put(name, fld, M, kind="field"):
                    wv = [q @ M.T for q in loc.scalar(fld, None)]
                    compare(ctx, get(name), wv, max(np.abs(fld).max(), 1e-30), kind, "%s:%s" % (name, kk), det, cmd)
                if sw:
                    put("H", node[:, 2], Mn)
                else:
                    put("RhoTheta", node[:, 2], Mn)
                    put("Rho", node[:, 4], Mn)
                    put("W", red[:, 3] / G.all("dre")[..., 2], Me, "vertical velocity")
                if "tracers" in G.patches[0]:
                    tr = G.all("tracers")
                    for c in range(tr.shape[1]):
                        put("Q%d" % c, tr[:, c], Mn, "tracer")
                one_ = np.eye(1)
                for c in range(int(k.get("ud2d", 0))):
                    U = x.grid("user")
                    ua = np.concatenate([panel_user(U, P_) for P_ in range(6 if loc.pt.cs else 1)])
                    put("UD%d" % c, ua[:, c:c + 1], one_, "user data")
                if i == 0:
                    v = V["Zs"].reshape(-1, 1)
                    tp = G.all("topo").reshape(-1, 1)
                    compare(ctx, v, loc.scalar(tp, None), max(np.abs(tp).max(), 1.0), "topography", "Zs:" + kk, det, cmd)
                if s == steps:
                    F = x.grid("final")
                    for nm, arr, M in (("ZETA", "vort", Mn), ("DELTA", "div", Mn), ("T", "temperature", Mn), ("PS", "ps", one_)):
                        if nm in V:
                            fl = F.all(arr)
                            put(nm, fl.reshape(len(fl), -1), M, "diagnostic")
            nc.close()
        ctx.check(rec == len(want_steps), "records:" + key, "%d records in all, %d expected; %s" % (rec, len(want_steps), cmd), cmd)
        drop(x)

    ctx.pmap(one, jobs)


def panel_user(U, p):
    """User data of panel p, rows in the order of Grid.all."""
    ps = [q for q in U.patches if q.panel == p]
    nA, nB = max(q.a1 for q in ps), max(q.b1 for q in ps)
    c = ps[0]["user"].shape[0]
    out = np.zeros((nA, nB, c))
    for q in ps:
        h = q.halo
        a = np.moveaxis(q["user"], 0, -1)
        out[q.a0:q.a1, q.b0:q.b1] = a[h:h + q.a1 - q.a0, h:h + q.b1 - q.b0]
    return out.reshape(-1, c)
