"""C11: grid geometry.

Every geometric array the model holds (node positions, edges, longitude/latitude, topography slope, heights, 2D and 3D
metric, Jacobians, derivative of height, area and volume weights, Coriolis parameter, vertical nodes and weights) is
recorded from every patch on every process and compared point by point with values computed independently: positions
from 3-vectors on the sphere, metric by inverting the inner products of the tangent vectors of the terrain-following
map, volume weights from quadrature weights, exact total area and volume."""
TECHNIQUE = 'runtime monitoring: every geometric array recorded on every patch and compared point by point with an independent construction from tangent vectors'
NOTE = 'Random resolutions, orders, levels, stretchings, patch divisions, process counts, topographies and planetary constants; the Cartesian beta plane is compared for boxes whose southern side is at y=0 only.'
HARNESSES = [('sim', 'opt')]
import numpy as np
from vp import cs, geo, conf
from vp.sim import sim, drop


def stretch(kind, e):
    e = np.asarray(e, float)
    if kind == "cubic":
        return 0.1 * e + 0.8 * e * e + 0.1 * e ** 3
    if kind == "pwlinear":
        return np.where(e < 2 / 3 - 1e-14, 0.5 * e, 2 * (e - 2 / 3) + 1 / 3)
    return e


def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def vertical(k):
    """eta of levels and interfaces, and quadrature weights, from the definition of the vertical grid."""
    if k.get("eq") == "sw":
        return None
    L, p = int(k["levels"]), int(k["vorder"])
    if k.get("vdisc") == "FV":
        p = 1
    n = L // p
    e = stretch(k.get("stretch", "uniform"), np.arange(n + 1) / n)
    gx, gw = gauss(p)
    lx, lw = cs.gll(p + 1)
    lx, lw = (lx + 1) / 2, lw / 2
    d = np.diff(e)
    lev = (e[:-1, None] + gx * d[:, None]).ravel()
    wl = (gw * d[:, None]).ravel()
    itf = np.concatenate([(e[:-1, None] + lx[:-1] * d[:, None]).ravel(), [1.0]])
    wi = np.zeros(L + 1)
    for a in range(n):
        wi[a * p:a * p + p + 1] += lw * d[a]
    return lev, itf, wl, wi


def heights(k, eta, zs, zt):
    """z, dz/d(zs), dz/d(eta) of the terrain-following coordinate; zs (n,1), eta (k)."""
    if k.get("grid", "cs") == "cs":
        return zs + (zt - zs) * eta, (1 - eta) + 0 * zs, (zt - zs) + 0 * eta
    c, s = np.cos(np.pi * eta / 2), np.sin(np.pi * eta / 2)
    q = c ** 6 + 0.25 * eta * s
    dq = -3 * np.pi * c ** 5 * s + 0.25 * s + np.pi / 8 * eta * c
    f = (1 - eta) * q
    return zt * eta + f * zs, f + 0 * zs, zt + ((1 - eta) * dq - q) * zs


def axes(k):
    order = int(k["order"])
    if k.get("grid", "cs") == "cs":
        return cs.panel_nodes(int(k["ne"]), order) * 2
    a = cs.axis_nodes(int(k["ne"]), order, float(k.get("x0", 0)), float(k.get("x0", 0)) + float(k["Lx"]))
    b = cs.axis_nodes(int(k.get("ney", 1)), order, float(k.get("y0", 0)), float(k.get("y0", 0)) + float(k["Ly"]))
    return a + b


def rel(a, b, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    s = np.abs(b).max() if scale is None else scale
    d = np.abs(a - b).max()
    return float(d / s) if s > 0 else float(d)


def geometry(ctx, k, x):
    key = conf.label(k).split("/")[0] + ("/topo" if k.get("topo") else "")
    cmd = x.cmd()
    G = x.grid(0)
    pt = geo.Points(k)
    sw = k.get("eq") == "sw"
    R, Om, zt = float(k.get("radius", 6.37122e6)), float(k.get("omega", 7.29212e-5)), (1.0 if sw else float(k.get("ztop", 10000)))
    al, wa, be, wb = axes(k)
    nb = len(be)

    def eq(name, want, tol, what, scale=None):
        got = G.all(name)
        ctx.count("values", int(np.size(got)))
        ctx.le(rel(got, want, scale), tol, what, "%s:%s" % (name, key), "array %s; %s" % (name, cmd), cmd)

    # nodes and edges of every patch
    for p in G.patches:
        h = p.halo
        for nm, g, lo, hi in (("anode", al, p.a0, p.a1), ("bnode", be, p.b0, p.b1)):
            ctx.le(rel(p[nm][h:h + hi - lo], g[lo:hi], g[-1] - g[0]), 1e-13, "node positions", "nodes:" + key, "%s of patch %d; %s" % (nm, p.ix, cmd), cmd)
    if pt.cs:
        lon, lat = cs.lonlat(pt.r)
        got = cs.xyz(G.all("lon"), G.all("lat"))
        ctx.le(rel(got, pt.r), 1e-13, "longitude and latitude", "lonlat:" + key, cmd, cmd)
        ctx.check(bool((G.all("lon") > -1e-12).all() and (G.all("lon") < 2 * np.pi + 1e-12).all() and (np.abs(G.all("lat")) <= np.pi / 2 + 1e-12).all()), "lonrange:" + key, "longitude in [0, 2pi), latitude in [-pi/2, pi/2]; " + cmd, cmd)
        a0 = float(k.get("alpha", 0)) * np.pi / 180
        eq("cor", 2 * Om * (np.sin(lat) * np.cos(a0) - np.cos(lon) * np.cos(lat) * np.sin(a0)), 1e-12, "Coriolis parameter", max(2 * Om, 1e-30))
        ta, tb = np.empty((pt.n, 3)), np.empty((pt.n, 3))
        for p in range(6):
            s = pt.P == p
            ta[s], tb[s] = cs.tangents(p, pt.a[s], pt.b[s])
        ta, tb, up = R * ta, R * tb, pt.r
    else:
        eq("lon", pt.x, 1e-12, "x", abs(al).max()); eq("lat", pt.y, 1e-12, "y", abs(be).max())
        rl = float(k.get("reflat", 0))
        f = 2 * Om * np.sin(rl) + 2 * Om * np.cos(rl) / R * (pt.y - 0.5 * float(k["Ly"]))
        if k.get("grid") == "xz":
            f = 0 * f
        if not float(k.get("y0", 0)):
            eq("cor", f, 1e-12, "Coriolis parameter", max(np.abs(f).max(), 1e-30))
        o = np.zeros(pt.n)
        ta, tb, up = np.stack([o + 1, o, o], -1), np.stack([o, o + 1, o], -1), np.stack([o, o, o + 1], -1)
    # two-dimensional metric from inner products of tangents
    g11, g12, g22 = (ta * ta).sum(-1), (ta * tb).sum(-1), (tb * tb).sum(-1)
    det = g11 * g22 - g12 * g12
    J2 = np.sqrt(det)
    eq("jac2d", J2, 1e-12, "2D Jacobian")
    eq("cov2a", np.stack([g11, g12], -1), 1e-12, "2D covariant metric"); eq("cov2b", np.stack([g12, g22], -1), 1e-12, "2D covariant metric")
    eq("cm2a", np.stack([g22, -g12], -1) / det[:, None], 1e-12, "2D contravariant metric"); eq("cm2b", np.stack([-g12, g11], -1) / det[:, None], 1e-12, "2D contravariant metric")
    # topography slope: derivative of the element polynomial, averaged over the copies of each point
    zs = G.all("topo")
    order = pt.order
    gx, _ = cs.gll(order)
    D = cs.dlagrange(gx, gx)
    dza, dzb = np.empty(pt.n), np.empty(pt.n)
    o0 = 0
    for p in sorted(G.panels("topo")):
        Z = G.panels("topo")[p]
        nA, nB = Z.shape
        da, db = (al[order - 1] - al[0]), (be[order - 1] - be[0])
        E = Z.reshape(nA // order, order, nB // order, order)
        dA = np.einsum("ij,ajbn->aibn", D, E) * 2 / da
        dB = np.einsum("ij,anbj->anbi", D, E) * 2 / db
        m = nA * nB
        dza[o0:o0 + m], dzb[o0:o0 + m] = dA.reshape(-1), dB.reshape(-1)
        o0 += m
    if pt.cs:
        v = pt.mean(pt.vector(dza, dzb))          # physical slope (unit radius)
        dza, dzb = (v * ta / R).sum(-1), (v * tb / R).sum(-1)
    else:
        m = pt.mean(np.stack([dza, dzb], -1))
        dza, dzb = m[:, 0], m[:, 1]
    sc = max(np.abs(dza).max(), np.abs(dzb).max(), 1e-30 if k.get("topo") else 1.0)
    eq("topod", np.stack([dza, dzb], -1), 1e-10, "topography slope", sc)
    ctx.le(float(pt.spread(zs)) / max(np.abs(zs).max(), 1), 1e-12, "topography single-valued", "toposv:" + key, cmd, cmd)
    if k.get("topo"):
        ctx.check(float(np.abs(zs).max()) > 10, "topoflat:" + key, "the topography of the test case is there; " + cmd, cmd)
    # vertical
    g = G.g
    if sw:
        lev, itf, wl, wi = g["retalev"], g["retaint"], g["wlev"], g["wint"]
        ctx.check(len(lev) == 1 and len(itf) == 2, "swlev", "one level, two interfaces; " + cmd, cmd)
        ctx.le(max(abs(wl.sum() - 1), abs(wi.sum() - 1)), 1e-13, "vertical weights add to 1", "swweights", cmd, cmd)
        zs3, dza, dzb = np.zeros((pt.n, 1)), 0 * dza, 0 * dzb
    else:
        lev, itf, wl, wi = vertical(k)
        for nm, want in (("retalev", lev), ("retaint", itf), ("wlev", wl), ("wint", wi)):
            ctx.le(rel(g[nm][:len(want)], want), 1e-13, "vertical nodes and weights", "%s:%s/%s" % (nm, k.get("stretch", "uniform"), k.get("vdisc", "FE")), cmd, cmd)
        zs3 = zs[:, None]
    for suf, eta, wk, names in (("n", lev, wl, ("zlev", "drn", "jac", "area", "cma", "cmb", "cmx")), ("e", itf, wi, ("zint", "dre", "jacE", "areaE", "cmaE", "cmbE", "cmxE"))):
        z, dzs, dxi = heights(k, eta, zs3, zt)
        if not sw:
            eq(names[0], z, 1e-12, "heights", zt)
        za, zb = dzs * dza[:, None], dzs * dzb[:, None]
        dr = np.stack([za, zb, dxi], -1)
        for c in range(3):
            got, w = G.all(names[1])[..., c], dr[..., c]
            ctx.le(rel(got, w, max(np.abs(w).max(), 1e-9 * zt)), 1e-10, "derivative of height", "%s%d:%s" % (names[1], c, key), cmd, cmd)
        J = J2[:, None] * dxi
        eq(names[2], J, 1e-12, "Jacobian")
        W = np.multiply.outer(wa, wb).reshape(-1)
        if pt.cs:
            W = np.tile(W, 6)
        vol = J * W[:, None] * wk
        eq(names[3], vol, 1e-11, "volume weights")
        ctx.check(bool((G.all(names[3]) > 0).all()), "positive:" + key, "every weight is positive; " + cmd, cmd)
        # contravariant metric: inverse of the Gram matrix of the tangents of the terrain-following map
        T = [ta[:, None, :] + za[..., None] * up[:, None, :], tb[:, None, :] + zb[..., None] * up[:, None, :], dxi[..., None] * up[:, None, :]]
        gm = np.stack([np.stack([(T[i] * T[j]).sum(-1) for j in range(3)], -1) for i in range(3)], -2)
        # scale to unit diagonal for a well conditioned inverse
        d = np.sqrt(np.stack([gm[..., i, i] for i in range(3)], -1))
        inv = np.linalg.inv(gm / d[..., :, None] / d[..., None, :])
        for i, nm in enumerate(names[4:7]):
            got = G.all(nm)
            for j in range(3):
                gs = got[..., j] * d[..., i] * d[..., j]
                ctx.le(rel(gs, inv[..., i, j], 1.0), 1e-9, "contravariant metric", "%s%d:%s" % (nm, j, key), cmd, cmd)
        # total area / volume
        tot = G.all(names[3]).sum()
        if pt.cs:
            ar = (J2 * W).sum()
            q = abs(ar / (4 * np.pi * R * R) - 1)
            b = {3: 2e-3, 4: 2e-5, 5: 5e-7, 6: 1e-8}.get(order, 2e-2) * (2.0 / int(k["ne"])) ** (2 * order - 2) * 4
            ctx.le(q, max(b, 1e-12), "total area vs 4 pi R^2", "area:%d" % order, cmd, cmd)
            want = (J2 * W * (zt - zs3[:, 0])).sum()
            ctx.le(abs(tot / want - 1), 1e-12, "total volume", "volume:" + key, cmd, cmd)
        elif not k.get("topo"):
            ctx.le(abs(tot / (float(k["Lx"]) * float(k["Ly"]) * zt) - 1), 1e-12, "total volume of the box", "volume:" + key, cmd, cmd)
        else:
            want = (W * (zt - zs)).sum()
            ctx.le(abs(tot / want - 1), 0.05 * np.abs(zs).max() / zt + 1e-12, "total volume of the box", "volume:" + key, cmd, cmd)
    if not sw:
        zl, zi = G.all("zlev"), G.all("zint")
        ctx.check(bool((np.diff(zi, axis=1) > 0).all() and (np.diff(zl, axis=1) > 0).all() and (zl[:, 0] > zi[:, 0]).all() and (zl[:, -1] < zi[:, -1]).all()), "monotone:" + key, "levels and interfaces run upward and lie between ground and top; " + cmd, cmd)
        ctx.le(max(np.abs(zi[:, 0] - zs).max(), np.abs(zi[:, -1] - zt).max()) / zt, 1e-13, "lowest interface at the ground, highest at the top", "ends:" + key, cmd, cmd)
        for nm in ("zlev", "zint", "jac", "jacE"):
            v = G.all(nm)
            if pt.cs or nm[0] == "z":
                ctx.le(float(pt.spread(v).max() / np.abs(v).max()), 1e-12, "%s equal on shared points" % nm, "shared:%s:%s" % (nm, key), cmd, cmd)
    ctx.le(rel(g["dxbasis"], cs.dlagrange((gx + 1) / 2, (gx + 1) / 2).T), 1e-11, "derivatives of the element basis", "dxbasis:%d" % order, cmd, cmd) if "dxbasis" in g else None


def run(ctx):
    ctx.rule = "one evaluation = one grid (configuration and number of processes) whose every geometric array was compared at every point"
    exe = ctx.harness("sim")
    r = ctx.rng
    jobs = []
    for i in range(400 if ctx.thorough else 60):
        g = conf.KINDS[i % len(conf.KINDS)]
        k = conf.make(r, g, steps=1, topo=(i // 8 + i) % 2, explicit=False, visc=False, walls=(i % 5 == 0))
        k.update(hmethod="V1", scheme="strang", vmethod="NONE" if g != "cs_sw" else "V1")
        k["order"] = r.choice([3, 4, 5, 6])
        if g != "cs_sw":
            q = r.randrange(4)
            if q == 0:
                k.update(levels=12, vorder=r.choice([2, 3, 4]), vdisc="FE")
            elif q == 1:
                k.update(levels=r.choice([6, 12]), vorder=2, vdisc="FV")
            else:
                k.update(levels=r.randrange(5, 12), vorder=1, vdisc="FE")
            k["stretch"] = r.choice(["uniform", "uniform", "cubic", "pwlinear"])
            k["ztop"] = r.choice([10000, 20000, 5000])
        if k.get("grid") == "cs":
            k["ne"] = r.choice([2, 3, 4, 5, 6]) if not k.get("patches") else r.choice([2, 4, 6])
            if k["ne"] % 3 == 0 and r.random() < 0.3:
                k["patches"] = 54
            k["radius"] = r.choice([6.37122e6, 6.37122e6 / 120, 2.5e7])
            k["alpha"] = r.choice([0, 30, 90])
        else:
            k["Ly"] = 75e3 * k["ney"]
        k["omega"] = r.choice([7.29212e-5, 0.0, 1e-3])
        k["reflat"] = r.choice([0, 0.7, -0.4])
        k["dt"] = k["end"] = "1u"
        jobs.append((k, conf.nproc(r, k)))

    def one(job):
        k, np_ = job
        x = sim(ctx, exe, np_=np_, need="C11:" + conf.label(k), what="gGst", every=1000, **k)
        if x is None:
            return
        ctx.case((str(sorted(k.items())), np_), sample=dict(config=k, procs=np_))
        geometry(ctx, k, x)
        drop(x)
    ctx.pmap(one, jobs, 7)
