"""C24: damping damps.

Fields of known spectral content are put on the grid point by point (spherical harmonics and Fourier modes, their gradients
and rotated gradients; rough noise; constants), the real post-step damping is applied once, and the result is compared with
the factor that the coefficient and the eigenvalue of the Laplacian prescribe, component by component and level by level.
Rayleigh friction is judged point by point from the local rate and the reference state."""
TECHNIQUE = 'runtime monitoring: spectral, conservation and decay oracles on the recorded state before and after the real damping step'
NOTE = 'Sphere and boxes, second and fourth order, scalar, divergence and vorticity coefficients independent (zero included); horizontal damping only (vertical diffusion, which throws in this version, is not reached).'
HARNESSES = [('ops', 'opt'), ('sim', 'opt')]
import random
import re
import numpy as np
from vp.sim import sim, drop
from vp import geo, conf, cs

R0 = 6.37122e6


def mode(P, k, r, c2=None):
    """A random eigenfunction of the Laplacian: values, tangential gradient (3-vectors), -eigenvalue."""
    if P.cs:
        l = r.choice([1, 2, 3, 4])
        q = np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(3)]))[0]
        c = q[0] + 1j * q[1]
        s = P.r @ c
        f = (s ** l).real
        g = (l * s[:, None] ** (l - 1) * c[None, :]).real if l > 1 else np.broadcast_to(c.real, (P.n, 3)).copy()
        g = g - l * f[:, None] * P.r
        return f, g / R0, l * (l + 1) / R0 ** 2
    Lx, Ly = float(k["Lx"]), float(k.get("Ly", 1e5))
    kx = 2 * np.pi / Lx * r.choice([0, 1, 1, 2])
    ky = 2 * np.pi / Ly * r.choice([-1, 0, 1, 2]) if k["grid"] == "xy" else 0.0
    if kx == 0 and ky == 0:
        kx = 2 * np.pi / Lx
    ph = r.random() * 6.28
    a = kx * P.x + ky * P.y + ph
    f = np.cos(a)
    return f, np.stack([-kx * np.sin(a), -ky * np.sin(a), 0 * a], -1), kx * kx + ky * ky


def rot(P, g):
    """k x vector."""
    return np.cross(P.r, g) if P.cs else np.stack([-g[:, 1], g[:, 0], 0 * g[:, 0]], -1)


def covariant(P, v):
    """Covariant components of tangential 3-vectors (n, m, 3)."""
    if not P.cs:
        return v[..., 0], v[..., 1]
    ua, ub = np.empty(v.shape[:2]), np.empty(v.shape[:2])
    for p in range(6):
        s = P.P == p
        ta, tb = cs.tangents(p, P.a[s], P.b[s])
        ua[s] = R0 * (v[s] * ta[:, None, :]).sum(-1)
        ub[s] = R0 * (v[s] * tb[:, None, :]).sum(-1)
    return ua, ub


def physical(P, ua, ub):
    return P.vector(ua, ub) / (R0 if P.cs else 1.0)


def dense(ctx, P, k, x):
    """Write an array (n, comp, lev) where loadd expects it."""
    npan = 6 if P.cs else 1
    nA = P.ne * P.order
    nB = nA if P.cs else int(k.get("ney", 1)) * P.order
    y = np.ascontiguousarray(x.reshape(npan, nA, nB, x.shape[1], x.shape[2]).transpose(0, 3, 1, 2, 4))
    f = ctx.newdir() + "/d.bin"
    y.astype("<f8").tofile(f)
    return "%d:%d:%d:%s" % (npan, nA, nB, f)


def sizes(k):
    sw = k.get("eq") == "sw"
    nl = 1 if sw else k["levels"]
    return sw, nl, 3 if sw else 5


def width(k):
    """Element width in the coordinate the coefficient is scaled with."""
    return (0.5 * np.pi if k["grid"] == "cs" else float(k["Lx"])) / k["ne"]


def hafter(ctx, exe, k, dt, node, redge, trac, P, np_, key):
    sw = k.get("eq") == "sw"
    o = "loadd:0:0:" + dense(ctx, P, k, node) + (";loadd:0:1:" + dense(ctx, P, k, redge) if redge is not None else "") + ";loadd:0:2:" + dense(ctx, P, k, trac)
    o += ";dump:x:0:stgGrl;hafter:0:1:2:%.17g;dump:y:1:st" % dt
    p = sim(ctx, exe, np_=np_, need=key, ops=o, tr="u:1,u:1", dt="60s", end="60s", **k)
    if not p:
        return None
    X = p.grid("x")
    if not np.array_equal(X.all("node"), node) or not np.array_equal(X.all("tracers"), trac):
        raise RuntimeError("the loaded fields did not arrive")
    return p, X, p.grid("y")


def area(P):
    """Relative quadrature weight of every (duplicated) point, from geometry alone."""
    w = cs.gll(P.order)[1]
    q = w[P.A % P.order] * (w[P.B % P.order])
    if not P.cs:
        return q
    for p in range(6):
        s = P.P == p
        ta, tb = cs.tangents(p, P.a[s], P.b[s])
        q[s] *= np.linalg.norm(np.cross(ta, tb), axis=-1)
    return q


def spectral(ctx, exe, k, r, key):
    """Eigenmodes in every component and level; returns the relative errors of the change."""
    P = geo.Points(k)
    sw, nl, nc = sizes(k)
    node = np.zeros((P.n, nc, nl)); redge = None if sw else np.zeros((P.n, nc, nl + 1)); trac = np.zeros((P.n, 2, nl))
    order = k["hvorder"]
    n = order // 2
    scale = 1.0
    lref = 0.5 * np.pi / 30 if P.cs else 1.0
    if order == 4:
        scale = (width(k) / lref) ** 3.2
    ex = {}
    size = np.zeros(nl)
    V = np.zeros((P.n, nl, 3)); D = np.zeros((P.n, nl, 3))
    for l in range(nl + 1):
        if l < nl:
            _, g, la = mode(P, k, r); _, h, lb = mode(P, k, r)
            h = rot(P, h)
            g = g / np.abs(g).max(); h = h / np.abs(h).max()
            if not P.cs and k["grid"] == "xz":
                g[:, 1:] = 0; h = 0 * h
            V[:, l] = 20 * g + 15 * h
            D[:, l] = -(20 * float(k["nud"]) * la ** n * g + 15 * float(k["nuv"]) * lb ** n * h)
            size[l] = 20 * max(float(k["nud"]), float(k["nuv"])) * max(la, lb) ** n
            for c in ([2] if sw else [2, 4]):
                f, _, la = mode(P, k, r)
                a = r.choice([1.0, 0.3]); b = r.choice([1.0, 5.0])
                node[:, c, l] = b + a * f
                ex[c, l] = (0, -float(k["nu"]) * la ** n * a * f)
            for c in range(2):
                f, _, la = mode(P, k, r)
                trac[:, c, l] = 200 + f      # far from zero: the filter for negative tracers acts before the copies are averaged
                ex[10 + c, l] = (0, -float(k["nu"]) * la ** n * f)
        if not sw:
            f, _, la = mode(P, k, r)
            redge[:, 3, l] = 2 * f
            ex[3, l] = (0, -float(k["nu"]) * la ** n * 2 * f)
    node[:, 0], node[:, 1] = covariant(P, V)
    big = max(max(np.abs(e[1]).max() for e in ex.values()), np.abs(D).max() / 20, 1e-300)
    dt = r.choice([0.1, 0.3]) / (big * scale)
    q = hafter(ctx, exe, k, dt, node, redge, trac, P, conf.nproc(r, k), key)
    if q is None:
        return None
    p, X, Y = q
    m = re.search(r"@REFLEN (\S+)", p.res.out)
    ctx.check(m and abs(float(m.group(1)) - lref) < 1e-12, "reference-length", "reference length %s" % (m and m.group(1)))
    err = {}
    W = area(P)
    ip = lambda a, b: (a * b * W.reshape((-1,) + (1,) * (a.ndim - 1))).sum()

    def judge(d, e, others, least=0.0):
        """(pointwise rms, projected, projection on other modes): all relative to the size of the expected change."""
        n2 = max(ip(e, e), 0.1 * least ** 2 * W.sum())
        if n2 == 0:
            return (np.abs(d).max(),) * 3
        pr = ip(d - e, e) / n2
        oth = max((abs(ip(d - e, g)) / np.sqrt(ip(g, g) * n2) for g in others), default=0)
        return (np.sqrt(ip(d - e, d - e) / n2), abs(pr), oth)
    d = physical(P, Y.all("node")[:, 0] - X.all("node")[:, 0], Y.all("node")[:, 1] - X.all("node")[:, 1])
    e = dt * scale * D
    worst = {}
    low = [mode(P, k, r) for _ in range(4)]
    for l in range(nl):
        v = judge(d[:, l], e[:, l], [m[1] for m in low if np.abs(m[1]).max() > 0] + [rot(P, m[1]) for m in low if k["grid"] != "xz"], dt * scale * size[l])
        worst["wind"] = tuple(max(a, b) for a, b in zip(worst.get("wind", (0, 0, 0)), v))
    for (c, l), (_, e) in ex.items():
        e = dt * scale * e
        if c >= 10:
            d = Y.all("tracers")[:, c - 10, l] - X.all("tracers")[:, c - 10, l]; nm = "tracer"
        elif c == 3:
            d = Y.all("redge")[:, 3, l] - X.all("redge")[:, 3, l]; nm = "w"
        else:
            d = Y.all("node")[:, c, l] - X.all("node")[:, c, l]; nm = "scalar%d" % c
        v = judge(d, e, [m[0] for m in low])

        worst[nm] = tuple(max(a, b) for a, b in zip(worst.get(nm, (0, 0, 0)), v))
    err.update(worst)
    ctx.count("modes_compared", len(ex) + 2 * nl)
    drop(p)
    return err



def lam1(order):
    """Largest eigenvalue of the assembled one-dimensional Laplacian on elements of unit width."""
    from numpy.polynomial import legendre as L
    x, w = cs.gll(order)
    V = np.stack([L.legval(x, np.eye(order)[i]) for i in range(order)], 1)
    dV = np.stack([L.legval(x, L.legder(np.eye(order)[i])) for i in range(order)], 1)
    Dm = 2 * dV @ np.linalg.inv(V)
    K = Dm.T @ np.diag(w / 2) @ Dm
    ne = 4
    N = ne * (order - 1)
    A, M = np.zeros((N, N)), np.zeros(N)
    for e in range(ne):
        ix = (e * (order - 1) + np.arange(order)) % N
        A[np.ix_(ix, ix)] += K
        M[ix] += w / 2
    return np.abs(np.linalg.eigvals(A / M[:, None])).max()


def rough(ctx, exe, k, r, key):
    """Noise, single-valued at shared points: integrals stay, variance and kinetic energy fall; constants stay."""
    P = geo.Points(k)
    sw, nl, nc = sizes(k)
    g = np.random.default_rng(r.randrange(10 ** 9))
    lab = np.unique(P.lab if k["grid"] != "xz" else P.lab[(P.A * (P.B.max() + 1))], return_inverse=True)[1]   # a slice does not vary across
    noise = lambda *sh: g.standard_normal((P.m,) + sh)[lab]
    walls = "1" in k.get("bc", "") or "2" in k.get("bc", "")
    const = r.random() < 0.25
    node = np.zeros((P.n, nc, nl)); redge = None if sw else np.zeros((P.n, nc, nl + 1)); trac = np.zeros((P.n, 2, nl))
    cv = [r.choice([0.5, 3.0, 1e3]) for _ in range(6)]
    if const:
        trac[:] = np.array(cv[:2])[None, :, None]
        for c in ([2] if sw else [2, 4]):
            node[:, c] = cv[c]
        if not sw:
            redge[:, 3] = cv[3]
        if not P.cs:
            node[:, 0] = 17.0
            node[:, 1] = 0.0 if k["grid"] == "xz" else -11.0
    else:
        trac[:] = 200 + noise(2, nl)
        for c in ([2] if sw else [2, 4]):
            node[:, c] = r.choice([0.0, 5.0]) + noise(nl)
        if not sw:
            redge[:, 3] = noise(nl + 1)
        v = 10 * noise(nl, 3)
        if k["grid"] == "xz":
            v[..., 1] = 0
        node[:, 0], node[:, 1] = covariant(P, v)
    o = k["hvorder"]
    if P.cs:
        h = R0 * 0.5 * np.pi / k["ne"]
        lm = 4.4 * lam1(P.order) / h ** 2      # the equiangular map shrinks widths by at most sqrt(2) and is not orthogonal
    else:
        lm = lam1(P.order) * ((k["ne"] / k["Lx"]) ** 2 + (0 if k["grid"] == "xz" else (k["ney"] / k["Ly"]) ** 2))
    scale = (width(k) / (0.5 * np.pi / 30 if P.cs else 1.0)) ** 3.2 if o == 4 else 1.0
    dt = r.choice([1.0, 0.5, 0.1]) / (max(float(k[q]) for q in ("nu", "nud", "nuv")) * scale * lm ** (o // 2))
    q = hafter(ctx, exe, k, dt, node, redge, trac, P, conf.nproc(r, k), key)
    if q is None:
        return None
    p, X, Y = q
    W = area(P)
    J, JE = X.all("jac").reshape(P.n, nl) if not sw else None, X.all("jacE").reshape(P.n, nl + 1) if not sw else None
    lst = []
    N0, N1 = X.all("node"), Y.all("node")
    lst.append(("H", N0[:, 2], N1[:, 2], None) if sw else ("theta", N0[:, 2], N1[:, 2], J))
    if not sw:
        lst += [("rho", N0[:, 4], N1[:, 4], J), ("w", X.all("redge")[:, 3], Y.all("redge")[:, 3], JE)]
    lst += [("tracer%d" % c, X.all("tracers")[:, c], Y.all("tracers")[:, c], J) for c in range(2)]
    flat = {}
    for nm, a, b, j in lst:
        w = W[:, None] if j is None else j * W[:, None] / (1 if not P.cs else (cs_jac(P)[:, None]))
        w = np.broadcast_to(w, a.shape)
        if nm == "w" and "2" in k.get("bc", ""):
            continue           # a no-slip wall holds w at zero there
        mag = (np.abs(a) * w).sum(0)
        e = (np.abs((b * w).sum(0) - (a * w).sum(0)) / mag).max()
        ctx.le(e, 2e-13, "%s integral" % nm, "integral:%s" % nm, "the level integral of %s changed by %g of its size" % (nm, e), p.cmd())
        if const:
            e = np.abs(b - a).max() / np.abs(a).max()
            ctx.le(e, 2e-12, "constant %s" % nm, "constant:%s" % nm, "constant %s changed by %g" % (nm, e), p.cmd())
        else:
            x = (b * b * w).sum(0) / (a * a * w).sum(0) - 1
            z = x.max()
            ctx.le(z, 1e-12, "growth of the variance of %s" % nm, "variance:%s" % nm, "the square integral of %s grew by %g in a step within the stable range" % (nm, z), p.cmd())
            m = (a * w).sum(0) / w.sum(0)
            x = (((b - m) ** 2 * w).sum(0) / ((a - m) ** 2 * w).sum(0))
            flat[nm] = x
    if const:
        if not P.cs and not walls:
            e = np.abs(N1[:, :2] - N0[:, :2]).max()
            ctx.le(e, 1e-10, "uniform wind", "constant:wind", "a uniform wind changed by %g" % e, p.cmd())
    else:
        a, b = physical(P, N0[:, 0], N0[:, 1]), physical(P, N1[:, 0], N1[:, 1])
        w = W[:, None, None]
        x = (b * b * w).sum((0, 2)) / (a * a * w).sum((0, 2))
        ctx.le(x.max() - 1, 1e-12, "growth of the kinetic energy", "kinetic-energy", "the kinetic energy of a level grew by %g in a step within the stable range" % (x.max() - 1), p.cmd())
        if k["grid"] == "xz":
            ctx.check(np.abs(N0[:, 1] - N1[:, 1]).max() < 1e-12, "xz:v", "the y velocity of a vertical slice changed", p.cmd())
        flat["wind"] = x
    ctx.count("rough_levels", len(lst) * nl)
    drop(p)
    return flat, const, dt


def cs_jac(P):
    out = np.empty(P.n)
    for p in range(6):
        s = P.P == p
        ta, tb = cs.tangents(p, P.a[s], P.b[s])
        out[s] = np.linalg.norm(np.cross(ta, tb), axis=-1)
    return out


def friction(ctx, exe, k, r, key):
    """Rayleigh friction point by point (no diffusion)."""
    P = geo.Points(k)
    sw, nl, nc = sizes(k)
    rate = r.choice([1e-4, 1e-3, 1e-2, 0.1])
    dt = r.choice([1.0, 30.0, 300.0, 3600.0])
    np_ = conf.nproc(r, k)
    q = sim(ctx, exe, np_=np_, need=key, ops="rand:0:%d:1e-3:add:1;dump:x:0:stgGrl;hafter:0:1:2:%.17g;dump:y:1:st" % (r.randrange(10 ** 6), dt),
            rayleigh=rate, dt="60s", end="60s", **k)
    if not q:
        return
    X, Y = q.grid("x"), q.grid("y")
    drop(q)
    ztop = float(k.get("ztop", 30000.0))
    for loc, st, rf, ry, zz in (("node", "node", "refnode", "rayn", "zlev"), ("redge", "redge", "refredge", "raye", "zint")):
        a, b, f, nu = X.all(st), Y.all(st), X.all(rf), X.all(ry)
        nu = nu.reshape(P.n, -1)
        z = X.all(zz).reshape(P.n, -1)
        want = np.where(z > 0.5 * ztop, rate * np.sin(0.5 * np.pi * (z - 0.5 * ztop) / (0.5 * ztop)) ** 2, 0)
        e = np.abs(nu - want).max() / rate
        ctx.le(e, 1e-9, "Rayleigh rate", "rate:%s" % loc, "the friction rate differs from the test case's by %g of its maximum" % e, q.cmd())
        hit = [0, 1, 2] if loc == "node" else [3]
        if k["grid"] == "xz" and 1 in hit:
            hit.remove(1)
        scales = np.abs(a).max((0, 2)) + np.abs(f).max((0, 2)) + 1e-300
        for c in (range(nc) if loc == "node" else [3]):
            if loc == "node" and c == 3:
                continue       # scratch
            if c not in hit:
                ctx.check(np.array_equal(a[:, c], b[:, c]), "untouched:%s%d" % (loc, c), "component %d (not subject to friction) changed by %g" % (c, np.abs(a[:, c] - b[:, c]).max()), q.cmd())
                continue
            zero = nu == 0
            ctx.check(np.array_equal(a[:, c][zero], b[:, c][zero]), "zero-rate:%s%d" % (loc, c), "component %d changed where the rate is zero" % c, q.cmd())
            x = want * dt
            hi, lo = 1 / (1 + x), np.exp(-x)
            d0, d1 = a[:, c] - f[:, c], b[:, c] - f[:, c]
            # d1 between lo*d0 and hi*d0
            up = np.maximum(hi * d0, lo * d0); dn = np.minimum(hi * d0, lo * d0)
            e = max((d1 - up).max(), (dn - d1).max()) / scales[c]
            ctx.le(e, 1e-12, "friction", "friction:%s%d" % (loc, c), "component %d: the departure from the reference is not reduced by a factor between exp(-x) and 1/(1+x) (off by %g of its size; x up to %g)" % (c, e, x.max()), q.cmd())
            ctx.count("friction_points", int((~zero).sum()))
            ctx.case("friction:%s:c%d:x%d" % (k["grid"], c, int(np.floor(np.log10(x.max())))))
    ctx.check(np.array_equal(X.all("tracers"), Y.all("tracers")), "friction:tracers", "friction changed tracers", q.cmd())


def nothing(ctx, exe, k, r, key):
    """Zero coefficients: an exact copy."""
    q = sim(ctx, exe, np_=conf.nproc(r, k), need=key, ops="rand:0:7:1e-3:add:1;dump:x:0:st;hafter:0:1:2:%g;dump:y:1:st" % r.choice([1.0, 100.0, 1e4]), tr="r:1,n:1", dt="60s", end="60s", **k)
    if not q:
        return
    X, Y = q.grid("x"), q.grid("y")
    drop(q)
    for n in ("node", "tracers") + (() if k.get("eq") == "sw" else ("redge",)):
        ctx.check(np.array_equal(X.all(n), Y.all(n)), "nothing:%s" % n, "%s changed although every coefficient is zero" % n, q.cmd())
    ctx.case("nothing:" + k["grid"])


def run(ctx):
    ctx.rule = "every component and level loaded with its own eigenmode, noise or constant on random grids, orders, coefficients; Rayleigh rates 1e-4..0.1 with steps 1..3600 s; a case is one kind of test on one configuration"
    exe = ctx.harness("ops")
    r = ctx.rng
    n = 96 if ctx.thorough else 28
    jobs = []
    for i in range(n):
        g = ["cs", "xy", "cs_sw", "xz", "xy", "cs"][i % 6]
        o = r.choice([3, 4, 5])
        k = dict(grid="cs" if g[:2] == "cs" else g, order=o, hvorder=r.choice([2, 4]), seed=r.randrange(10 ** 6))
        nus = [r.choice([0, 0.3, 1.0, 2.0]) for _ in range(3)]
        if max(nus[:2] if g == "xz" else nus) == 0:
            nus[r.randrange(2 if g == "xz" else 3)] = 1.0
        for q, v in zip(("nu", "nud", "nuv"), nus):
            k[q] = v * 1e5
        if g == "cs_sw":
            k["eq"] = "sw"
        else:
            k.update(levels=4, vmethod="NONE", hmethod=r.choice(["V1", "V2"]) if o == 4 else "V1")
        if not g.startswith("cs"):
            k.update(Lx=6e5, Ly=5e5)
        jobs.append(("spectral", g, dict(k, ne=8, topo=0, **({"ney": 8} if g == "xy" else {}))))
        k2 = dict(k, ne=r.choice([2, 4]) if g[:2] == "cs" else r.choice([4, 6]), topo=r.choice([0, 800]), seed=r.randrange(10 ** 6))
        if g == "xy":
            k2["ney"] = r.choice([3, 4])
            k2["bc"] = r.choice(["0,0,0,0", "0,0,0,0", "1,1,1,1", "0,2,0,1", "0,1,0,1"])
        if g[:2] != "cs" and r.random() < 0.4:
            k2["patches"] = 2
        jobs.append(("rough", g, k2))
        if g != "cs_sw":
            jobs.append(("friction", g, {a: b for a, b in dict(k2, tr="r:1,n:1", ztop=3e4).items() if a not in ("nu", "nud", "nuv", "hvorder")}))
        if i % 3 == 0:
            jobs.append(("nothing", g, {a: b for a, b in k2.items() if a not in ("nu", "nud", "nuv")}))

    def one(j):
        kind, g, k = j
        q = random.Random(k["seed"])
        key = "C24:%s:%s" % (kind, g)
        if kind == "spectral":
            e = spectral(ctx, exe, k, q, key)
            for nm, (point, proj, other) in (e or {}).items():
                who = "wind" if nm == "wind" else "scalar"
                if (float(k["nud"]) + float(k["nuv"]) if nm == "wind" else float(k["nu"])) == 0:
                    ctx.le(point, 1e-12, "change with zero coefficient", "zero-coefficient:" + nm, "%s changed by %g although its coefficient is zero" % (nm, point), str(k))
                    continue
                b = {3: 2e-2, 4: 1e-3, 5: 1e-5}[k["order"]]
                ctx.le(proj, b, "projected factor (order %d, %s)" % (k["order"], who), "factor:" + nm, "the mode's damping differs by %g from coefficient x eigenvalue (%s)" % (proj, nm), str(k))
                ctx.le(other, b, "change of other modes (order %d, %s)" % (k["order"], who), "other-modes:" + nm, "damping one mode changed another by %g of it (%s)" % (other, nm), str(k))
                if k["hvorder"] == 2:
                    b = {3: 0.35, 4: 0.05, 5: 5e-3}[k["order"]]
                    ctx.le(point, b, "pointwise factor (order %d, %s)" % (k["order"], who), "pointwise:" + nm, "the change differs (rms) by %g from coefficient x eigenvalue x field (%s)" % (point, nm), str(k))
        elif kind == "rough":
            e = rough(ctx, exe, k, q, key)
            for nm, x in (e[0] if e and not e[1] else {}).items():
                if (max(float(k["nud"]), float(k["nuv"]) * (g != "xz")) if nm == "wind" else float(k["nu"])) > 0:
                    ctx.le(x.max(), 1 - 1e-6, "variance left", "no-damping:" + nm, "the noise in %s is not damped (factor %.9f)" % (nm, x.max()), str(k))
        elif kind == "friction":
            friction(ctx, exe, k, q, key)
        else:
            nothing(ctx, exe, k, q, key)
        ctx.case(key + ":o%d" % k["order"] + (":h%d:%s" % (k["hvorder"], "".join("01"[float(k[q]) > 0] for q in ("nu", "nud", "nuv"))) if "nu" in k else ""), sample=k)
    ctx.pmap(one, jobs)
