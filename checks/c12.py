"""C12: cubed-sphere coordinate and vector transforms.

The transform functions are called on many points (panels, edges, corners, poles, beyond the panel) and every result
is compared with an independent description of the cubed sphere: a panel is three unit vectors, vectors live in 3-D."""
TECHNIQUE = 'runtime monitoring: every call of the transform functions over dense, boundary and random points compared with an independent 3-D model of the cubed sphere'
NOTE = 'All 22 transforms and adjacency functions on all panels and panel pairs, including edges, corners, poles, points within 1e-10 of them and halo points outside the panel. Bound 1e-11 relative, widened by eps/distance within 1e-3 of the poles.'
HARNESSES = [('cstrans', 'opt')]
import itertools
import numpy as np
from vp import cs

TOL = 1e-11
EPS = 2.3e-16
R_, T_, L_, B_, TR, TL, BL, BR = range(8)
MID, UNR = -1, -2
OPP = {R_: L_, L_: R_, T_: B_, B_: T_, TR: BL, BL: TR, TL: BR, BR: TL, MID: MID, UNR: UNR}


def call(ctx, exe, rows):
    """rows (n, <=10) -> (n, 8)."""
    a = np.zeros((len(rows), 10))
    a[:, :rows.shape[1]] = rows
    d = ctx.newdir()
    a.tofile(d + "/i")
    r = ctx.run([exe, d + "/i", d + "/o"])
    if not ctx.need(r, "C12", "transform batch"):
        return None
    return np.fromfile(d + "/o").reshape(-1, 8)


def points(ctx, n):
    """(alpha, beta) within the closed panel, with the special ones first."""
    r = np.random.default_rng(ctx.seed * 7919 + 12)
    q = np.pi / 4
    e = [0.0, 1e-17, -1e-17, 1e-15, -1e-15, 1e-12, -1e-12, 1e-8, -1e-8, 1e-4, -1e-4, 0.3, -0.3, q, -q, q - 1e-15, 1e-15 - q, q - 1e-9, 1e-9 - q]
    s = np.array(list(itertools.product(e, e)))
    gl = cs.panel_nodes(4, 4)[0]
    s = np.vstack([s, np.array(list(itertools.product(gl, gl)))])
    u = r.uniform(-q, q, (n, 2))
    c = 10.0 ** r.uniform(-9, 0, (n // 2, 1)) * r.normal(size=(n // 2, 2)) * 0.3
    c = np.clip(c, -q, q)
    return np.vstack([s, u, c])


def frame(p, a, b):
    """Unit east and north vectors at the point, by the longitude the model itself assigns (poles included)."""
    return cs.pos(p, a, b), cs.tangents(p, a, b)


def side_of(p, v):
    """Direction on panel p of global direction v (unit axis)."""
    ex, ey, ez = cs.BASIS[p]
    for d, w in ((R_, ex), (T_, ey), (L_, -ex), (B_, -ey)):
        if np.dot(v, w) > 0.5:
            return d
    return MID if np.dot(v, ez) > 0.5 else UNR


def run(ctx):
    ctx.rule = "one evaluation = one call of a transform compared with the independent model; distinct counts (function, panel(s), point class)"
    exe = ctx.harness("cstrans", with_lib=True)
    P = points(ctx, 20000 if ctx.thorough else 2500)
    a0, b0 = P[:, 0], P[:, 1]
    n = len(P)
    rng = np.random.default_rng(ctx.seed + 99)
    cls = np.where(np.maximum(abs(a0), abs(b0)) > np.pi / 4 - 1e-8, 1, np.where(np.hypot(a0, b0) < 1e-3, 2, 0))
    kinds = ("inside", "edge", "centre")

    def verdict(fn, err, tol, desc, extra=""):
        err = np.asarray(err, float)
        tol = np.broadcast_to(tol, err.shape)
        rel = np.where(np.isfinite(err), err / tol, np.inf)
        i = int(np.argmax(rel))
        ctx.margin(fn, rel[i], 1.0)
        if not rel[i] <= 1.0:
            ctx.violation("%s:%s" % (fn, extra), "%s: error %.3g over %.3g at %s" % (fn, err[i], tol[i], desc(i)), desc(i))
        ctx.evals += len(err)

    for p in range(6):
        for c in range(3):
            for f in range(10):
                ctx.distinct.add("%d/%d/%s" % (f, p, kinds[c]))
        X, Y = np.tan(a0), np.tan(b0)
        one = np.ones(n)
        at = lambda i: "panel %d alpha %.17g beta %.17g" % (p, a0[i], b0[i])
        r = cs.pos(p, a0, b0)
        rx = (cs.BASIS[p][2] + X[:, None] * cs.BASIS[p][0] + Y[:, None] * cs.BASIS[p][1]) / np.sqrt(1 + X * X + Y * Y)[:, None]
        o = call(ctx, exe, np.stack([0 * one, X, Y, p * one], 1))
        if o is None:
            return
        verdict("XYZFromXYP", np.abs(o[:, :3] - rx).max(1), 1e-13, at, str(p))
        for fn, nm, u, v in ((2, "RLLFromXYP", X, Y), (3, "RLLFromABP", a0, b0)):
            o = call(ctx, exe, np.stack([fn * one, u, v, p * one], 1))
            lon, lat = o[:, 0], o[:, 1]
            verdict(nm, np.abs(cs.xyz(lon, lat) - r).max(1), 1e-13, at, str(p))
            verdict(nm + " range", np.where((lon >= 0) & (lon <= 2 * np.pi) & (abs(lat) <= np.pi / 2), 0, 1), 0.5, at, str(p))
            if fn == 2:
                mlon, mlat = lon, lat
        # back: the same point, on a panel that contains it
        for fn, nm in ((4, "XYPFromRLL"), (5, "ABPFromRLL")):
            o = call(ctx, exe, np.stack([fn * one, mlon, mlat], 1))
            q = o[:, 2].astype(int)
            ok = (q >= 0) & (q < 6)
            verdict(nm + " panel", np.where(ok, 0, 1), 0.5, at, str(p))
            if not ok.all():
                continue
            u, v = (np.arctan(o[:, 0]), np.arctan(o[:, 1])) if fn == 4 else (o[:, 0], o[:, 1])
            back = np.empty((n, 3))
            for w in range(6):
                back[q == w] = cs.pos(w, u[q == w], v[q == w])
            verdict(nm, np.abs(back - r).max(1), 1e-13, at, str(p))
            verdict(nm + " inside", np.maximum(abs(u), abs(v)), np.pi / 4 + 1e-13, at, str(p))
            inn = cls != 1
            verdict(nm + " same", np.where(inn & ((q != p) | (np.maximum(abs(u - a0), abs(v - b0)) > 1e-12)), 1, 0), 0.5, at, str(p))
        # vectors in the lon-lat frame the model assigns to the point
        E = np.stack([-np.sin(mlon), np.cos(mlon), 0 * mlon], 1)
        N = np.stack([-np.sin(mlat) * np.cos(mlon), -np.sin(mlat) * np.sin(mlon), np.cos(mlat)], 1)
        ta, tb = cs.tangents(p, a0, b0)
        U, V = rng.normal(size=n), rng.normal(size=n)
        W = U[:, None] * E + V[:, None] * N
        # distance from a pole limits what a formula in latitude can resolve
        dist = np.hypot(X, Y) if p > 3 else one
        near = (p > 3) & (dist < 1e-3)
        tol = np.where(near & (dist > 1e-13), np.minimum(1.0, 40 * EPS / np.maximum(dist, 1e-300)) + TOL, TOL)
        # within 1e-11 of a pole, but not at it to rounding, the longitude has no accurate digits
        skip = near & (np.maximum(abs(X), abs(Y)) > 2e-16) & (dist < 1e-11)
        def chk(nm, err, key):
            verdict(nm, np.where(skip, 0, err), tol, at, key)
        # covector: components along the tangents
        o = call(ctx, exe, np.stack([8 * one, X, Y, p * one, U, V], 1))
        ca, cb = (W * ta).sum(1), (W * tb).sum(1)
        sc = np.hypot(U, V) * 2
        chk("CoVecTransABPFromRLL", np.maximum(abs(o[:, 0] - ca), abs(o[:, 1] - cb)) / sc, str(p))
        o = call(ctx, exe, np.stack([9 * one, X, Y, p * one, ca, cb], 1))
        chk("CoVecTransRLLFromABP", np.maximum(abs(o[:, 0] - U), abs(o[:, 1] - V)) / sc, str(p))
        # vector: contravariant components
        g11, g12, g22 = (ta * ta).sum(1), (ta * tb).sum(1), (tb * tb).sum(1)
        det = g11 * g22 - g12 ** 2
        va, vb = (g22 * ca - g12 * cb) / det, (g11 * cb - g12 * ca) / det
        o = call(ctx, exe, np.stack([6 * one, X, Y, p * one, U, V], 1))
        chk("VecTransABPFromRLL", np.maximum(abs(o[:, 0] - va), abs(o[:, 1] - vb)) / sc, str(p))
        o = call(ctx, exe, np.stack([7 * one, X, Y, p * one, va, vb], 1))
        chk("VecTransRLLFromABP", np.maximum(abs(o[:, 0] - U), abs(o[:, 1] - V)) / sc, str(p))
        ctx.samples.append(dict(panel=p, points=n, near_pole=int(near.sum()))) if p in (0, 4) else None

    # between panels: points seen on both (up to 15 degrees outside either)
    for p, q in itertools.product(range(6), range(6)):
        adj = abs(np.dot(cs.BASIS[p][2], cs.BASIS[q][2])) < 0.5
        al = np.concatenate([a0, a0 * 1.6])
        be = np.concatenate([b0, b0 * 1.6])
        r = cs.pos(p, al, be)
        ex, ey, ez = cs.BASIS[q]
        z = r @ ez
        use = z > 0.35
        al, be, r, z = al[use], be[use], r[use], z[use]
        if len(al) == 0:
            o = call(ctx, exe, np.array([[1, 0.1, 0.2, p, q]]))
            ctx.check(o[0, 7] == 1, "XYPFromXYP:back", "a point on the far side is converted: panels %d %d" % (p, q))
            continue
        u, v = (r @ ex) / z, (r @ ey) / z
        m = len(al)
        one = np.ones(m)
        at = lambda i: "panels %d->%d alpha %.17g beta %.17g" % (p, q, al[i], be[i])
        o = call(ctx, exe, np.stack([1 * one, np.tan(al), np.tan(be), p * one, q * one], 1))
        verdict("XYPFromXYP", np.maximum(abs(o[:, 0] - u), abs(o[:, 1] - v)) / (1 + np.hypot(u, v)), 1e-13, at, "%d-%d" % (p, q))
        ctx.distinct.add("1/%d-%d" % (p, q))
        if not adj:
            continue
        ta, tb = cs.tangents(p, al, be)
        sa, sb = cs.tangents(q, np.arctan(u), np.arctan(v))
        W = rng.normal(size=(m, 1)) * ta + rng.normal(size=(m, 1)) * tb
        def con(W, s, t):
            g11, g12, g22 = (s * s).sum(1), (s * t).sum(1), (t * t).sum(1)
            d = g11 * g22 - g12 ** 2
            x, y = (W * s).sum(1), (W * t).sum(1)
            return (g22 * x - g12 * y) / d, (g11 * y - g12 * x) / d
        sc = np.sqrt((W * W).sum(1))
        # lines on which the closed form divides by zero lie far outside either panel's edge region
        k = np.maximum(abs(np.arctan(u)), abs(np.arctan(v))) > 0.55
        for fn, nm, i, e in ((10, "VecPanelTrans", con(W, ta, tb), con(W, sa, sb)), (11, "CoVecPanelTrans", ((W * ta).sum(1), (W * tb).sum(1)), ((W * sa).sum(1), (W * sb).sum(1)))):
            o = call(ctx, exe, np.stack([fn * one, p * one, q * one, 0 * one, i[0], i[1], u, v], 1))
            err = np.maximum(abs(o[:, 0] - e[0]), abs(o[:, 1] - e[1])) / sc
            verdict(nm, np.where(k, err, 0), 1e-11, at, "%d-%d" % (p, q))
            ctx.distinct.add("%d/%d-%d" % (fn, p, q))

    # angles and areas
    k = 4000
    x, y = np.tan(rng.uniform(-1.2, 1.2, (2, k)))
    ta, tb = cs.tangents(0, np.arctan(x), np.arctan(y))
    ang = np.arccos((ta * tb).sum(1) / np.sqrt((ta * ta).sum(1) * (tb * tb).sum(1)))
    o = call(ctx, exe, np.stack([12 + 0 * x, x, y], 1))
    verdict("GnomonicGridAngle", abs(o[:, 0] - ang), 1e-9, lambda i: "%.17g %.17g" % (x[i], y[i]))
    dx, dy = rng.uniform(0.01, 1, (2, k))
    R = rng.choice([1.0, 2.5, 6.37e6], k)
    g, w = np.polynomial.legendre.leggauss(24)
    A = np.zeros(k)
    for i in range(24):
        for j in range(24):
            xx, yy = x * 0.5 + dx * (g[i] + 1) / 2, y * 0.5 + dy * (g[j] + 1) / 2
            A += w[i] * w[j] / 4 * dx * dy * (1 + xx * xx + yy * yy) ** -1.5
    o = call(ctx, exe, np.stack([13 + 0 * x, 0.5 * x, dx, 0.5 * y, dy, R], 1))
    verdict("GnomonicElementArea", abs(o[:, 0] / R ** 2 - A), 1e-9, lambda i: "%.17g %.17g %.17g %.17g" % (x[i], y[i], dx[i], dy[i]))

    # adjacency
    rows, exp, what = [], [], []
    def add(fn, args, e, nm):
        rows.append([fn] + list(args) + [0] * (9 - len(args)))
        exp.append(e)
        what.append("%s%s" % (nm, tuple(args)))
    far = {(p, s): (cs.BASIS[p][0], cs.BASIS[p][1], -cs.BASIS[p][0], -cs.BASIS[p][1])[s] for p in range(6) for s in range(4)}
    nb = {k: next(q for q in range(6) if np.dot(cs.BASIS[q][2], v) > 0.5) for k, v in far.items()}
    for p in range(6):
        for s in range(4):
            q = nb[p, s]
            back = next(t for t in range(4) if nb[q, t] == p)
            add(14, (p, s), [q, back], "RelativePanel")
            add(16, (p, s), [q], "PanelFromDirection")
            add(18, (p, q, s), [back], "OpposingDirection")
        add(16, (p, MID), [p], "PanelFromDirection")
        add(14, (p, 4), None, "RelativePanel")
        for q in range(6):
            d = MID if p == q else next((s for s in range(4) if nb[p, s] == q), UNR)
            add(17, (p, q), [d], "DirectionFromPanel")
        for d in range(8):
            add(18, (p, p, d), [OPP[d]], "OpposingDirection")
        # across an edge next to a cube corner: the element diagonally beyond corner c of panel p, on neighbour q
        for cdir, (s1, s2) in {TR: (R_, T_), TL: (L_, T_), BL: (L_, B_), BR: (R_, B_)}.items():
            for s, along in ((s1, s2), (s2, s1)):
                q = nb[p, s]
                # on q the way back points across the shared edge and against the direction moved along it
                v = -far[p, along]
                back = next(t for t in range(4) if nb[q, t] == p)
                par = side_of(q, v)
                key = frozenset((back, par))
                e = {frozenset((R_, T_)): TR, frozenset((L_, T_)): TL, frozenset((L_, B_)): BL, frozenset((R_, B_)): BR}[key]
                add(18, (p, q, cdir), [e], "OpposingDirection")
        for Nc in (1, 2, 5):
            for i in range(-2, Nc + 2):
                for j in range(-2, Nc + 2):
                    ii, jj = 0 <= i < Nc, 0 <= j < Nc
                    if ii and jj:
                        e = [p, i, j, 0, 0, 0]
                    elif not ii and not jj:
                        e = [-1, -1, -1, 0, 0, 0]
                    else:
                        s = (R_ if i >= Nc else L_) if not ii else (T_ if j >= Nc else B_)
                        q = nb[p, s]
                        dep = {R_: i - Nc, L_: -1 - i, T_: j - Nc, B_: -1 - j}[s]
                        if dep >= Nc:
                            continue
                        along = j if not ii else i
                        pv = cs.BASIS[p][1] if not ii else cs.BASIS[p][0]      # direction of increasing index along the edge
                        back = next(t for t in range(4) if nb[q, t] == p)
                        sp = side_of(q, pv)
                        swpar = sp in (L_, B_)
                        c = Nc - 1 - along if swpar else along
                        perp = {L_: dep, B_: dep, R_: Nc - 1 - dep, T_: Nc - 1 - dep}[back]
                        di, dj = (perp, c) if back in (L_, R_) else (c, perp)
                        swab = (back in (L_, R_)) != (s in (L_, R_))
                        # increasing index across the edge on p against increasing index across it on q
                        out_p, in_q = s in (R_, T_), back in (L_, B_)
                        e = [q, di, dj, int(swab), int(swpar), int(out_p != in_q)]
                    add(15, (Nc, p, i, j), e, "RelativeCoord")
        for _ in range(300):
            x, y = rng.uniform(-3, 3, 2)
            if rng.random() < 0.3:
                x, y = (x / 3, y / 3)
            t = sorted([abs(x), abs(y), 1.0])
            if min(abs(abs(x) - 1), abs(abs(y) - 1), abs(abs(x) - abs(y))) < 1e-9:
                continue
            d = MID if max(abs(x), abs(y)) < 1 else (R_ if x > 0 else L_) if abs(x) > abs(y) else (T_ if y > 0 else B_)
            add(19, (p, x, y), [d], "DirectionFromXYP")
    for d in range(-2, 8):
        add(20, (d,), [OPP[d]], "DirectionOpposite")
        inc = {R_: (1, 0), T_: (0, 1), L_: (-1, 0), B_: (0, -1), TR: (1, 1), TL: (-1, 1), BL: (-1, -1), BR: (1, -1), MID: (0, 0), UNR: None}[d]
        add(21, (d, 5, 7), None if inc is None else [5 + inc[0], 7 + inc[1]], "DirectionIncrement")
    o = call(ctx, exe, np.array(rows, float))
    for i in range(len(rows)):
        e = exp[i]
        ok = o[i, 7] == 1 if e is None else o[i, 7] == 0 and list(o[i, :len(e)].astype(int)) == e
        ctx.check(ok, "adjacency:" + what[i].split("(")[0], "%s gives %s, expected %s" % (what[i], list(o[i]), e), what[i])
        ctx.case(what[i])
