"""Independent geometry of the equiangular cubed sphere and of GLL quadrature (used as an oracle)."""
import numpy as np

X, Y, Z = np.eye(3)
# per panel: direction of increasing alpha, of increasing beta, outward normal at the centre
BASIS = [(Y, Z, X), (-X, Z, Y), (-Y, Z, -X), (X, Z, -Y), (Y, -X, Z), (Y, X, -Z)]


def gll(n):
    """Gauss-Lobatto-Legendre nodes and weights on [-1, 1]."""
    from numpy.polynomial import legendre as L
    c = np.zeros(n); c[-1] = 1
    d = L.legder(c)
    x = np.concatenate([[-1.0], np.sort(np.real(L.legroots(d))) if n > 2 else [], [1.0]])
    dd = L.legder(d)
    for _ in range(3):
        if n > 2:
            x[1:-1] -= L.legval(x[1:-1], d) / L.legval(x[1:-1], dd)
    w = 2.0 / (n * (n - 1) * L.legval(x, c) ** 2)
    return x, w


def lagrange(nodes, x):
    """Matrix of Lagrange polynomial values: (len(x), len(nodes))."""
    nodes, x = np.asarray(nodes, float), np.atleast_1d(np.asarray(x, float))
    out = np.ones((len(x), len(nodes)))
    for j in range(len(nodes)):
        for m in range(len(nodes)):
            if m != j:
                out[:, j] *= (x - nodes[m]) / (nodes[j] - nodes[m])
    return out


def dlagrange(nodes, x):
    nodes, x = np.asarray(nodes, float), np.atleast_1d(np.asarray(x, float))
    out = np.zeros((len(x), len(nodes)))
    for j in range(len(nodes)):
        for q in range(len(nodes)):
            if q == j:
                continue
            t = np.ones(len(x)) / (nodes[j] - nodes[q])
            for m in range(len(nodes)):
                if m != j and m != q:
                    t *= (x - nodes[m]) / (nodes[j] - nodes[m])
            out[:, j] += t
    return out


def axis_nodes(ne, order, lo, hi):
    """Duplicated GLL nodes of ne elements over [lo, hi], and their quadrature weights."""
    x, w = gll(order)
    e = np.linspace(lo, hi, ne + 1)
    n = np.concatenate([e[i] + (x + 1) / 2 * (e[i + 1] - e[i]) for i in range(ne)])
    ww = np.concatenate([w / 2 * (e[i + 1] - e[i]) for i in range(ne)])
    return n, ww


def panel_nodes(ne, order):
    return axis_nodes(ne, order, -np.pi / 4, np.pi / 4)


def pos(p, a, b):
    """Unit vector(s) of panel p at (alpha, beta)."""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    ex, ey, ez = BASIS[p]
    x, y = np.tan(a), np.tan(b)
    s = 1.0 / np.sqrt(1 + x * x + y * y)
    return s[..., None] * (ez + x[..., None] * ex + y[..., None] * ey)


def tangents(p, a, b):
    """d pos/d alpha, d pos/d beta on the unit sphere."""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    ex, ey, ez = BASIS[p]
    x, y = np.tan(a), np.tan(b)
    d2 = 1 + x * x + y * y
    s = 1.0 / np.sqrt(d2)
    r = ez + x[..., None] * ex + y[..., None] * ey
    ta = (1 + x * x)[..., None] * (s[..., None] * ex - (x * s / d2)[..., None] * r)
    tb = (1 + y * y)[..., None] * (s[..., None] * ey - (y * s / d2)[..., None] * r)
    return ta, tb


def lonlat(r):
    return np.arctan2(r[..., 1], r[..., 0]), np.arcsin(np.clip(r[..., 2], -1, 1))


def xyz(lon, lat):
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def east_north(r):
    """Unit east and north vectors at unit position(s) r (poles: longitude 0)."""
    lon, lat = lonlat(r)
    e = np.stack([-np.sin(lon), np.cos(lon), 0 * lon], -1)
    n = np.stack([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)], -1)
    return e, n


def physical(p, a, b, ua, ub, R=1.0):
    """3-vector of the velocity with covariant components ua, ub (per unit alpha on radius R)."""
    ta, tb = tangents(p, a, b)
    g11, g12, g22 = (ta * ta).sum(-1), (ta * tb).sum(-1), (tb * tb).sum(-1)
    det = g11 * g22 - g12 * g12
    ca = (g22 * ua - g12 * ub) / det
    cb = (g11 * ub - g12 * ua) / det
    return (ca[..., None] * ta + cb[..., None] * tb) / R


def groups(r, tol=1e-9):
    """Label of each point (n,3): equal labels for coincident points."""
    from scipy.spatial import cKDTree
    t = cKDTree(r)
    lab = np.arange(len(r))
    for i, j in t.query_pairs(tol, output_type="ndarray"):
        a, b = lab[i], lab[j]
        if a != b:
            lab[lab == max(a, b)] = min(a, b)
    return lab


def groups_fast(r, tol=1e-9):
    from scipy.spatial import cKDTree
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    t = cKDTree(r)
    q = t.query_pairs(tol, output_type="ndarray")
    n = len(r)
    m = coo_matrix((np.ones(len(q)), (q[:, 0], q[:, 1])), shape=(n, n))
    return connected_components(m, directed=False)[1]


def edge_neighbour(ne, order):
    """{(panel, side): (panel', function(s, d) -> (A', B'))} for sides L R B T; s along the edge, d = 1.. nodes outside."""
    n = ne * order
    al, _ = panel_nodes(ne, order)
    side = {}
    for p in range(6):
        for sd in "LRBT":
            s = np.arange(n)
            A = {"L": 0 * s, "R": 0 * s + n - 1, "B": s, "T": s}[sd]
            B = {"L": s, "R": s, "B": 0 * s, "T": 0 * s + n - 1}[sd]
            side[p, sd] = (A, B, pos(p, al[A], al[B]))
    out = {}
    for (p, sd), (A, B, r) in side.items():
        for (q, td), (C, D, t) in side.items():
            if q == p:
                continue
            for rev in (False, True):
                tt = t[::-1] if rev else t
                if np.abs(r - tt).max() < 1e-9:
                    def f(s, d, td=td, rev=rev):
                        s2 = n - 1 - s if rev else s
                        return {"L": (d - 1, s2), "R": (n - d, s2), "B": (s2, d - 1), "T": (s2, n - d)}[td]
                    out[p, sd] = (q, f)
    assert len(out) == 24
    return out
