"""Collocated points of the two grids and physical vectors, from geometry alone."""
import functools
import numpy as np
from . import cs


def unique_axis(ne, order, periodic):
    u = np.concatenate([e * (order - 1) + np.arange(order) for e in range(ne)])
    return u % (ne * (order - 1)) if periodic else u


@functools.lru_cache(maxsize=64)
def cs_points(ne, order):
    """(panel, A, B, alpha, beta, unit vector, group label) of every copy, in the order of dump.Grid.all."""
    al, w = cs.panel_nodes(ne, order)
    n = len(al)
    P, A, B = np.meshgrid(np.arange(6), np.arange(n), np.arange(n), indexing="ij")
    a, b = al[A], al[B]
    r = np.stack([cs.pos(p, a[p], b[p]) for p in range(6)])
    lab = cs.groups_fast(r.reshape(-1, 3))
    return P.ravel(), A.ravel(), B.ravel(), a.ravel(), b.ravel(), r.reshape(-1, 3), lab


def box_points(ne, ney, order, Lx, Ly, x0=0.0, y0=0.0, perx=True, pery=True):
    x, _ = cs.axis_nodes(ne, order, x0, x0 + Lx)
    y, _ = cs.axis_nodes(ney, order, y0, y0 + Ly)
    ux, uy = unique_axis(ne, order, perx), unique_axis(ney, order, pery)
    X, Y = np.meshgrid(x, y, indexing="ij")
    L = ux[:, None] * (uy.max() + 1) + uy[None, :]
    return X.ravel(), Y.ravel(), L.ravel()


class Points:
    """Points of a configuration k (the key=value arguments of the harness), rows matching dump.Grid.all()."""

    def __init__(self, k):
        self.k = k
        self.cs = k.get("grid", "cs") == "cs"
        ne, order = int(k.get("ne", 4)), int(k.get("order", 4))
        self.ne, self.order = ne, order
        if self.cs:
            self.P, self.A, self.B, self.a, self.b, self.r, self.lab = cs_points(ne, order)
            self.n = len(self.P)
        else:
            ney = int(k.get("ney", 1))
            pery = not int(k.get("noflux", 0))
            perx = True
            self.bc = [0, int(not pery), 0, int(not pery)]
            if "bc" in k:
                self.bc = [int(q) for q in str(k["bc"]).split(",")]
                perx, pery = self.bc[0] == 0, self.bc[1] == 0
            self.x, self.y, self.lab = box_points(ne, ney, order, float(k.get("gLx", k.get("Lx", 1e5))), float(k.get("gLy", k.get("Ly", 1e5))),
                                                  float(k.get("x0", 0)), float(k.get("y0", 0)), perx, pery)
            self.n = len(self.x)
            self.P = np.zeros(self.n, int)
            nB = ney * order
            self.A, self.B = np.arange(self.n) // nB, np.arange(self.n) % nB
        _, self.lab = np.unique(self.lab, return_inverse=True)
        self.m = int(self.lab.max()) + 1
        self.cnt = np.bincount(self.lab, minlength=self.m).astype(float)

    def vector(self, ua, ub):
        """Physical vectors (n, ..., 3) of covariant components (n, ...) (unit radius)."""
        if not self.cs:
            return np.stack([ua, ub, 0 * ua], -1)
        out = np.empty(ua.shape + (3,))
        for p in range(6):
            s = self.P == p
            sh = (slice(None),) + (None,) * (ua.ndim - 1)
            a, b = np.broadcast_arrays(self.a[s][sh], ua[s])[0], np.broadcast_arrays(self.b[s][sh], ua[s])[0]
            out[s] = cs.physical(p, a, b, ua[s], ub[s])
        return out

    def walls(self):
        """[(mask of points on the wall, normal component 0/1, 1 noflux | 2 noslip)] of the solid lateral walls."""
        if self.cs:
            return []
        nA, nB = self.A.max(), self.B.max()
        m = [self.A == nA, self.B == nB, self.A == 0, self.B == 0]
        return [(m[q], q % 2, self.bc[q]) for q in range(4) if self.bc[q]]

    def mean(self, v):
        """Mean over the copies, spread back to every copy. v: (n, ...)"""
        f = v.reshape(self.n, -1)
        s = np.zeros((self.m, f.shape[1]))
        np.add.at(s, self.lab, f)
        s /= self.cnt[:, None]
        return s[self.lab].reshape(v.shape)

    def spread(self, v):
        """Largest difference between copies of the same point (n, ...) -> (...)."""
        return np.abs(v - self.mean(v)).max(axis=0)


def state_fields(pt, G, tracers=True, want=("node", "redge")):
    """Named physical fields from a dump: scalars (n,k) and vectors (n,k,3). Components at the location given by staggering LOR/LEV."""
    out = {}
    x = G.all("node")      # n, c, k
    out["u"] = pt.vector(x[:, 0], x[:, 1])
    out["h" if x.shape[1] == 3 else "theta"] = x[:, 2]
    if x.shape[1] > 3:
        out["rho"] = x[:, 4]
        out["w"] = G.all("redge")[:, 3]
    if tracers and "tracers" in G.patches[0]:
        t = G.all("tracers")
        for c in range(t.shape[1]):
            out["q%d" % c] = t[:, c]
    return out
