"""Reader of the harness dumps (one file per rank)."""
import glob, numpy as np


# arrays whose first index is the component
CFIRST = ("node", "redge", "tracers", "refnode", "refredge")


class Patch:
    def __init__(self):
        self.a = {}

    def __getitem__(self, k):
        return self.a[k]

    def __contains__(self, k):
        return k in self.a


def read_file(path):
    data = open(path, "rb").read()
    pos = 0
    patches, glob_arr, cur, ended = [], {}, None, False
    while pos < len(data):
        e = data.index(b"\n", pos)
        l = data[pos:e].decode()
        pos = e + 1
        if not l:
            continue
        w = l.split()
        if w[0] == "PATCH":
            cur = Patch()
            cur.ix, cur.panel = int(w[1]), int(w[3])
            cur.a0, cur.a1, cur.b0, cur.b1 = int(w[5]), int(w[6]), int(w[8]), int(w[9])
            cur.halo, cur.proc = int(w[11]), int(w[13])
            patches.append(cur)
        elif w[0] == "ENDPATCH":
            cur = None
        elif w[0] == "ARR":
            nd = int(w[2])
            dims = [int(x) for x in w[3:3 + nd]]
            n = 1
            for d in dims:
                n *= d
            a = np.frombuffer(data, dtype="<f8", count=n, offset=pos).reshape(dims)
            pos += 8 * n
            (cur.a if cur is not None else glob_arr)[w[1]] = a
        elif w[0] == "END":
            ended = True
    if not ended:
        raise ValueError("truncated dump " + path)
    return patches, glob_arr


class Grid:
    """All patches of one dump over all ranks."""

    def __init__(self, prefix, tag):
        self.patches, self.g = [], {}
        fs = sorted(glob.glob(glob.escape("%s.%s." % (prefix, tag)) + "*.bin"))
        if not fs:
            raise FileNotFoundError("%s.%s.*.bin" % (prefix, tag))
        self.rank_patches = []
        for f in fs:
            p, g = read_file(f)
            self.patches += p
            self.rank_patches.append([q.ix for q in p])
            self.g.update(g)
        self.patches.sort(key=lambda p: p.ix)

    def interior(self, p, name):
        """The interior of array name of patch p with the horizontal axes first."""
        a = p[name]
        h = p.halo
        if a.ndim == 4 and name in CFIRST:
            a = np.moveaxis(a, 0, 2)       # A, B, c, k
        nA, nB = p.a1 - p.a0, p.b1 - p.b0
        return a[h:h + nA, h:h + nB]

    def panels(self, name):
        """{panel: global array} assembled from the interiors of the patches."""
        size = {}
        for p in self.patches:
            s = size.setdefault(p.panel, [0, 0])
            s[0], s[1] = max(s[0], p.a1), max(s[1], p.b1)
        out = {}
        for p in self.patches:
            if name not in p:
                continue
            v = self.interior(p, name)
            if p.panel not in out:
                out[p.panel] = np.full(tuple(size[p.panel]) + v.shape[2:], np.nan)
            out[p.panel][p.a0:p.a1, p.b0:p.b1] = v
        return out

    def all(self, name):
        """All interior values stacked: (points, ...)."""
        d = self.panels(name)
        return np.concatenate([d[k].reshape((-1,) + d[k].shape[2:]) for k in sorted(d)], axis=0)
