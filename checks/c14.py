"""C14: vertical column operators.

The operators are built by the real code, turned into matrices by applying them to unit columns through the public entry
points, and compared with matrices assembled independently from their definitions; besides, every matrix is judged by the
polynomials it reproduces, its conservation and its locality."""
TECHNIQUE = 'runtime monitoring: operator matrices observed by applying the real operators to unit columns, compared with independent assembly from the definitions and judged by exactness on polynomials, conservation and agreement of all entry points'
NOTE = 'Vertical orders 1-6, 1-9 elements of equal and different height, interpolation, first and second derivatives, integral and penalty; grids of models with all staggerings, discretisations and stretchings; every overload with strides and reference columns; interpolation of whole patches column by column.'
HARNESSES = [('vops', 'opt')]
import numpy as np
from numpy.polynomial import legendre as L
from numpy.polynomial import polynomial as P


def LE(ctx, v, bound, key, detail, replay=None):
    ctx.le(v, bound, key.split(":")[0], key, detail, replay)


def gauss(p):
    x, w = L.leggauss(p)
    return (x + 1) / 2, w / 2


def lobatto(n):
    c = np.zeros(n)
    c[-1] = 1
    mid = np.sort(L.legroots(L.legder(c)).real) if n > 2 else []
    x = np.concatenate([[-1.0], mid, [1.0]])
    return (x + 1) / 2, 1.0 / (n * (n - 1) * L.legval(x, c) ** 2)


def column(p, b):
    """Levels and interfaces of elements with bounds b."""
    d = np.diff(b)
    N = np.concatenate([b[a] + gauss(p)[0] * d[a] for a in range(len(d))])
    E = np.concatenate([[b[0]]] + [b[a] + lobatto(p + 1)[0][1:] * d[a] for a in range(len(d))])
    return N, E


def gllcolumn(p, b):
    return np.concatenate([[b[0]]] + [b[a] + lobatto(p)[0][1:] * (b[a + 1] - b[a]) for a in range(len(b) - 1)])


def lag(x, y, dv=0):
    """Rows: values (derivatives) at y of the Lagrange basis on x."""
    x = np.asarray(x)
    y = np.atleast_1d(y)
    c = (x[0] + x[-1]) / 2
    s = max((x[-1] - x[0]) / 2, 1e-300) if len(x) > 1 else 1.0
    out = np.zeros((len(y), len(x)))
    for i in range(len(x)):
        q = np.array([1.0])
        for j in range(len(x)):
            if j != i:
                q = P.polymul(q, np.array([-(x[j] - c), s]) / (x[i] - x[j]))
        if dv:
            q = P.polyder(q, dv) if len(q) > dv else np.zeros(1)
        out[:, i] = P.polyval((y - c) / s, q) / s ** dv
    return out


def find(b, y):
    """Element of y, and whether y is an inner element bound (then the element below)."""
    for a in range(len(b) - 2):
        if abs(y - b[a + 1]) < 1e-12:
            return a, True
        if y < b[a + 1]:
            return a, False
    return len(b) - 2, False


def correction(n, y):
    """Derivative at y in [0,1] of the flux correction function: degree n, 0 with zero slope at 0, 1 at 1, orthogonal to P_(n-3)."""
    A, r = np.zeros((n + 1, n + 1)), np.zeros(n + 1)
    I = np.eye(n + 1)
    for j in range(n + 1):
        A[0, j] = L.legval(1.0, I[j])
        A[1, j] = L.legval(-1.0, I[j])
        if n > 1:
            A[2, j] = L.legval(-1.0, L.legder(I[j])) if j else 0.0
    r[0] = 1
    k = 3
    for m in range(n - 2):
        A[k, m] = 1.0  # orthogonality in the Legendre basis
        k += 1
    c = np.linalg.solve(A[:n + 1], r)
    return 2 * L.legval(2 * np.asarray(y) - 1, L.legder(c))


def ref_interp(p, b, N, E, src, O, zero):
    ne = len(b) - 1
    M = np.zeros((len(O), len(E) if src else len(N)))
    for l, y in enumerate(O):
        if zero and (abs(y) < 1e-12 and l == 0 or abs(y - 1) < 1e-12 and l == len(O) - 1):
            continue
        a, edge = find(b, y)
        if src:
            M[l, a * p:a * p + p + 1] = lag(E[a * p:a * p + p + 1], y)[0]
        elif edge:
            dl, dr = (b[a + 1] - b[a]) ** p, (b[a + 2] - b[a + 1]) ** p
            M[l, a * p:a * p + p] = lag(N[a * p:a * p + p], y)[0] * dr / (dl + dr)
            M[l, a * p + p:a * p + 2 * p] = lag(N[a * p + p:a * p + 2 * p], y)[0] * dl / (dl + dr)
        elif p == 1 and ne > 1 and l == 0:
            M[l, a:a + 2] = lag(N[a:a + 2], y)[0]
        elif p == 1 and ne > 1 and l == len(O) - 1:
            M[l, a - 1:a + 1] = lag(N[a - 1:a + 1], y)[0]
        else:
            M[l, a * p:a * p + p] = lag(N[a * p:a * p + p], y)[0]
    return M


def ref_cont_diff(q, b, X, O):
    """Derivative of the continuous piecewise polynomial of degree q on the points X."""
    M = np.zeros((len(O), len(X)))
    for l, y in enumerate(O):
        a, edge = find(b, y)
        D = lag(X[a * q:a * q + q + 1], y, 1)[0]
        if edge:
            dl, dr = (b[a + 1] - b[a]) ** q, (b[a + 2] - b[a + 1]) ** q
            M[l, a * q:a * q + q + 1] += D * dr / (dl + dr)
            M[l, a * q + q:a * q + 2 * q + 1] += lag(X[a * q + q:a * q + 2 * q + 1], y, 1)[0] * dl / (dl + dr)
        else:
            M[l, a * q:a * q + q + 1] = D
    return M


def ref_diff(p, b, N, E, src, O, zero):
    M = ref_cont_diff(p, b, E, O)
    return M if src else M @ ref_interp(p, b, N, E, 0, E, zero)


def ref_flux(p, b, N, O):
    ne = len(b) - 1

    def one(a, y):
        r = np.zeros(len(N))
        d = b[a + 1] - b[a]
        s = slice(a * p, a * p + p)
        r[s] = lag(N[s], y, 1)[0]
        if a > 0:
            t = slice(a * p - p, a * p)
            g = -correction(p + 1, 1 - (y - b[a]) / d) / d
            r[t] += 0.5 * g * lag(N[t], b[a])[0]
            r[s] -= 0.5 * g * lag(N[s], b[a])[0]
        if a < ne - 1:
            t = slice(a * p + p, a * p + 2 * p)
            g = correction(p + 1, (y - b[a]) / d) / d
            r[t] += 0.5 * g * lag(N[t], b[a + 1])[0]
            r[s] -= 0.5 * g * lag(N[s], b[a + 1])[0]
        return r
    M = np.zeros((len(O), len(N)))
    for l, y in enumerate(O):
        a, edge = find(b, y)
        if edge:
            dl, dr = b[a + 1] - b[a], b[a + 2] - b[a + 1]
            # only the correction belonging to the shared edge reaches it
            M[l] = (dl * one(a, y) + dr * one(a + 1, y)) / (dl + dr)
        else:
            M[l] = one(a, y)
    return M


def ref_dd_levels(p, b, N):
    ne = len(b) - 1
    M = np.zeros((len(N), len(N)))
    g1 = float(correction(p + 1, 1.0))
    for a in range(ne):
        s = slice(a * p, a * p + p)
        w = gauss(p)[1] * (b[a + 1] - b[a])
        D = lag(N[s], N[s], 1)
        M[s, s] -= D.T @ np.diag(w) @ D
    for e in range(1, ne):
        l, r = slice(e * p - p, e * p), slice(e * p, e * p + p)
        f = np.zeros(len(N))
        f[l] += 0.5 * lag(N[l], b[e], 1)[0] - g1 / (b[e + 1] - b[e - 1]) * lag(N[l], b[e])[0]
        f[r] += 0.5 * lag(N[r], b[e], 1)[0] + g1 / (b[e + 1] - b[e - 1]) * lag(N[r], b[e])[0]
        M[l] += np.outer(lag(N[l], b[e])[0], f)
        M[r] -= np.outer(lag(N[r], b[e])[0], f)
    W = np.concatenate([gauss(p)[1] * d for d in np.diff(b)])
    return M / W[:, None], W


def ref_dd_cont(q, b, X):
    M, W = np.zeros((len(X), len(X))), np.zeros(len(X))
    for a in range(len(b) - 1):
        s = slice(a * q, a * q + q + 1)
        w = lobatto(q + 1)[1] * (b[a + 1] - b[a])
        D = lag(X[s], X[s], 1)
        M[s, s] -= D.T @ np.diag(w) @ D
        W[s] += w
    return M / W[:, None], W


def ref_var(p, b, N, E):
    M, W = np.zeros((len(E), len(N))), np.zeros(len(E))
    for a in range(len(b) - 1):
        d = b[a + 1] - b[a]
        e = slice(a * p, a * p + p + 1)
        n = slice(a * p, a * p + p)
        M[e, n] -= lag(E[e], N[n], 1).T * (gauss(p)[1] * d)
        W[e] += lobatto(p + 1)[1] * d
    return M / W[:, None]


def ref_int(p, b, N):
    M = np.zeros((len(N), len(N)))
    for a in range(len(b) - 1):
        d = b[a + 1] - b[a]
        s = slice(a * p, a * p + p)
        M[a * p + p:, s] = gauss(p)[1] * d
        x, w = gauss(p + 1)
        for k in range(p):
            h = N[a * p + k] - b[a]
            M[a * p + k, s] = w * h @ lag(N[s], b[a] + x * h)
    return M


def ref_pen(p, b, N):
    ne, n = len(b) - 1, len(N)
    M = np.zeros((n * (ne - 1), n))
    for e in range(1, ne):
        l, r = slice(e * p - p, e * p), slice(e * p, e * p + p)
        jump = np.zeros(n)
        jump[r] += 0.5 * lag(N[r], b[e])[0]
        jump[l] -= 0.5 * lag(N[l], b[e])[0]
        dl, dr = b[e] - b[e - 1], b[e + 1] - b[e]
        k = (e - 1) * n
        M[k + e * p - p:k + e * p] = np.outer(correction(p + 1, (N[l] - b[e - 1]) / dl) / dl, jump)
        M[k + e * p:k + e * p + p] = np.outer(-correction(p + 1, 1 - (N[r] - b[e]) / dr) / dr, jump)
    return M


def stencil(n, lo, hi):
    return slice(max(lo, 0), min(hi, n - 1) + 1)


def ref_interprec(o, N, E, src):
    n = len(N)
    if src:
        M = np.zeros((n, n + 1))
        for k in range(n):
            M[k, k:k + 2] = 0.5
        return M
    M = np.zeros((n + 1, n))
    h = (o - 2) // 2
    for k in range(n + 1):
        w = 1.0 if k in (0, n) else 0.5
        if k:
            s = stencil(n, k - h - 1, k + h - 1)
            M[k, s] += w * lag(N[s], E[k])[0]
        if k < n:
            s = stencil(n, k - h, k + h)
            M[k, s] += w * lag(N[s], E[k])[0]
    return M


def ref_diffrec(o, N, E, src, dst):
    n = len(N)
    if src and not dst:
        M = np.zeros((n, n + 1))
        for k in range(n):
            M[k, k], M[k, k + 1] = -1 / (E[k + 1] - E[k]), 1 / (E[k + 1] - E[k])
        return M
    if not src and not dst:
        return ref_diffrec(o, N, E, 1, 0) @ ref_interprec(o, N, E, 0)
    X = E if src else N
    M = np.zeros((n + 1, len(X)))
    for k in range(n + 1):
        s = stencil(len(X), k - o // 2, k + o // 2 - (0 if src else 1))
        M[k, s] = lag(X[s], E[k], 1)[0]
    return M


def ref_penrec(o, N, E):
    n = len(N)
    M = np.zeros((n * (n - 1), n))
    h = (o - 2) // 2
    for k in range(1, n):
        jump = np.zeros(n)
        s, t = stencil(n, k - h - 1, k + h - 1), stencil(n, k - h, k + h)
        jump[s] -= 0.5 * lag(N[s], E[k])[0]
        jump[t] += 0.5 * lag(N[t], E[k])[0]
        r = (k - 1) * n
        M[r + k - 1] = jump / (E[k] - E[k - 1])
        M[r + k] = -jump / (E[k + 1] - E[k])
    return M


def bounds(r, ne, kind):
    if kind == "equal":
        return np.linspace(0, 1, ne + 1)
    d = np.array([r.uniform(0.4, 1.6) for _ in range(ne)]) if kind == "random" else np.array([r.choice([1.0, 3.0]) for _ in range(ne)])
    b = np.concatenate([[0], np.cumsum(d)])
    b /= b[-1]
    b[-1] = 1.0
    return b


def degree(M, x, y, dv, top, scale):
    """Highest degree up to which M maps t^d to its derivative (t = 2x-1)."""
    best = -1
    for d in range(top + 1):
        c = np.zeros(d + 1)
        c[-1] = 1
        f = L.legval(2 * x - 1, c)
        g = L.legval(2 * y - 1, L.legder(c, dv)) * 2 ** dv if dv else L.legval(2 * y - 1, c)
        if abs(M @ f - g).max() > 1e-9 * scale:
            break
        best = d
    return best


class Ask:
    def __init__(self):
        self.lines, self.judge = [], []

    def add(self, name, order, src, dst, zero, N, E, O, judge):
        self.lines.append("%s %d %d %d %d %d %d %d | %s" % (name, order, src, dst, zero, len(N), len(E), len(O), " ".join("%.17g" % q for q in np.concatenate([N, E, O]))))
        self.judge.append((name, order, judge))


def rows(path):
    out, cur = [], {}
    for l in open(path):
        l = l.strip()
        if l == ".":
            out.append(cur)
            cur = {}
        elif l in ("exc", "?"):
            cur["exc"] = l
        else:
            h, v = l.split("|")
            n, r, c, dev = h.split()
            v = [float(q) for q in v.split()]
            cur[n] = (float(dev), np.array(v).reshape(int(r), int(c)))
    return out


def direct(ctx, exe):
    r = ctx.rng
    A = Ask()
    cols = []
    for p in range(1, 7):
        for kind in ("equal", "random", "two"):
            nes = [1, 2, 3, r.randrange(4, 10)] + (list(range(4, 10)) if ctx.thorough else [])
            for ne in nes:
                if kind != "equal" and ne == 1:
                    continue
                for _ in range(4 if ctx.thorough and kind != "equal" else 1):
                    cols.append((p, kind, ne, bounds(r, ne, kind)))
    for p, kind, ne, b in cols:
        N, E = column(p, b)
        O = np.sort(np.array([r.random() for _ in range(7)]))
        O2 = np.concatenate([[0.0], O, [1.0]])
        eq = kind == "equal"

        def add(name, src, dst, zero, O_, ref, x, y, dv, deg, order=p, NN=None, inner=True):
            NN = N if NN is None else NN

            def judge(res, what):
                dev, M = res["m"]
                sc = max(abs(ref).max(), 1.0)
                if not ctx.check(M.shape == ref.shape, "shape:" + name, "%s has shape %s" % (what, M.shape), what):
                    return
                LE(ctx, abs(M - ref).max() / sc, 1e-10, "matrix:" + name, "%s is not the operator of its definition" % what, what)
                LE(ctx, dev, 1e-11, "entry:" + name, "entry points of %s disagree" % what, what)
                if deg is not None:
                    ctx.check(degree(M, x, y, dv, deg, sc) >= deg, "degree:" + name, "%s does not reproduce polynomials of degree %d" % (what, deg), what)
            A.add(name, order, src, dst, zero, NN, E, O_, judge)
        z = np.zeros(0)
        for zero in (0, 1):
            for O_ in (E, N, O2):
                ends = O_ is N
                # levels: outside values at the ends are by extrapolation, exact to degree p-1 (first order: 1)
                add("interp", 0, 0, zero, O_, ref_interp(p, b, N, E, 0, O_, zero), N, O_, 0, None if zero and not ends else (p - 1))
                add("interp", 1, 0, zero, O_, ref_interp(p, b, N, E, 1, O_, zero), E, O_, 0, None if zero and not ends else p)
                add("diff", 0, 0, zero, O_, ref_diff(p, b, N, E, 0, O_, zero), N, O_, 1, None if zero else p - 1)
                add("diff", 1, 0, zero, O_, ref_diff(p, b, N, E, 1, O_, zero), E, O_, 1, p)
            add("flux", 0, 0, 1, E if zero else O2[1:-1], ref_flux(p, b, N, E if zero else O2[1:-1]), N, E if zero else O2[1:-1], 1, p - 1)
        add("var", 0, 0, 0, z, ref_var(p, b, N, E), None, None, 1, None)
        Ml, Wl = ref_dd_levels(p, b, N)
        add("dd", 0, 0, 0, z, Ml, N, N, 2, 0)
        Mc, Wc = ref_dd_cont(p, b, E)
        add("dd", 1, 0, 0, z, Mc, E, E, 2, 0)
        for name, src, W, M in (("dd", 0, Wl, Ml), ("dd", 1, Wc, Mc)):
            def judge(res, what, W=W, src=src, X=N if src == 0 else E, kind=kind, p=p, ne=ne):
                M = res["m"][1]
                sc = abs(M).max() or 1.0
                LE(ctx, abs(W @ M).max() / sc, 1e-11, "conserve:dd", "%s does not conserve the column integral" % what, what)
                k = slice(p + 1, len(X) - p - 1)
                # linear columns have no curvature away from the ends
                if len(X) > 2 * p + 3:
                    LE(ctx, abs((M @ X)[k]).max() / sc, 1e-11, "linear:dd", "%s of a linear column is not zero" % what, what)
                if src:
                    S = np.diag(W) @ M
                    LE(ctx, abs(S - S.T).max() / abs(S).max(), 1e-11, "selfadjoint:dd", "%s is not self-adjoint" % what, what)
                    LE(ctx, np.linalg.eigvalsh((S + S.T) / 2).max() / abs(S).max(), 1e-11, "negative:dd", "%s amplifies" % what, what)
            A.add(name, p, src, 0, 0, N, E, z, judge)
        add("int", 0, 0, 0, z, ref_int(p, b, N), None, None, 0, None)
        if ne > 1:
            add("pen", 0, 0, 0, z, ref_pen(p, b, N), None, None, 0, None)
        if p > 1:
            G = gllcolumn(p, b)
            Og = np.concatenate([G, O])
            add("gll", 0, 0, 0, G, ref_cont_diff(p - 1, b, G, G), G, G, 1, p - 1, NN=G)
            add("gll", 0, 0, 0, O2, ref_cont_diff(p - 1, b, G, O2), G, O2, 1, p - 1, NN=G)
            add("ddgll", 0, 0, 0, z, ref_dd_cont(p - 1, b, G)[0], G, G, 2, 0, NN=G)
    for o in (2, 4, 6):
        for kind in ("equal", "random", "two"):
            for n in [2, 3, o + 1, r.randrange(5, 14)]:
                b = bounds(r, n, kind)
                N, E = column(1, b)

                def add2(name, src, dst, ref, x, y, dv, deg):
                    def judge(res, what):
                        dev, M = res["m"]
                        sc = max(abs(ref).max(), 1.0)
                        LE(ctx, abs(M - ref).max() / sc, 1e-10, "matrix:" + name, "%s is not the operator of its definition" % what, what)
                        LE(ctx, dev, 1e-11, "entry:" + name, "entry points of %s disagree" % what, what)
                        if deg is not None:
                            ctx.check(degree(M, x, y, dv, deg, sc) >= deg, "degree:" + name, "%s does not reproduce polynomials of degree %d" % (what, deg), what)
                    A.add(name, o, src, dst, 0, N, E, np.zeros(0), judge)
                add2("interprec", 0, 1, ref_interprec(o, N, E, 0), N, E, 0, 0)
                add2("interprec", 1, 0, ref_interprec(o, N, E, 1), E, N, 0, 1)
                add2("diffrec", 1, 0, ref_diffrec(o, N, E, 1, 0), E, N, 1, 1)
                add2("diffrec", 0, 0, ref_diffrec(o, N, E, 0, 0), N, N, 1, 0)
                if n > o // 2:
                    add2("diffrec", 1, 1, ref_diffrec(o, N, E, 1, 1), E, E, 1, 1 if o == 2 else 2)
                    add2("diffrec", 0, 1, ref_diffrec(o, N, E, 0, 1), N, E, 1, 0)
                add2("penrec", 0, 0, ref_penrec(o, N, E), None, None, 0, None)
    for n in (1, 2, 7):
        A.add("ident", n, 0, 0, 0, np.zeros(0), np.zeros(0), np.zeros(0), lambda res, what, n=n: (
            ctx.check(np.array_equal(res["m"][1], np.eye(n)), "identity", "identity of size %d is not the identity" % n, what), LE(ctx, res["m"][0], 0.0, "entry:ident", "entry points disagree", what)))
    for n in range(2, 9):
        y = np.linspace(0, 1, 9)
        A.add("fcf", n, 2, 0, 0, y, np.zeros(0), np.zeros(0), lambda res, what, n=n, y=y: LE(ctx, abs(res["m"][1][:, 0] - correction(n, y)).max() / n ** 2, 1e-9, "correction", "flux correction function of order %d" % n, what))
    d = ctx.newdir()
    open(d + "/req", "w").write("\n".join(A.lines) + "\n")
    x = ctx.run([exe, "req=%s/req" % d, "out=%s/out" % d])
    if not ctx.need(x, "C14:direct", "operators built directly"):
        return
    res = rows(d + "/out")
    if not ctx.check(len(res) == len(A.judge), "count", "%d answers to %d requests" % (len(res), len(A.judge))):
        return
    for q, (name, order, judge), line in zip(res, A.judge, A.lines):
        head = line.split("|")[0]
        what = "operator %s" % head
        ctx.case(line)
        if not ctx.check("m" in q, "refused:" + name, "%s is refused" % what, line):
            continue
        ctx.count("operators:" + name)
        judge(q, what)


def models(ctx, exe):
    r = ctx.rng
    L_ = []
    for st in ("lor", "lev", "cph", "int"):
        for s in ("uniform", "cubic", "pwlinear"):
            for vo in ((1, 2, 3, 4) if ctx.thorough else (1, r.choice([2, 3, 4]))):
                if st == "int":
                    if vo == 1:
                        continue
                    n = (vo - 1) * r.randrange(2, 5) + 1
                else:
                    n = vo * r.randrange(2, 6)
                L_.append(dict(stagger=st, vstretch=s, vorder=vo, levels=n, vdisc="fe"))
    for s in ("uniform", "cubic"):
        for vo in (2, 4):
            L_.append(dict(stagger="lor", vstretch=s, vorder=vo, levels=r.randrange(vo + 2, 14), vdisc="fv"))

    def one(k):
        d = ctx.newdir()
        a = dict(eq="nh", grid="xy", ne=2, ney=2, Lx=4e5, Ly=4e5, kind="rest", dt="1s", end="1s", nu=0, nud=0, nuv=0, **k)
        return d, ctx.run([exe] + ["%s=%s" % q for q in a.items()] + ["out=%s/out" % d], cwd=d)
    for k, (d, x) in zip(L_, ctx.pmap(one, L_)):
        what = "grid %s" % " ".join("%s=%s" % q for q in k.items())
        ctx.case("model:" + what)
        if not ctx.need(x, "C14:model", "a model (%s)" % what):
            continue
        q = rows(d + "/out")
        if not ctx.check(len(q) == 1, "model:count", "no operators of %s" % what, what):
            continue
        q = q[0]
        N, E = q["stretchlevels"][1][:, 0], q["stretchinterfaces"][1][:, 0]
        p, n, sh = k["vorder"], k["levels"], None
        refs = {}
        if k["stagger"] == "int":
            b = N[::p - 1]
            refs.update(n2n=ref_cont_diff(p - 1, b, N, N), dd=ref_dd_cont(p - 1, b, N)[0])
        elif k["vdisc"] == "fv":
            refs.update(i=ref_interprec(p, N, E, 0), j=ref_interprec(p, N, E, 1), n2n=ref_diffrec(p, N, E, 0, 0), n2r=ref_diffrec(p, N, E, 0, 1), r2n=ref_diffrec(p, N, E, 1, 0),
                        r2r=ref_diffrec(p, N, E, 1, 1), n2nz=ref_diff(1, E, N, E, 0, N, True), dd=ref_dd_levels(1, E, N)[0], ddr=ref_dd_cont(1, E, E)[0], pen=ref_penrec(p, N, E))
        else:
            b = E[::p]
            refs.update(i=ref_interp(p, b, N, E, 0, E, False), j=ref_interp(p, b, N, E, 1, N, False), n2n=ref_diff(p, b, N, E, 0, N, False), n2r=ref_flux(p, b, N, E), r2n=ref_diff(p, b, N, E, 1, N, False),
                        r2r=ref_diff(p, b, N, E, 1, E, False), n2nz=ref_diff(p, b, N, E, 0, N, True), dd=ref_dd_levels(p, b, N)[0], ddr=ref_dd_cont(p, b, E)[0], pen=ref_pen(p, b, N))
        for a in ("n2n", "n2r", "r2n", "r2r", "i", "j"):
            if a in refs:
                refs[a + "1"] = refs[a]
        if "i" in refs:
            refs["i1r"], refs["j1r"] = refs["i"], refs["j"]
            refs["iz"] = refs["i"].copy()
            refs["iz"][[0, -1]] = 0
        for a, R in refs.items():
            if not ctx.check(a in q and q[a][1].shape == R.shape, "model:missing", "operator %s of %s is missing" % (a, what), what):
                continue
            ctx.count("operators of models")
            LE(ctx, abs(q[a][1] - R).max() / max(abs(R).max(), 1), 1e-9, "model:" + a, "operator %s of %s is not that of its definition" % (a, what), what)
        if "patches" in q:
            LE(ctx, q["patches"][0], 1e-13, "patches", "interpolation of a patch differs from the column operator: %s" % what, what)
            ctx.count("patch columns", int(q["patches"][1][0, 0]))
        ctx.check(np.all(np.diff(N) > 0) and (k["stagger"] == "int" or (np.all(np.diff(E) > 0) and np.all(N > E[:-1]) and np.all(N < E[1:]) and E[0] == 0 and abs(E[-1] - 1) < 1e-14)), "levels", "levels of %s do not increase" % what, what)


def run(ctx):
    ctx.rule = "one evaluation: one operator (order, element bounds, source, destination, boundary treatment) as a matrix, or one grid with all its operators; distinct by arguments"
    exe = ctx.harness("vops")
    direct(ctx, exe)
    models(ctx, exe)
    ctx.samples = ["interp order 3, 5 elements of heights 1 or 3, levels to interfaces, zero boundaries", "grid stagger=lor vstretch=pwlinear vorder=2 levels=8"]
