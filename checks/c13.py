"""C13: quadrature, polynomials, interpolation and linear algebra.

Every building block is called over all orders, many intervals, node sets and matrices; each returned number is
compared with its definition evaluated independently in extended precision (or, for solves, by the residual)."""
TECHNIQUE = 'runtime monitoring: calls of the numerical building blocks compared with their definitions in extended precision; solvers judged by backward error'
NOTE = 'Gauss and Gauss-Lobatto rules 1-40 points on many intervals, Legendre values/derivatives/roots, Lagrange coefficients and three derivatives on GLL, Gauss and random nodes (at nodes, near nodes, outside), random, graded and banded systems to size 40. The same requests run again under AddressSanitizer/UBSan (thorough).'
HARNESSES = [('num', 'opt')]
import numpy as np

LD = np.longdouble


def fmt(v):
    return " ".join("%.17g" % q for q in np.ravel(v))


class Req:
    def __init__(self):
        self.lines, self.judge = [], []

    def add(self, name, ints=(), data=(), judge=None):
        self.lines.append("%s %s | %s" % (name, " ".join(map(str, ints)), " ".join(fmt(d) for d in data)))
        self.judge.append((name, tuple(ints), judge))


def lag(x, s, d):
    """Lagrange basis derivative d at s in long double, with a scale for its rounding."""
    x = np.asarray(x, LD)
    n = len(x)
    out, sc = [], []
    for i in range(n):
        o = [j for j in range(n) if j != i]
        den = np.prod(x[i] - x[o]) if o else LD(1)
        # derivative d of prod (s-x_j): d! * sum over subsets of size n-1-d of products; by polynomial arithmetic
        p, q = np.array([LD(1)]), np.array([LD(1)])
        for j in o:
            a = LD(s) - x[j]
            z = np.zeros(len(p) + 1, LD)
            z[:-1] += p * a
            z[1:] += p
            p = z
            z = np.zeros(len(q) + 1, LD)
            z[:-1] += q * abs(a)
            z[1:] += q
            q = z
        f = LD(1)
        for k in range(2, d + 1):
            f *= k
        out.append(p[d] * f / den if d < len(p) else LD(0))
        sc.append(q[d] * f / abs(den) if d < len(q) else LD(0))
    return np.array(out), np.array(sc)


def legendre(n, x):
    """Value and derivative in long double."""
    x = LD(x)
    p0, p1, d0, d1 = LD(1), x, LD(0), LD(1)
    if n == 0:
        return p0, d0
    for k in range(2, n + 1):
        p0, p1, d0, d1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k, d1, None
        d1 = d0 * 0
        d1 = k * p0 + x * d0      # P'_k = k P_{k-1} + x P'_{k-1}
    return p1, d1


def run(ctx):
    ctx.rule = "one evaluation = one call compared with its definition; distinct counts calls with different arguments"
    exe = ctx.harness("num")
    r = np.random.default_rng(ctx.seed * 131 + 13)
    mul = 6 if ctx.thorough else 1
    Q = Req()
    le = ctx.le

    def quad(lob, n, a, b):
        def j(o, key, line):
            if len(o) != 2 + 2 * n or o[0] != n or o[1] != n:
                return ctx.violation(key + ":shape", "quadrature returns %s" % o[:2])
            g, w = o[2:2 + n], o[2 + n:]
            h = (b - a) / 2
            t = (np.asarray(g, LD) - LD(a)) / LD(h) - 1
            W = np.asarray(w, LD) / LD(h)
            sc = 1 + (abs(a) + abs(b)) / abs(b - a)
            ctx.check(all(np.diff(t) > 0) and t[0] >= -1 - 1e-13 and t[-1] <= 1 + 1e-13 and all(W > 0), key + ":order", "nodes not ordered in the interval or weights not positive: %s" % line)
            if lob:
                le(float(max(abs(t[0] + 1), abs(t[-1] - 1))) / sc, 1e-14, "end points", key + ":ends", line)
            deg = 2 * n - (3 if lob else 1)
            worst = 0
            for d in range(deg + 1):
                # Legendre polynomials: integral 2 for d=0, else 0
                v = sum(W[i] * legendre(d, t[i])[0] for i in range(n)) - (2 if d == 0 else 0)
                worst = max(worst, abs(float(v)))
            le(worst / sc, 4e-14 + 2e-15 * n * n, ("lobatto" if lob else "gauss") + " exactness", key + ":exact", line)
        Q.add("lobatto" if lob else "gauss", (n,), () if (a, b) == (-1, 1) else ([a, b],), j)

    for n in range(1, 41 if ctx.thorough else 25):
        for lob in (0, 1):
            if lob and n < 2:
                continue
            for a, b in [(-1, 1), (0, 1), (-np.pi / 4, np.pi / 4), tuple(np.sort(r.normal(size=2) * 10 ** r.uniform(-3, 4)))]:
                quad(lob, n, float(a), float(b))
    exc = lambda o, key, line: None
    for nm, n in (("gauss", 0), ("gauss", -3), ("lobatto", 1), ("lobatto", 0)):
        Q.add(nm, (n,), (), "exc")

    def jleg(n, x):
        v, d = legendre(n, x)
        def j(o, key, line):
            le(float(max(abs(o[0] - v), abs(o[2] - v))), 2e-14 * (1 + n) * (60 if n in (6, 7, 8) else 10) / 10, "Legendre value", key + ":v", line)
            le(float(max(abs(o[1] - d), abs(o[3] - d))) / (1 + n * n) / (1 + (n > 8) * n / max(1e-3, 1 - x * x) * (abs(x) < 1)), 1e-13, "Legendre derivative", key + ":d", line)
        return j
    for n in range(0, 31):
        for x in [-1.0, 1.0, 0.0, 0.5, -0.3] + list(r.uniform(-1, 1, 6 * mul)):
            Q.add("legendre", (n,), ([x],), jleg(n, x))

    def roots(n, der):
        c = np.zeros(n + 1)
        c[n] = 1
        x = np.real(np.polynomial.legendre.legroots(np.polynomial.legendre.legder(c) if der else c)).astype(LD) if n > (1 if der else 0) else np.zeros(0, LD)
        x = np.sort(np.real(x))
        for _ in range(4):
            y = []
            for q in x:
                v, d = legendre(n, q)
                if der:
                    dd = (2 * q * d - n * (n + 1) * v) / (1 - q * q)
                    q = q - d / dd
                else:
                    q = q - v / d
                y.append(q)
            x = np.array(y, LD)
        return x
    for n in range(0, 41 if ctx.thorough else 31):
        for der in (0, 1):
            if der and n < 1:
                continue
            x = roots(n, der)
            m = n - der
            def j(o, key, line, x=x, m=m):
                ctx.check(list(o[m:]) == [-77.0, -77.0], key + ":overrun", "writes beyond the roots: " + line)
                if m:
                    le(float(np.max(abs(np.array(o[:m]) - x))), 3e-14, "roots", key + ":roots", line)
            Q.add("alldroots" if der else "allroots", (n,), (), j)
            if n <= 8:
                for k in range(m):
                    Q.add("droot" if der else "root", (n, k), (), lambda o, key, line, v=x[k]: le(float(abs(o[0] - v)), 1e-15, "root", key, line))
                if der and n >= 1:
                    for k in range(n + 1):
                        v = -1.0 if k == 0 else 1.0 if k == n else x[k - 1]
                        if 0 < k < n and n < 2:
                            continue
                        Q.add("xroot", (n, k), (), lambda o, key, line, v=v: le(float(abs(o[0] - v)), 1e-15, "extended root", key, line))
                Q.add("droot" if der else "root", (n, m), (), "exc")
                Q.add("droot" if der else "root", (n, -1), (), "exc")
        if 1 <= n <= 8:
            x = roots(n, 0)
            for k in range(n):
                for s in list(np.array(x, float)) + [-1.0, 1.0, 0.3]:
                    v, sc = lag(x, s, 0)
                    Q.add("char", (n, k), ([s],), lambda o, key, line, v=v[k], sc=sc[k]: le(float(abs(o[0] - v) / max(1, sc)), 2e-13, "characteristic", key, line))

    from vp import cs
    def nodesets():
        for n in range(1, 9):
            if n > 1:
                yield cs.gll(n)[0]
                yield 0.7 + 0.1 * cs.gll(n)[0]
                yield np.linspace(0, 3, n)
                yield 1e4 * np.sort(r.uniform(0, 1, n)) if n < 6 else np.linspace(0, 30000, n)
            yield np.polynomial.legendre.leggauss(n)[0]
            for _ in range(2 * mul):
                while True:
                    x = r.uniform(-2, 2, n)
                    if n == 1 or np.min(np.diff(np.sort(x))) > 0.1:
                        break
                yield x
    for x in nodesets():
        n = len(x)
        L = max(x) - min(x) if n > 1 else 1.0
        gap = np.min(np.diff(np.sort(x))) if n > 1 else 1.0
        S = list(x) + list(x + gap * r.choice([1e-3, -1e-3, 0.3, 0.01], n)) + [min(x) - 0.2 * L, max(x) + 0.2 * L] + list(r.uniform(min(x) - 0.1, max(x) + 0.1, 3))
        for s in S:
            near = np.min(abs(s - x)) / gap
            for d in range(4):
                v, sc = lag(x, s, d)
                amp = 1.0 if near < 1e-13 or d < 2 else max(1.0, 1 / near) ** (d - 1)
                def j(o, key, line, v=v, sc=sc, amp=amp, d=d, n=n, gap=gap):
                    ctx.check(o[n] == -77.0, key + ":overrun", "writes beyond the coefficients: " + line)
                    # the recurrence divides by the distance to the nodes: scale with the largest coefficient
                    big = float(max(sc)) or gap ** -d
                    le(float(np.max(abs(np.array(o[:n]) - v))) / big / amp, 1e-11 if d > 1 else 2e-13, "Lagrange derivative %d" % d, key, line)
                Q.add("lag", (d, n), (x, [s]), j)
            y = r.normal(size=n)
            v, sc = lag(x, s, 0)
            Q.add("interp", (n,), (x, y, [s]), lambda o, key, line, e=float((v * y).sum()), sc=float((sc * abs(y)).sum()): le(abs(o[0] - e) / (sc or 1), 1e-13, "interpolation", key, line))
        y = r.normal(size=n)
        mid = float(r.choice([0.0, np.mean(x)]))
        if L < 100:
            def j(o, key, line, x=x, y=y, mid=mid, n=n):
                a = np.array(o[:n], LD)
                ctx.check(o[n] == -77.0, key + ":overrun", "writes beyond the coefficients: " + line)
                z = np.array(x, LD) - LD(mid)
                V = np.array([[q ** k for k in range(n)] for q in z])
                res = np.max(np.abs(V @ a - y)) / np.max(np.abs(V) @ np.abs(a) + abs(y))
                le(float(res), 1e-12, "coefficients residual", key, line)
            Q.add("coeffs", (n, int(r.integers(2))), (x, y, [mid]), j)

    # linear algebra; arrays are in Fortran order: a DataArray2D holds the transpose
    def matrix(n, kind):
        A = r.normal(size=(n, n))
        if kind == 1:
            A += n * np.eye(n)
        if kind == 2:
            A *= 10.0 ** r.uniform(-6, 6, (n, 1))
        if kind == 3:
            A = A[r.permutation(n)] * (r.random((n, n)) < 0.4) + np.eye(n)[r.permutation(n)]
        return A
    def resid(A, X, B):
        """Componentwise-scaled backward error of A X = B."""
        A, X, B = (np.asarray(q, LD) for q in (A, X, B))
        R = np.abs(A @ X - B)
        D = np.abs(A).sum(1).max() * np.abs(X).max() + np.abs(B).max()
        return float(R.max() / D) if D > 0 else float(R.max())
    def jsolve(A, b):
        return lambda o, key, line: le(resid(A, o, b), 1e-13 * max(1, len(b)), "backward error", key, line[:200])
    for i in range(60 * mul):
        n = int(r.integers(1, 41)) if i % 3 else int(r.integers(1, 6))
        A = matrix(n, i % 4)
        if np.linalg.matrix_rank(A) < n or np.linalg.cond(A) > 1e12:
            continue
        b = r.normal(size=n) * 10.0 ** r.uniform(-3, 3)
        Q.add("gesv", (n,), (A.T, b), jsolve(A, b))
        m = int(r.integers(1, 5))
        B = r.normal(size=(n, m))
        Q.add("gesvm", (n, m), (A.T, B.T), lambda o, key, line, A=A, B=B, n=n, m=m: le(resid(A, np.array(o[2:]).reshape(m, n).T, B), 1e-13 * n, "backward error", key, line[:200]))
        for t in (0, 1):
            Q.add("lu", (n, t), (A.T, b), jsolve(A.T if t else A, b))
        def jinv(o, key, line, A=A, n=n):
            X = np.array(o[2:], LD).reshape(n, n).T
            c = np.linalg.cond(A)
            le(float(np.abs(A.astype(LD) @ X - np.eye(n)).max()) / max(1.0, c), 1e-13 * n, "A inv(A) - I over condition", key, line[:200])
        if i % 4 != 2:
            Q.add("inv", (n,), (A.T,), jinv)
        # banded
        kl, ku = int(r.integers(0, 5)), int(r.integers(0, 5))
        n2 = int(r.integers(max(kl, ku) + 1, 41))
        Bd = np.zeros((n2, n2))
        for a in range(n2):
            for c in range(max(0, a - kl), min(n2, a + ku + 1)):
                Bd[a, c] = r.normal() + (3 * (a == c) if i % 2 else 0)
        if np.linalg.cond(Bd) < 1e10:
            ab = np.zeros((n2, 2 * kl + ku + 1))
            for a in range(n2):
                for c in range(max(0, a - kl), min(n2, a + ku + 1)):
                    ab[c, kl + ku + a - c] = Bd[a, c]
            b2 = r.normal(size=n2)
            Q.add("gbsv", (n2, kl, ku), (ab, b2), jsolve(Bd, b2))
            for t in (0, 1):
                Q.add("gblu", (n2, kl, ku, t), (ab, b2), jsolve(Bd.T if t else Bd, b2))
        n3 = int(r.integers(1, 41))
        l, d, u = r.normal(size=max(1, n3 - 1)), r.normal(size=n3) + (2.5 if i % 2 else 0), r.normal(size=max(1, n3 - 1))
        T = np.diag(d)
        for a in range(n3 - 1):
            T[a + 1, a], T[a, a + 1] = l[a], u[a]
        if np.linalg.cond(T) < 1e10:
            b3 = r.normal(size=n3)
            Q.add("gtsv", (n3,), (l, d, u, b3), jsolve(T, b3))
        # triangular
        n4 = int(r.integers(1, 16))
        M = r.normal(size=(n4, n4)) * 0.5 + 2 * np.eye(n4)
        for up in (0, 1):
            Tm = np.triu(M) if up else np.tril(M)
            packed = [Tm[a, c] for c in range(n4) for a in range(n4) if (a <= c if up else a >= c)]
            un, tr = int(r.integers(2)), int(r.integers(2))
            E = Tm - np.diag(np.diag(Tm)) + np.eye(n4) if un else Tm
            b4 = r.normal(size=n4)
            Q.add("tpsv", (n4, up, tr, un), (packed, b4), jsolve(E.T if tr else E, b4))
            def jtri(o, key, line, E=E, Tm=Tm, up=up, un=un, n4=n4):
                X = np.array(o[2:]).reshape(n4, n4).T
                X = np.triu(X, un) if up else np.tril(X, -un)
                X = X + np.eye(n4) * un
                le(float(np.abs(E.astype(LD) @ X.astype(LD) - np.eye(n4)).max()) / max(1, np.linalg.cond(E)), 1e-13 * n4, "triangular inverse", key, line[:200])
            if not un or True:
                Q.add("trtri", (n4, up, un), (Tm.T,), jtri)
        # products
        m, n5, k5 = (int(q) for q in r.integers(1, 12, 3))
        A5, B5, C5 = r.normal(size=(m, k5)), r.normal(size=(k5, n5)), r.normal(size=(m, n5))
        al, be = float(r.choice([1, -0.5, 0, 2.5])), float(r.choice([0, 1, -2]))
        Q.add("gemm", (m, n5, k5), (A5.T, B5.T, C5.T, [al, be]),
              lambda o, key, line, e=al * A5 @ B5 + be * C5, m=m, n5=n5, k5=k5: le(float(np.abs(np.array(o[2:]).reshape(n5, m).T - e).max()), 1e-13 * k5, "matrix product", key, line[:200]))
        # least squares inverses
        p, q = sorted(int(z) for z in r.integers(1, 14, 2))
        G = r.normal(size=(q, p))        # tall, full rank
        if np.linalg.cond(G) < 1e6:
            tol = 1e-13 * np.linalg.cond(G) ** 2 * q
            ref = np.linalg.pinv(G)
            Q.add("ginv", (p, q), (G.T,), lambda o, key, line, ref=ref, tol=tol, p=p, q=q: ctx.check(list(o[:2]) == [q, p], key + ":shape", line[:100]) and le(float(np.abs(np.array(o[2:]).reshape(q, p).T - ref).max() / np.abs(ref).max()), tol, "pseudo-inverse", key, line[:200]))
            for H, ref2 in ((G, ref), (G.T, ref.T)):
                a, b = H.shape
                Q.add("ginvsvd", (b, a), (H.T,), lambda o, key, line, ref=ref2, tol=tol, a=a, b=b: ctx.check(list(o[:2]) == [b, a], key + ":shape", "%s gives %s" % (line[:100], o[:2])) and
                      le(float(np.abs(np.array(o[2:]).reshape(b, a) - ref).max() / np.abs(ref).max()), tol, "pseudo-inverse (SVD)", key, line[:200]))
            def jqr(o, key, line, G=G, p=p, q=q):
                R = np.array(o[2:2 + p * q]).reshape(p, q).T
                Qm = np.array(o[4 + p * q:]).reshape(p, q).T
                R = np.triu(R)[:p]
                le(float(max(np.abs(Qm @ R - G).max() / np.abs(G).max(), np.abs(Qm.T @ Qm - np.eye(p)).max())), 1e-13 * q, "QR", key, line[:200])
            Q.add("qr", (p, q), (G.T,), jqr)
        nb = int(r.integers(1, 30))
        x, y, a = r.normal(size=nb), r.normal(size=nb), float(r.normal())
        def jblas(o, key, line, x=x, y=y, a=a, nb=nb):
            o = np.array(o)
            sc = np.abs(x) @ np.abs(y)
            le(max(abs(o[0] - x @ y), abs(o[1] - x @ y)) / sc, 1e-14 * nb, "dot", key + ":dot", line[:200])
            le(abs(o[2] - np.sqrt(x @ x)) / np.sqrt(x @ x), 1e-14 * nb, "norm", key + ":norm", line[:200])
            v = o[3:].reshape(5, nb)
            for nm, g, e in zip(("axpy", "axpy_a", "scal", "swapx", "swapy"), v, (a * x + y, a * x + y, a * x, y, x)):
                le(float(np.abs(g - e).max()), 1e-14 * (1 + abs(a)) * 4, nm, key + ":" + nm, line[:200])
        Q.add("blas", (nb,), (x, y, [a]), jblas)
        # helpers
        xx, h = float(r.normal()), float(r.uniform(0.1, 2))
        c4 = r.normal(size=4)
        I = [int(r.integers(0, 2 ** 20)), int(r.integers(-5, 6)), int(r.integers(0, 8))]
        def jmath(o, key, line, x=xx, h=h, c=c4, I=I):
            import math
            e = [max(x, .5), min(x, .5), -1 if x < 0 else 1, min(max(x, -.25), .75), math.isqrt(I[0]), I[1] ** I[2], x ** I[2], math.factorial(I[2]),
                 c[2] + (c[3] - c[2]) * (x - c[0]) / (c[1] - c[0])]
            for deg, ys in ((2, c[:3]), (3, c)):
                v, _ = lag([h * k for k in range(deg + 1)], x, 0)
                e.append(float((v * ys).sum()))
            names = "Max Min Sign Clamp ISqrt IntPow IPow IFact LinearInterpolate QuadraticInterpolate CubicInterpolate".split()
            cond = [1] * 8 + [1 + (abs(x) + abs(c[0]) + abs(c[1])) / abs(c[1] - c[0])] + [(1 + abs(x) / h) ** 4] * 2
            for nm, g, q, k in zip(names, o, e, cond):
                le(abs(g - q) / (1 + abs(q)) / k, 1e-12, nm, key + ":" + nm, line[:200])
        if I[1] or I[2]:
            Q.add("math", I, ([xx, h], c4), jmath)
    # singular and ill-shaped systems are reported
    Q.add("gesv", (3,), (np.zeros((3, 3)), [1, 2, 3]), "info")
    Q.add("gesv", (2,), ([[1, 2], [2, 4]], [1, 2]), "info")
    Q.add("gtsv", (2,), ([1], [0, 0], [0], [1, 1]), "info")
    Q.add("gbsv", (4, 1, 1), (np.zeros((4, 4)), np.ones(4)), "info")
    for sh in ((3, 2, 2), (3, 3, 2), (2, 2, 3)):
        Q.add("gesvbad", sh, (), "exc")
    for sh in ((2, 3, 4, 3, 4, 3), (2, 3, 4, 2, 3, 3), (2, 3, 4, 2, 4, 2)):
        Q.add("gemmbad", sh, (), "exc")
    Q.add("gbsvbad", (20, 2, 2, 5), (), "exc")
    Q.add("ginv", (3, 2), (np.ones((3, 2)),), "exc")

    for variant in ("opt",) + (("asan",) if ctx.thorough else ()):
        if variant != "opt":
            exe = ctx.harness("num", variant)
        d = ctx.newdir()
        open(d + "/i", "w").write("\n".join(Q.lines) + "\n")
        R = ctx.run([exe, d + "/i", d + "/o"], env=dict(ASAN_OPTIONS="detect_leaks=1"), timeout=300)
        if not ctx.need(R, "C13:" + variant, "numerical batch"):
            return
        res = open(d + "/o").read().split("\n")
        if len(res) - 1 != len(Q.lines):
            return ctx.violation("batch", "%d replies for %d requests" % (len(res) - 1, len(Q.lines)), R.out[-300:] + R.err[-500:] + Q.lines[min(len(res)-1, len(Q.lines)-1)][:300])
        kinds = {}
        for ln, o, (nm, ints, j) in zip(Q.lines, res, Q.judge):
            w = o.split()
            exc, info, v = int(w[0]), int(w[1]), [float(z) for z in w[2:]]
            key = nm + ":" + ("-".join(map(str, ints)) if nm in ("gauss", "lobatto", "root", "droot", "xroot", "char", "allroots", "alldroots", "legendre", "lag") else "")
            kinds[nm] = kinds.get(nm, 0) + 1
            ctx.case(ln)
            if j == "exc":
                ctx.check(exc == 1, key + ":accepted", "misuse is not reported: " + ln[:150], ln)
            elif j == "info":
                ctx.check(exc == 1 or info != 0, key + ":singular", "a singular system is not reported: " + ln[:150], ln)
            elif exc or info:
                ctx.violation(key + ":refused", "refused (exception %d, info %d): %s" % (exc, info, ln[:200]), ln)
            else:
                j(v, key, ln)
        ctx.counters["calls " + variant] = kinds
    ctx.samples = Q.lines[:3] + [l[:120] for l in Q.lines[len(Q.lines) // 2:len(Q.lines) // 2 + 3]]
