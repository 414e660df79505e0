"""C08: checkpoints.

(a) a recorder dumps every array of every patch before each checkpoint is written and again in the run restarted from
that file, which must be identical bit for bit, and so must the ends of both runs (also through a second checkpoint
written by the restarted run, and with other numbers of processes); (b) fault injection: the process writing a
checkpoint is killed at a random byte, files are truncated or altered, the file-size limit is hit, or the run is
configured for other tracers or equations: a file that is not exactly the checkpoint must be refused."""
TECHNIQUE = 'runtime monitoring with fault injection: bit-exact comparison of recorded arrays of stopped-and-restarted and uninterrupted runs; crashes injected at random bytes of checkpoint writes, damaged files'
NOTE = 'Random configurations over grids, equation sets, schemes, staggering options, topography, planetary constants, process counts. Continuation is not compared for Strang on nonhydrostatic equations, which carries a tendency between steps.'
HARNESSES = [('sim', 'opt'), ('simw', 'opt')]
import glob, os, re
import numpy as np
from vp import conf
from vp.sim import sim, drop, args

WHAT = "stGrl"


def same(ga, gb):
    """Arrays that differ (name: patches)."""
    bad = {}
    pa = {p.ix: p for p in ga.patches}
    pb = {p.ix: p for p in gb.patches}
    n = 0
    if set(pa) != set(pb):
        return {"patches": "%s/%s" % (sorted(pa), sorted(pb))}, 0
    for i in pa:
        if (pa[i].a0, pa[i].a1, pa[i].b0, pa[i].b1, pa[i].panel) != (pb[i].a0, pb[i].a1, pb[i].b0, pb[i].b1, pb[i].panel):
            bad["box"] = i
        if set(pa[i].a) != set(pb[i].a):
            bad["arrays"] = sorted(set(pa[i].a) ^ set(pb[i].a))
            continue
        for m in pa[i].a:
            u, v = pa[i].a[m], pb[i].a[m]
            n += u.size
            if u.shape != v.shape:
                bad[m] = "shape"
            elif u.tobytes() != v.tobytes():
                bad[m] = float(np.nanmax(np.abs(u - v)))
    for m in ga.g:
        if m not in gb.g or ga.g[m].tobytes() != gb.g[m].tobytes():
            bad["global " + m] = 1
    return bad, n


def carries(k):
    return k["scheme"].startswith("strang") and k.get("eq") != "sw"


def seconds(t):
    return int(t[:-1])


def scenario(r, i):
    g = conf.KINDS[i % len(conf.KINDS)]
    k = conf.make(r, g, steps=4)
    if k["grid"] == "cs" and r.random() < 0.3:
        k["patches"] = 6
    for key, v in (("omega", 1e-4), ("gconst", 9.7), ("Rd", 290.0), ("radius", 6.2e6)):
        if r.random() < 0.3 and not (key == "radius" and k["grid"] != "cs"):
            k[key] = v
    if k.get("eq") != "sw" and r.random() < 0.3:
        k["rayleigh"] = 0.001
    if k["grid"] == "xz":
        k["reflat"] = r.choice([0, 0.7])
    if r.random() < 0.15:
        k.pop("tr")
    k["end"] = "%ds" % (seconds(k["dt"]) * 5)
    cut = r.choice([1, 2, 3])
    return g, k, cut


def run(ctx):
    ctx.rule = "one evaluation = one restart whose arrays and outcome were compared bit for bit, or one damaged checkpoint offered to the model"
    exe, exw = ctx.harness("sim"), ctx.harness("simw")
    N = 60 if ctx.thorough else 16
    M = 120 if ctx.thorough else 16
    r = ctx.rng
    items = [("chain",) + scenario(r, i) + (r.randrange(1 << 30),) for i in range(N)]
    items += [("fault",) + scenario(r, r.randrange(8)) + (r.randrange(1 << 30),) for i in range(M // 4)]

    import random

    def first(k, cut, n, e=None, **kw):
        return sim(ctx, e or exe, np_=n, what=WHAT, rdt=k["dt"], **dict(k, **kw))

    def files(run):
        return sorted(glob.glob(os.path.dirname(run.prefix) + "/out/*.restart.dat"))

    def restart(k, n, f, **kw):
        q = {a: b for a, b in k.items() if a not in ("patches", "start")}
        return sim(ctx, exe, np_=n, what=WHAT, restart=f, **dict(q, **kw))

    def go(it):
        kind, g, k, cut, seed = it
        q = random.Random(seed)
        n1 = conf.nproc(q, k)
        lab = conf.label(k)
        A = first(k, cut, n1)
        if A.res.rc == 9 and "Inversion" in A.res.out:
            ctx.count("unstable configurations skipped")     # not a question about checkpoints
            if ctx.counters["unstable configurations skipped"] > len(items) // 4:
                ctx.need(A.res, "run", "model run")
            return
        if not ctx.need(A.res, "run", "model run"):
            return
        fs = files(A)
        if len(fs) != 6:
            ctx.violation("files:count", "%d checkpoint files instead of 6: %s" % (len(fs), A.cmd()))
            return
        end = re.search(r"@END time=(\S+ \S+)", A.res.out).group(1)
        try:
            if kind == "chain":
                chain(A, fs, end, g, k, cut, q, lab, n1)
            else:
                fault(A, fs, end, g, k, cut, q, lab, n1)
        finally:
            drop(A)

    def compare(A, ta, B, tb, what, lab, detail):
        bad, n = same(A.grid(ta), B.grid(tb))
        ctx.count("values compared " + what, n)
        if bad:
            ctx.violation("restart:%s:%s" % (what, "geometry" if not set(bad) <= {"node", "redge", "tracers"} else "state"), "%s %s differs: %s: %s" % (lab, what, bad, detail))
            return False
        return True

    def chain(A, fs, end, g, k, cut, q, lab, n1):
        pc = k.get("patches", 6 if k["grid"] == "cs" else n1)
        n2 = q.choice([1, 1] + [n for n in (2, 3, 4, 5, 6) if n <= pc])
        B = restart(k, n2, fs[cut], rdt=k["dt"])
        if not ctx.need(B.res, "restart", "restarted run"):
            return
        ctx.case((lab, cut, n1, n2, tuple(sorted(k.items()))), sample=dict(config=lab, cut=cut, np=[n1, n2]))
        d = "%s | %s" % (A.cmd(), B.cmd())
        if not compare(A, cut, B, 0, "contents", lab, d):
            return
        e2 = re.search(r"@END time=(\S+ \S+) steps=(-?\d+)", B.res.out)
        ctx.check(e2.group(1) == end and int(e2.group(2)) == 5 - cut, "restart:time", "%s ended at %s after %s steps, not at %s after %d: %s" % (lab, e2.group(1), e2.group(2), end, 5 - cut, d))
        if not carries(k):
            for s in range(cut + 1, 6):
                if not compare(A, s, B, s - cut, "continuation", lab, d):
                    return
        # the restarted run's own checkpoints
        fb = files(B)
        if [os.path.basename(f) for f in fb] != [os.path.basename(f) for f in fs[cut:]]:
            ctx.violation("files:names", "checkpoints of the restarted run are %s: %s" % ([os.path.basename(f) for f in fb], d))
            return
        if not carries(k) and n1 == n2:
            pass
        c2 = q.randrange(0, 5 - cut)
        C = restart(k, q.choice([1, n1]), fb[c2])
        if ctx.need(C.res, "restart2", "run restarted twice"):
            compare(B, c2, C, 0, "second contents", lab, d + " | " + C.cmd())
            if not carries(k):
                compare(A, "final", C, "final", "second continuation", lab, d + " | " + C.cmd())
            ctx.case((lab, "again", cut, c2, tuple(sorted(k.items()))))
        drop(C)
        drop(B)

    def offer(A, k, f, what, lab, cmd, cut, maybe=False, **kw):
        """The model must refuse file f; with maybe it may accept it if it then continues as the whole file would."""
        B = restart(k, None, f, **kw)
        ctx.count("offered " + what)
        ctx.case((lab, what, cut, os.path.getsize(f) if os.path.exists(f) else -1, tuple(sorted(k.items()))))
        if B.ended:
            if not maybe:
                ctx.violation("accepted:" + what, "%s: the run used a damaged checkpoint (%s): %s | %s" % (lab, what, cmd, B.cmd()))
            else:
                ctx.count("accepted complete file")
                compare(A, cut, B, 0, "contents after a crash", lab, cmd)
        elif "@EXC" not in B.res.out or "@END" in B.res.out:
            ctx.violation("report:" + what, "%s: rc %s and no error message (%s): %s | %s" % (lab, B.res.rc, what, cmd, B.cmd()))
        elif "Step 0000" in B.res.out:
            ctx.violation("accepted:" + what, "%s: the run made steps from a damaged checkpoint (%s): %s | %s" % (lab, what, cmd, B.cmd()))
        else:
            ctx.count("refused")
        drop(B)

    def fault(A, fs, end, g, k, cut, q, lab, n1):
        raw = open(fs[cut], "rb").read()
        t = os.path.dirname(A.prefix) + "/damaged"
        sz = len(raw)
        for n in {q.randrange(0, 600), q.randrange(sz), sz - q.choice([1, 8, q.randrange(1, 4000)])}:
            open(t, "wb").write(raw[:n])
            offer(A, k, t, "truncated", lab, A.cmd() + " first %d bytes" % n, cut)
        b = bytearray(raw[:])
        b[q.randrange(4)] ^= q.randrange(1, 256)
        open(t, "wb").write(bytes(b))
        offer(A, k, t, "check bits", lab, A.cmd(), cut)
        offer(A, k, t + ".none", "missing", lab, A.cmd(), cut)
        offer(A, dict(k, tr="u:1,u:1" if k.get("tr") is None or q.random() < 0.5 else None), fs[cut], "other tracers", lab, A.cmd(), cut)
        if k["grid"] == "cs":
            e = dict(k, eq="nh", levels=6, vorder=1, hmethod="V1") if k.get("eq") == "sw" else dict(k, eq="sw")
            offer(A, e, fs[cut], "other equations", lab, A.cmd(), cut)
        # a crash while the checkpoint is written
        for n in (None, conf.nproc(q, k, 0.1)):
            c = q.choice([q.randrange(sz), q.randrange(sz), q.randrange(64), sz - q.randrange(0, 64), sz, sz + q.randrange(5)])
            pre = ctx.path("w%d" % q.randrange(1 << 30), "d")
            name = os.path.basename(fs[cut])
            a = args(dict(k, rdt=k["dt"], dump=pre, every=0))
            res = ctx.run([exw] + a, np=n, timeout=120, cwd=os.path.dirname(pre), retry=False, env=dict(VP_WCUT=str(c), VP_WFILE=name))
            f = os.path.dirname(pre) + "/out/" + name
            ctx.count("crashes injected", int(res.rc != 0))
            if os.path.exists(f):
                offer(A, k, f, "crash while writing", lab, "VP_WFILE=%s VP_WCUT=%d np=%s %s" % (name, c, n, " ".join(a)), cut, maybe=True)
        # file-size limit: the error must be reported and the file not accepted
        pre = ctx.path("l%d" % q.randrange(1 << 30), "d")
        kb = q.randrange(1, max(2, sz // 1024))
        a = args(dict(k, rdt=k["dt"], dump=pre, every=0))
        res = ctx.run(["bash", "-c", 'trap "" XFSZ; ulimit -f %d; exec "$@"' % kb, "x", exe] + a, timeout=120, cwd=os.path.dirname(pre), retry=False)
        ctx.count("file-size limits hit")
        if res.rc == 0:
            ctx.violation("full disk:silent", "%s: the run ended normally although its checkpoints could not be written: ulimit -f %d; %s" % (lab, kb, " ".join(a)))
        f = os.path.dirname(pre) + "/out/" + os.path.basename(fs[0])
        if os.path.exists(f):
            offer(A, k, f, "size limit", lab, "ulimit -f %d %s" % (kb, " ".join(a)), 0)

    ctx.pmap(go, items, workers=5)
