"""C10: the schedule of steps, outputs and attached processes.

The model's own loop runs with a recording time scheme, output managers and processes; the event log of each run is
compared, event by event, with a schedule worked out with exact calendar arithmetic."""
TECHNIQUE = 'runtime monitoring: trace checker over the recorded events (steps, outputs, files, process calls) of the real time loop'
NOTE = 'Random start, end, step, output intervals (zero, not dividing the step, shorter than the step, months, sub-second) and file splits; several managers and processes per run. Step lengths to 1e-8 s + 1e-9 relative (times have microsecond resolution).'
HARNESSES = [('sched', 'opt')]
import math, random, re
from vp.caltime import T, NOLEAP, FIX, DELTA


def txt(v):
    """An interval (y, M, d, s, u) in free format."""
    return "".join("%d%s" % (n, c) for n, c in zip(v, "yMdsu") if n) or "-"


def add(t, v):
    return t.plus(*v)


def long(t):
    return t.strs().split("|")[2]


def scenario(r, n):
    u = lambda q: (0, 0, 0, q // 10 ** 6, q % 10 ** 6)
    start = T(NOLEAP, FIX, r.choice([0, 1, 1999, 2000, r.randrange(3000)]), r.choice([0, 1, 11, r.randrange(12)]), r.choice([0, 27, 30, r.randrange(28)]), r.choice([0, 86399, r.randrange(86400)]), r.choice([0, 0, 999999, r.randrange(10 ** 6)]))
    steps = r.choice([1, 2, 3, r.randrange(1, 40)])
    unit = r.choice([1, 10 ** 3, 10 ** 6, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6])
    dt = u(unit * r.randrange(1, 400))
    if r.random() < 0.12:
        dt = r.choice([(0, 0, r.randrange(1, 50), 0, 0), (0, 1, 0, 0, 0), (1, 0, 0, 0, 0), (0, 0, 40, 1, 5)])
    dus = ((dt[2]) * 86400 + dt[3]) * 10 ** 6 + dt[4] + (dt[0] * 365 + dt[1] * 30) * 86400 * 10 ** 6
    end = start
    for _ in range(steps - 1):
        end = add(end, dt)
    last = r.choice([dus, dus, r.randrange(1, dus + 1)])
    end = add(end, u(last))
    if r.random() < 0.05:
        end = r.choice([start, T(NOLEAP, FIX, 0, 0, 0, 0, 1) if start.key() > (0, 0, 0, 0, 1) else start])

    def freq():
        q = r.random()
        if q < 0.12:
            return (0,) * 5
        if q < 0.4:
            return tuple(x * k for x in dt for k in [1]) if r.random() < 0.3 else u(dus * r.randrange(1, 7))
        if q < 0.6:
            return u(max(1, int(dus * r.uniform(1, 6))))
        if q < 0.75:
            return u(max(1, int(dus * r.uniform(0.05, 1))))
        if q < 0.85:
            return (0, r.randrange(1, 3), r.choice([0, 0, 3]), 0, 0)
        return u(dus + r.choice([-1, 1]) if dus > 1 else 2)
    outs = [(freq(), r.choice([-1, 1, 2, 3, 7])) for _ in range(r.choice([0, 1, 2, 3]))]
    procs = [freq() for _ in range(r.choice([0, 1, 2]))]
    return dict(id=n, start=start, end=end, dt=dt, outs=outs, procs=procs)


def line(s):
    return " ".join([str(s["id"]), long(s["start"])[:16] if not s["start"].us else s["start"].strs().split("|")[3].replace(" ", "-"), s["end"].strs().split("|")[3].replace(" ", "-"), txt(s["dt"]),
                     str(len(s["outs"]))] + ["%s %d" % (txt(f), p) for f, p in s["outs"]] + [str(len(s["procs"]))] + [txt(f) for f in s["procs"]])


def expected(s):
    """Events; entries that may or may not occur are marked optional."""
    ev = [("init",)]
    start, end = s["start"], s["end"]
    if start.key() >= end.key():
        return ev + [("end", long(start))], 0
    no = len(s["outs"])
    inf = [0] * no
    isopen = [False] * no

    def out(i, t):
        if not isopen[i]:
            ev.append(("open", i, long(t)))
            isopen[i] = True
        ev.append(("out", i, long(t)))
        inf[i] += 1
        if inf[i] == s["outs"][i][1]:
            ev.append(("close", i))
            isopen[i] = False
            inf[i] = 0
    for i in range(no):
        out(i, start)
    nxt = [add(start, f) if any(f) else None for f, _ in s["outs"]]
    pnx = [add(start, f) if any(f) else None for f in s["procs"]]
    t, first = start, True
    n = 0
    while True:
        q = add(t, s["dt"])
        last = q.key() >= end.key()
        if last:
            q = end
        ev.append(("step", int(first), int(last), long(t), float(q.total() - t.total())))
        n += 1
        prev, t, first = t, q, False
        for i, f in enumerate(s["procs"]):
            if pnx[i] is None:
                continue
            hit = 0
            while pnx[i].key() <= t.key():
                pnx[i] = add(pnx[i], f)
                hit += 1
            if hit:
                ev.append(("perf", i, long(t)))
            elif last and add(t, f).key() < add(t, s["dt"]).key():
                # interval below the step and last step below the interval: a call that catches up is allowed
                ev.append(("perf?", i, long(t)))
        for i, (f, _) in enumerate(s["outs"]):
            hit = 0
            if nxt[i] is not None:
                while nxt[i].key() <= t.key():
                    nxt[i] = add(nxt[i], f)
                    hit += 1
            if hit or last:
                out(i, t)
        if last:
            break
    return ev + [("end", long(end))], n


def run(ctx):
    ctx.rule = "one evaluation = one run of the time loop whose whole event log was compared with the exact schedule"
    exe = ctx.harness("sched")
    N = 6000 if ctx.thorough else 800
    r = ctx.rng
    sc = [scenario(r, i) for i in range(N)]
    per = 50
    batches = [sc[i:i + per] for i in range(0, N, per)]

    def go(b):
        p = ctx.path("s%d" % b[0]["id"], "in")
        open(p, "w").write("\n".join(line(s) for s in b) + "\n")
        res = ctx.run([exe, "in=" + p], timeout=120)
        if not ctx.need(res, "schedule", "time loop"):
            return
        logs, cur = {}, None
        for l in res.out.splitlines():
            if l.startswith("@S "):
                cur = logs.setdefault(int(l[3:]), [])
            elif l.startswith("@E ") and cur is not None:
                cur.append(l[3:].split())
        for s in b:
            judge(s, logs.get(s["id"], []))

    def judge(s, log):
        exp, n = expected(s)
        what = line(s)
        ctx.case(what, sample=dict(scenario=what, steps=n, log=[" ".join(e) for e in log[:12]]) if n > 1 else None, nontrivial=n > 0)
        ctx.count("steps", n)
        names = {}
        total = []
        j = 0
        bad = None
        for e in exp:
            g = log[j] if j < len(log) else ["(nothing)"]
            if e[0] == "perf?":
                if g[0] == "perf" and g[1] == str(e[1]) and g[2] == e[2]:
                    j += 1
                continue
            j += 1
            k = e[0]
            if g[0] != k:
                bad = ("order", e, g)
                break
            ctx.count("events " + k)
            if k == "step":
                if g[1:4] != [str(e[1]), str(e[2]), e[3]]:
                    bad = ("step", e, g)
                    break
                total.append(float(g[4]))
                if abs(float(g[4]) - e[4]) > 1e-9 * e[4] + 1e-8:
                    bad = ("step length", e, g)
                    break
            elif k == "open":
                if g[1] != str(e[1]) or len(g) != 3 or not g[2].startswith("/p." + e[2][:16]):
                    bad = ("file", e, g)
                    break
                if (e[1], g[2]) in names:
                    bad = ("file name used twice", e, g)
                    break
                names[(e[1], g[2])] = 1
            elif [str(x) for x in e[1:]] != g[1:]:
                bad = (k, e, g)
                break
        if bad is None and j != len(log):
            bad = ("extra event", None, log[j])
        if bad:
            ctx.violation("schedule:" + bad[0], "expected %s, saw %s (event %d) in: %s" % (bad[1], bad[2], j, what), dict(scenario=what, log=[" ".join(e) for e in log[:200]]))
            return
        if total:
            L = float(s["end"].total() - s["start"].total())
            ctx.le(abs(math.fsum(total) - L) / (1e-9 * L + 1e-8 * len(total)), 1, "sum of steps", "schedule:length", what)

    ctx.pmap(go, batches, workers=7)
