"""C16: calendar time arithmetic.

The Time class is driven with long random histories of operations; every result is compared with exact integer
arithmetic written independently here (days counted from year 0)."""
TECHNIQUE = 'runtime monitoring: every result of random histories of Time operations checked online against exact integer calendar arithmetic (built with UndefinedBehaviorSanitizer)'
NOTE = 'NoLeap and Standard (Gregorian) calendars, years 1-9998, steps of up to centuries in either direction, all text formats and mutated text. Differences in seconds are checked to the rounding of a double; the Standard calendar reports that it has no difference.'
HARNESSES = [('timeh', 'asan')]
import re
from fractions import Fraction
from vp.caltime import T, mdays, NOLEAP, STD, FIX, DELTA

def hexs(x):
    return x.encode().hex() or "-"


def gen_text(r, cal):
    """A legal text, and the time it means (None: no claim)."""
    k = r.randrange(6)
    y, m, d = r.randrange(1, 9998), r.randrange(12), 0
    d = r.randrange(mdays(cal, y, m))
    s, u = r.randrange(86400), r.choice([0, 1, 999999, r.randrange(10 ** 6)])
    hms = (s // 3600, s % 3600 // 60, s % 60)
    if k == 0:
        return "%04d-%02d-%02d" % (y, m + 1, d + 1), T(cal, FIX, y, m, d)
    if k == 1:
        return "%04d-%02d-%02d-%05d" % (y, m + 1, d + 1, s), T(cal, FIX, y, m, d, s)
    if k == 2:
        return "%04d-%02d-%02d%s%02d:%02d:%02d" % ((y, m + 1, d + 1, r.choice("- ")) + hms), T(cal, FIX, y, m, d, s)
    if k == 3:
        return "%04d-%02d-%02d%s%02d:%02d:%02d.%06d" % ((y, m + 1, d + 1, r.choice("- ")) + hms + (u,)), T(cal, FIX, y, m, d, s, u)
    if k == 4:
        return "%04d-%02d" % (y, m + 1), T(cal, FIX, y, m, 0)
    un = [c for c in "yMdhmsu" if r.random() < 0.4] or ["s"]
    if r.random() < 0.3:
        r.shuffle(un)
    v = {c: r.choice([0, 1, r.randrange(1, 40), r.randrange(1, 3000)]) for c in un}
    if "s" in v:
        v["s"] = r.choice([v["s"], r.randrange(10 ** 7)])
    g = v.get
    return "".join("%d%s" % (v[c], c) for c in un), T(cal, DELTA, g("y", 0), g("M", 0), g("d", 0), g("h", 0) * 3600 + g("m", 0) * 60 + g("s", 0), g("u", 0))


def bad_text(r):
    """Text that is none of the formats."""
    k = r.randrange(10)
    n = r.randrange(1, 60)
    return [
        "%d" % n, "%ds%d" % (n, n), "%ds%ds" % (n, n), "%dx" % n, "%ds%d:%d" % (n, n, n), "%02d:%02d:%02d-%d" % (n % 24, n, n, n),
        "2001-%02d-05-%05d-%d-%d" % (n % 12 + 1, n, n, n), "%d:%d:%d.%d:%d" % (n, n, n, n, n), "-%ds" % n,
        r.choice(["abc", "s", "5 apples", "12::30", "2000--05-01", "10s 5m", "1e3s", "1.5s", "+5s", "0x10s", "5S", "3D", "2000/01/01", "12h30", ":30", "-5"])][k]


def run(ctx):
    ctx.rule = "one evaluation = one operation of the Time class whose result was compared with exact integer arithmetic"
    exe = ctx.harness("timeh", "asan")
    r = ctx.rng
    N = 1500000 if ctx.thorough else 120000
    import subprocess
    batches = []
    per = 20000
    for b in range(max(1, N // per)):
        rr = __import__("random").Random("%d/%d" % (ctx.seed, b))
        reg = {}
        cmds, exp = [], []

        def emit(c, e, kind):
            cmds.append(c)
            exp.append((e, kind))

        def fresh(i, typ, cal):
            y = rr.choice([1, 4, 100, 1900, 1999, 2000, 2004, 2100, 2400, rr.randrange(1, 9000)])
            if typ == DELTA:
                t = T(cal, DELTA, rr.choice([0, 0, rr.randrange(3)]), rr.choice([0, 0, rr.randrange(14)]), rr.choice([0, rr.randrange(400)]),
                      rr.choice([0, rr.randrange(10 ** 6)]), rr.choice([0, rr.randrange(3 * 10 ** 6)]))
                raw = t.key()
            else:
                m = rr.choice([0, 1, 2, 11, rr.randrange(12)])
                raw = (y, m, rr.choice([0, 27, 28, mdays(cal, y, m) - 1, rr.randrange(mdays(cal, y, m))]), rr.choice([0, 86399, rr.randrange(86400)]), rr.choice([0, 999999, rr.randrange(10 ** 6)]))
                if rr.random() < 0.3:   # fields outside their range
                    raw = (y + 30, rr.randrange(-30, 40), rr.randrange(-400, 800), rr.randrange(-10 ** 6, 10 ** 6), rr.choice([-1, -10 ** 6, rr.randrange(-5 * 10 ** 6, 5 * 10 ** 6)]))
                t = T(cal, FIX, *raw)
            reg[i] = t
            emit("new %d %d %d %d %d %d %d %d" % ((i, cal, typ) + tuple(raw)), t.show(), "construct")

        while len(cmds) < per:
            cal = rr.choice([NOLEAP, STD])
            for i in range(3):
                fresh(i, FIX, cal)
            for i in range(3, 6):
                fresh(i, DELTA, cal)
            for _ in range(rr.randrange(5, 60)):
                a, b2, c = rr.randrange(3), rr.randrange(3), rr.randrange(3, 6)
                o = rr.randrange(13)
                if o == 0:
                    D = reg[c]
                    t = reg[a].plus(D.y, D.m, D.d, D.s, D.us)
                    if not 1 <= t.y <= 9998:
                        continue
                    reg[a] = t
                    emit("add %d %d" % (a, c), t.show(), "add interval")
                elif o <= 4:
                    n = rr.choice([1, -1, rr.randrange(-50, 50), rr.randrange(-5000, 5000)])
                    if o == 1:
                        n = rr.choice([n, 86400, -86400, rr.randrange(-10 ** 8, 10 ** 8)])
                    if o == 4:
                        n = rr.randrange(-100, 100)
                    kw = dict([("sec", n)] if o == 1 else [("d", n)] if o == 2 else [("m", n)] if o == 3 else [("y", n)])
                    t = reg[a].plus(**kw)
                    if not 1 <= t.y <= 9998:
                        continue
                    reg[a] = t
                    emit("%s %d %d" % (("adds", "addd", "addm", "addy")[o - 1], a, n), t.show(), ("add seconds", "add days", "add months", "add years")[o - 1])
                elif o == 5:
                    d = reg[a].total() - reg[b2].total()
                    emit("diff %d %d" % (a, b2), d if cal == NOLEAP else "X", "difference")
                elif o == 6:
                    if rr.random() < 0.3:
                        reg[a] = reg[b2]
                        emit("copy %d %d" % (a, b2), reg[a].show(), "copy")
                    x, y = reg[a].key(), reg[b2].key()
                    emit("cmp %d %d" % (a, b2), "%d %d %d %d %d %d" % (x == y, x < y, x > y, x <= y, x >= y, x[:3] == y[:3]), "comparison")
                elif o == 7:
                    emit("str %d" % a, reg[a].strs(), "text")
                    q = reg[a].strs().split("|")
                    w = rr.randrange(4)
                    R = T(cal, FIX, *(reg[a].key()[:3] if w == 0 else reg[a].key()[:4] if w == 1 else reg[a].key()))
                    if w == 2:
                        emit("plong 6 %d %s" % (cal, hexs(q[2])), R.show(), "read long text")
                    else:
                        emit("parse 6 %d -1 %s" % (cal, hexs(q[w])), R.show(), "read back text")
                elif o == 8:
                    t = reg[c]
                    e = "".join("%d%s" % (v, n) for v, n in zip(t.key(), "yMdsu") if v)
                    emit("free %d" % c, "|" + e, "interval text")
                    emit("parse 6 %d 1 %s" % (cal, hexs(e)), t.show(), "read back interval")
                    emit("zero %d" % c, "1" if not any(t.key()) else "0", "zero")
                elif o == 9:
                    x, t = gen_text(rr, cal)
                    emit("parse 6 %d -1 %s" % (cal, hexs(x)), t.show(), "read text %s" % ("interval" if t.typ else "date"))
                    if t.typ == DELTA and rr.random() < 0.5 and t.y:
                        # as an end time on the command line: an interval taken as a date from the zero date
                        f = T(cal, FIX, *t.key())
                        if f.y <= 9998:
                            emit("parse 6 %d 0 %s" % (cal, hexs(x)), f.show(), "read interval as date")
                elif o == 10:
                    emit("parse 6 %d -1 %s" % (cal, hexs(bad_text(rr))), "X", "malformed text")
                elif o == 11:
                    t = reg[a]
                    x = t.strs().split("|")[2]
                    z = rr.randrange(5)
                    if z == 0:
                        p = rr.choice([4, 7, 10, 16])
                        x = x[:p] + rr.choice("x0/: ") + x[p + 1:]
                    elif z == 1:
                        p = rr.choice([0, 3, 5, 6, 8, 9, 11, 15, 17, 22])
                        x = x[:p] + rr.choice("ax- +") + x[p + 1:]
                    elif z == 2:
                        x = x[:5] + rr.choice(["00", "13"]) + x[7:]
                    elif z == 3:
                        x = x[:8] + rr.choice(["00", "%02d" % (mdays(cal, t.y, t.m) + 1)]) + x[10:]
                    else:
                        x = rr.choice([x[:-1], x + "0", x[:11] + "86400" + x[16:]])
                    emit("plong 6 %d %s" % (cal, hexs(x)), "X", "malformed long text")
                else:
                    fresh(rr.randrange(6), 0, cal) if False else None
                    t = reg[a]
                    if cal == NOLEAP:
                        emit("secs %d" % a, t.total(), "seconds")
        batches.append((cmds, exp))

    def go(bt):
        cmds, exp = bt
        p = subprocess.run([exe], input="\n".join(cmds) + "\n", capture_output=True, text=True, timeout=300)
        if p.returncode != 0 or "runtime error" in p.stderr:
            ctx.violation("crash:time", "status %d: %s" % (p.returncode, p.stderr[-1500:]))
            if p.returncode:
                return
        out = p.stdout.splitlines()
        for n, ((e, kind), o) in enumerate(zip(exp, out)):
            if isinstance(e, Fraction):
                ok = o != "X" and abs(Fraction(float(o)) - e) <= max(abs(e) * Fraction(1, 2 ** 50), Fraction(1, 10 ** 10))
            else:
                ok = o == e
            ctx.count(kind)
            if not ok:
                ctx.violation("time:" + kind, "%s: got %s, expected %s; history: %s" % (cmds[n], o, e if not isinstance(e, Fraction) else float(e), " ; ".join(cmds[max(0, n - 6):n + 1])), dict(commands=cmds[max(0, n - 80):n + 1]))
        ctx.evals += len(out)
        ctx.distinct.update(hash(c) for c in cmds)
        if len(out) != len(cmds):
            ctx.violation("crash:time", "answered %d of %d commands" % (len(out), len(cmds)))
        if len(ctx.samples) < 3:
            ctx.samples.append(dict(history=cmds[:12], answers=out[:12]))

    ctx.pmap(go, batches, workers=8)
