"""Exact calendar arithmetic (independent of the model's Time class)."""
from fractions import Fraction

DPM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
NOLEAP, STD = 1, 2
FIX, DELTA = 0, 1


def leap(cal, y):
    return cal == STD and (y % 4 == 0 and y % 100 != 0 or y % 400 == 0)


def mdays(cal, y, m):
    return 29 if m == 1 and leap(cal, y) else DPM[m]


def day0(cal, y, m):
    """Days before the first of month m of year y."""
    d = 365 * y
    if cal == STD:
        p = y - 1
        d += p // 4 - p // 100 + p // 400 + 1
    return d + sum(mdays(cal, y, q) for q in range(m))


class T:
    """Fixed: canonical calendar date. Delta: years+months, days+seconds+microseconds kept apart."""

    def __init__(s, cal, typ, y=0, m=0, d=0, sec=0, us=0):
        s.cal, s.typ = cal, typ
        sec += us // 10 ** 6
        s.us = us % 10 ** 6
        d += sec // 86400
        s.s = sec % 86400
        s.y, s.m, s.d = y + m // 12, m % 12, d
        if typ == FIX:
            n = day0(cal, s.y, s.m) + s.d
            y = n // 366 - 1
            while day0(cal, y + 1, 0) <= n:
                y += 1
            m = 0
            n -= day0(cal, y, 0)
            while n >= mdays(cal, y, m):
                n -= mdays(cal, y, m)
                m += 1
            s.y, s.m, s.d = y, m, n

    def show(s):
        return "%d %d %d %d %d %s" % (s.y, s.m, s.d, s.s, s.us, "FD"[s.typ])

    def key(s):
        return (s.y, s.m, s.d, s.s, s.us)

    def total(s):
        return Fraction(day0(NOLEAP, s.y, s.m) + s.d) * 86400 + s.s + Fraction(s.us, 10 ** 6)

    def plus(s, y=0, m=0, d=0, sec=0, us=0):
        return T(s.cal, s.typ, s.y + y, s.m + m, s.d + d, s.s + sec, s.us + us)

    def strs(s):
        a = "%04d-%02d-%02d" % (s.y, s.m + 1, s.d + 1)
        t = "%s %02d:%02d:%02d" % (a, s.s // 3600, s.s % 3600 // 60, s.s % 60)
        return "|".join([a, a + "-%05d" % s.s, a + "-%05d-%06d" % (s.s, s.us), t + (".%06d" % s.us if s.us else "")])
