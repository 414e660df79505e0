"""Helpers for checks that run the model through harness/sim.cpp."""
import os, re, itertools, threading
import numpy as np
from .dump import Grid

_n = itertools.count()
_lk = threading.Lock()


class Run:
    def __init__(self, res, prefix, kw, np_):
        self.res, self.prefix, self.kw, self.np = res, prefix, kw, np_

    def grid(self, tag):
        return Grid(self.prefix, str(tag))

    @property
    def ended(self):
        return self.res.rc == 0 and "@END" in self.res.out

    @property
    def steps(self):
        m = re.search(r"@END time=(.*) steps=(-?\d+)", self.res.out)
        return int(m.group(2)) if m else None

    def cmd(self):
        return " ".join(self.res.cmd)


def args(kw):
    return ["%s=%s" % (k, v) for k, v in kw.items() if v is not None]


def sim(ctx, exe, np_=None, timeout=120, dump=True, cwd=None, need=None, env=None, **kw):
    """Run the model. With need=key a run that does not end normally is a violation (returns None)."""
    with _lk:
        n = next(_n)
    prefix = ctx.path("r%d" % n, "d")
    if dump:
        kw.setdefault("dump", prefix)
    wd = cwd or os.path.dirname(prefix)
    r = ctx.run([exe] + args(kw), np=np_, timeout=timeout, cwd=wd, env=env)
    run = Run(r, kw.get("dump", prefix), kw, np_)
    if need is not None and not ctx.need(r, need, "model run"):
        return None
    return run


def drop(run):
    """Remove the files of a run (dumps can be large)."""
    import shutil
    shutil.rmtree(os.path.dirname(run.prefix), ignore_errors=True)


def reldiff(x, y):
    """max |x-y| over max |x|, componentwise over axis 1 when ndim>1; NaN if anything is not finite."""
    if x.shape != y.shape:
        return float("inf")
    s = np.max(np.abs(x))
    d = np.max(np.abs(x - y))
    if not np.isfinite(s) or not np.isfinite(d):
        return float("nan")
    return d / s if s > 0 else d


def compdiff(x, y):
    """Worst over components (axis 1) of the relative difference, wind components sharing one scale."""
    if x.shape != y.shape:
        return float("inf")
    w = 0.0
    for c in range(x.shape[1]):
        s = np.max(np.abs(x[:, c]))
        if c < 2:
            s = max(np.max(np.abs(x[:, 0])), np.max(np.abs(x[:, 1])))
        d = np.max(np.abs(x[:, c] - y[:, c]))
        if not np.isfinite(d):
            return float("nan")
        w = max(w, d / s if s > 0 else d)
    return w
