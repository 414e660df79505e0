"""C18: memory safety and defined behaviour.

The whole library, the utilities and every harness are built with AddressSanitizer, UndefinedBehaviorSanitizer and the
bounds-checked arrays, and the workloads of the other properties (every grid, equation set, scheme, method, kind of
output, restart, exchange, utility program, command line, numerical routine) are driven through that build. The oracle is
the sanitizers' reports and the array checks; a run that dies only under instrumentation is reported too. Storage growth
is watched separately: live heap after every step of long uninstrumented runs with output must stop growing."""
TECHNIQUE = 'runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer and bounds-checked arrays under the workloads of all other properties; live-heap monitor for leaks'
NOTE = 'The quick tier drives a sample of the runs the other checks make, the thorough tier more. Raw pointers into the middle of a larger array are checked only at the ends of the allocation. Uninitialised reads are the subject of C19. Leaks are decided as growth of the live heap over steps, not as blocks left at exit.'
HARNESSES = [('sim', 'chk'), ('ops', 'chk'), ('ode', 'chk'), ('exch', 'chk'), ('simw', 'chk'), ('vops', 'chk'), ('outh', 'chk'), ('num', 'chk'), ('opts', 'chk'), ('sched', 'chk'), ('cstrans', 'chk'), ('phys+src/base/', 'chk'), ('cfc+src/base/', 'chk'), ('exs+src/base/', 'chk'), ('data+src/base/', 'chk'), ('timeh', 'chk'), ('sim', 'opt')]
import hashlib, importlib, re, subprocess, threading
from vp.core import Ctx, Result
from vp.sim import sim, drop
from vp import conf, build as B

# checks whose workloads are driven, and how many runs of each at most (quick, thorough)
PLAN = [("c01", 8, 60), ("c02", 16, 120), ("c03", 8, 60), ("c04", 4, 30), ("c05", 6, 40), ("c06", 3, 20), ("c07", 6, 60), ("c08", 8, 60),
        ("c09", 10, 60), ("c10", 10, 60), ("c11", 6, 40), ("c12", 4, 20), ("c13", 4, 40), ("c14", 8, 60), ("c16", 4, 20), ("c17", 20, 150), ("c21", 4, 30),
        ("c22", 4, 40), ("c25", 4, 20), ("c26", 5, 30), ("c27", 16, 100), ("c28", 4, 20), ("c29", 6, 40)]
PAT = re.compile(r"ERROR: AddressSanitizer: ?([\w-]+)|([^\s:]+):\d+:\d+: runtime error: ([^\n]*)|(Array access out of bounds)|SUMMARY: (UndefinedBehaviorSanitizer)")
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0"}


def reports(txt):
    """(kind, place) of every report in the output of a run."""
    out = []
    ls = txt.splitlines()
    for i, l in enumerate(ls):
        m = PAT.search(l)
        if not m or m.group(5):
            continue
        if m.group(4):      # the stack of the throw is printed before
            b = max([q for q in range(i) if "@THROW" in ls[q]] or [i])
            fr = [f.group(1) for f in (re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.+?) (?:\S*/(?:src|util|harness)/\S+?):\d+", q) for q in ls[b:b + 30]) if f]
            fr = [f for f in fr if not f.startswith(("DataArray", "__cxa_throw"))]
            out.append(("index", re.sub(r"\(.*", "", fr[0]).strip() if fr else "array"))
            continue
        place = ""
        for q in ls[i:i + 40]:
            f = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.+?) (\S*/(?:src|util)/\S+?):\d+", q)
            if f:
                place = re.sub(r"\(.*", "", f.group(1)).strip().split("::")
                place = "::".join(place[-2:])
                break
        kind = m.group(1) or re.sub(r"[0-9a-fx.e+-]*\d[0-9a-fx.e+-]*", "N", m.group(3))[:60]
        out.append((kind.strip(), place or (m.group(2) or "").split("/")[-1]))
    return out


class San(Ctx):
    """Drives another check's workload through the instrumented build; its verdicts are ignored, sanitizer reports kept."""

    def __init__(self, parent, name, limit):
        super().__init__(name.upper(), seed=parent.seed, tier="quick")
        self.parent, self.name, self.limit, self.n, self.seen = parent, name, limit, 0, 0
        self.lk = threading.Lock()
        self.kinds = {}
        self.exes = {}

    def harness(self, name, variant="opt", **kw):
        p = B.harness(name, "chk", **kw)
        self.exes[p] = (name, kw)
        return p

    def violation(self, *a, **k):
        pass

    def skip(self):
        return Result(1, "", "not driven", False, ["skipped"], {}, 0.0)

    def run(self, cmd, np=None, timeout=120, env=None, cwd=None, retry=True, stdin=None):
        with self.lk:
            # the first few runs of a kind, then those a hash picks
            kind = (cmd[0], np)
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            self.seen += 1
            h = int(hashlib.sha256(("%s %s" % (self.parent.seed, " ".join(re.sub(r"/tmp/\S*", "", c) for c in cmd))).encode()).hexdigest()[:8], 16) / 2.0 ** 32
            go = self.n < self.limit and (self.kinds[kind] <= 2 or h < 0.5)
            if go:
                self.n += 1
        if not go:
            return self.skip()
        e = dict(ENV)
        e.update({k: v for k, v in (env or {}).items() if k not in ("ASAN_OPTIONS", "UBSAN_OPTIONS")})
        r = super().run(cmd, np=np, timeout=max(timeout, 60) * 8, env=e, cwd=cwd, retry=retry, stdin=stdin)
        P = self.parent
        P.case("%s|%s" % (self.name, " ".join(re.sub(r"/tmp/\S*", "", c) for c in r.cmd)), sample=dict(workload=self.name, cmd=" ".join(r.cmd)[:600]) if self.n < 2 else None)
        with self.lk:
            P.count("instrumented_runs:" + self.name, 1)
        if r.timeout:
            P.count("timeouts_inconclusive", 1)
        rep = reports(r.out + "\n" + r.err)
        for kind, place in rep:
            P.violation("san:%s:%s" % (kind, place), "%s\n%s" % (" ".join(r.cmd), (r.out + r.err)[-200:] if not rep else excerpt(r.out + r.err)), dict(cmd=r.cmd, env=e))
        if r.rc != 0 and not rep and not r.timeout and cmd[0] in self.exes:
            # dies under instrumentation: does it without?
            name, kw = self.exes[cmd[0]]
            o = super().run([B.harness(name, "opt", **kw)] + list(cmd[1:]), np=np, timeout=timeout, env=env, cwd=cwd)
            if o.rc == 0:
                P.violation("instrumented-only:%s:%s" % (self.name, name), "status %s only in the instrumented build: %s\n%s" % (r.rc, " ".join(r.cmd), (r.out + r.err)[-1500:]), dict(cmd=r.cmd, env=e))
        return r


def excerpt(t):
    m = re.search("@THROW", t) if "Array access" in t else PAT.search(t)
    return t[max(0, m.start() - 100):m.start() + 2500] if m else t[-1500:]


def run(ctx):
    ctx.rule = "one evaluation = one distinct program run under the sanitizers, or one long run whose live heap was followed"
    import concurrent.futures, contextlib, io, shutil, traceback

    for h, v in HARNESSES:
        if v == "chk":
            ctx.harness(h, "chk")

    def drive(item):
        name, q, t = item
        s = San(ctx, name, t if ctx.thorough else q)
        try:
            importlib.import_module("checks." + name).run(s)
        except B.BuildError:
            raise
        except Exception as e:      # analysis of runs that were left out
            ctx.count("analyses_cut_short", 1)
        finally:
            shutil.rmtree(s.tmp, ignore_errors=True)
        ctx.count("runs_offered", s.seen)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(drive, PLAN))
    ctx.check(ctx.evals > 50 or not ctx.viol == [], "coverage", "only %d runs were driven" % ctx.evals)

    # growth of the live heap
    exe = ctx.harness("sim")
    jobs = []
    for i in range(24 if ctx.thorough else 6):
        k = conf.make(ctx.rng, conf.KINDS[i % 8], tr="r:1,u:0.7")
        k.update(output=1, outx=9, outy=(1 if k.get("grid") == "xz" else 7), outdt=k["dt"], mem=1, checksum=1)
        d = int(k["dt"][:-1])
        k["end"] = "%ds" % (24 * d)
        jobs.append(k)

    def mem(k):
        key = conf.label(k)
        r = sim(ctx, exe, dump=False, need="C18:mem:" + key, outdir=ctx.newdir(), **k)
        if r is None:
            return
        m = [tuple(map(int, l.split())) for l in r.res.lines("@MEM")]
        ctx.case(("mem", str(sorted(k.items()))), sample=dict(heap=k))
        if len(m) < 20:
            ctx.violation("mem-lines:" + key, "%d lines; %s" % (len(m), r.cmd()))
            return
        ctx.count("heap_samples", len(m))
        a, b = m[11][1], m[-1][1]
        ctx.le((b - a) / (len(m) - 12.0), 64.0, "bytes of live heap gained per step", "leak:" + key, r.cmd(), r.cmd())
        drop(r)
    ctx.pmap(mem, jobs, 6)
