"""Common driver of all checks: running programs, collecting observations, verdicts, evidence."""
import fnmatch, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from . import build as B

VERIF = B.VERIF
REPO = B.REPO


class Inconclusive(Exception):
    """The harness itself failed (not a verdict on the property)."""


class Result:
    def __init__(self, rc, out, err, timeout, cmd, env, wall):
        self.rc, self.out, self.err, self.timeout, self.cmd, self.env, self.wall = rc, out, err, timeout, cmd, env, wall

    def lines(self, prefix):
        return [l[len(prefix):].strip() for l in self.out.splitlines() if l.startswith(prefix)]

    def json_lines(self, prefix="@J "):
        out = []
        for l in self.out.splitlines():
            if l.startswith(prefix):
                out.append(json.loads(l[len(prefix):].replace("-nan", "NaN").replace(": nan", ": NaN").replace(": inf", ": Infinity").replace(": -inf", ": -Infinity")))
        return out


class Ctx:
    def __init__(self, prop, tier=None, seed=None, only=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        s = os.environ.get("VERIF_SEED", "1") if seed is None else seed
        try:
            self.seed = int(s)
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.only = only
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.rule = ""
        self.assumptions = []
        self.viol = []          # (key, detail, replay)
        self.known_hit = {}
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.level = "exploration"
        self.margins = {}
        try:
            self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                          if k["property"] == prop and k.get("status") == "known"]
        except FileNotFoundError:
            self.known = []

    # ---- workload -----------------------------------------------------
    def harness(self, name, variant="opt", **kw):
        t = time.time()
        p = B.harness(name, variant, **kw)
        self.count("build_s", time.time() - t)
        return p

    def run(self, cmd, np=None, timeout=120, env=None, cwd=None, retry=True, stdin=None):
        """Run a program, with np processes under mpirun when np is given. A run that times out is repeated once."""
        e = B.env()
        e["TMPDIR"] = "/tmp"
        # a session directory of its own: concurrent starts of the MPI runtime race on creating a shared one
        sess = tempfile.mkdtemp(prefix="s", dir=self.tmp)
        e["OMPI_MCA_orte_tmpdir_base"] = sess
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        e.pop("VERIF_SEED", None)
        if env:
            e.update(env)
        full = list(cmd)
        if np is not None and np > 1:
            full = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np)] + full
        t = time.time()
        p = subprocess.Popen(full, env=e, cwd=cwd or self.tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        to = False
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
        r = Result(p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), to, full, env or {}, time.time() - t)
        self.count("runs", 1)
        shutil.rmtree(sess, ignore_errors=True)
        if p.returncode and retry and b"orte_init failed" in err:
            self.count("mpi_start_retried", 1)
            return self.run(cmd, np, timeout, env, cwd, retry=False)
        if p.returncode in (-11, 139) and retry and b"@END" in out and b"*** Process received signal" in err:
            # after the harness has finished: the MPI runtime's own threads race with its finalisation. A crash of the
            # code under test at this point comes back in the second run.
            self.count("mpi_end_retried", 1)
            return self.run(cmd, np, timeout, env, cwd, retry=False)
        if to and retry:
            self.count("timeouts_retried", 1)
            return self.run(cmd, np, timeout * 2, env, cwd, retry=False)
        return r

    def pmap(self, fn, items, workers=8):
        import concurrent.futures
        items = list(items)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))

    def path(self, *a):
        p = os.path.join(self.tmp, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def newdir(self):
        return tempfile.mkdtemp(dir=self.tmp)

    # ---- observations -------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, sample=None, nontrivial=True, n=1):
        """One evaluation; key identifies the case for counting distinct ones."""
        self.evals += n
        if nontrivial:
            self.distinct.add(str(key))
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def margin(self, name, value, bound):
        """Record how near the worst observation came to its bound."""
        m = self.margins.get(name)
        v = float(value)
        if m is None or not (v <= m[0]):
            self.margins[name] = [v, float(bound)]

    def violation(self, key, detail, replay=None):
        for k in self.known:
            if re.fullmatch(k["key"], key):
                self.known_hit.setdefault(k["key"], (k, key, detail))
                return
        self.viol.append((key, detail, replay))

    def check(self, ok, key, detail="", replay=None):
        if not ok:
            self.violation(key, detail, replay)
        return ok

    def le(self, value, bound, name, key, detail="", replay=None):
        """value <= bound (NaN fails); keeps the margin."""
        self.margin(name, value, bound)
        return self.check(value <= bound, key, "%s: %s = %.6g exceeds %.6g" % (detail, name, value, bound), replay)

    def need(self, r, key, what=""):
        """The run r of code under test must have ended normally."""
        if r.timeout:
            self.violation("hang:" + key, "%s did not finish (twice): %s" % (what, " ".join(r.cmd)), dict(cmd=r.cmd, env=r.env))
            return False
        if r.rc != 0:
            self.violation("crash:" + key, "%s ended with status %s: %s\n%s\n%s" % (what, r.rc, " ".join(r.cmd), r.out[-1500:], r.err[-2500:]),
                           dict(cmd=r.cmd, env=r.env))
            return False
        return True

    # ---- verdict ------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                                samples=self.samples or ["(none)"],
                                counters={k: (round(v, 3) if isinstance(v, float) else v) for k, v in sorted(self.counters.items())},
                                worst_vs_bound={k: v for k, v in sorted(self.margins.items())[:60]}),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.viol))
        if self.known_hit:
            ev["coverage"]["known_findings_seen"] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        def fix(o):
            if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
                return str(o)
            if isinstance(o, dict):
                return {k: fix(v) for k, v in o.items()}
            if isinstance(o, (list, tuple)):
                return [fix(v) for v in o]
            return o
        txt = json.dumps(fix(ev), indent=1)
        if len(txt) > 60000:
            ev["coverage"]["samples"] = ev["coverage"]["samples"][:3]
            ev["coverage"]["worst_vs_bound"] = {}
            txt = json.dumps(fix(ev), indent=1)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            f.write(txt)
        for k, (rec, key, detail) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, rec["what"]))
        rc = 0
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for n, (key, detail, replay) in enumerate(self.viol):
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 10:
                    break
                p = os.path.join(rd, "%s-%d.json" % (self.prop, len(seen)))
                with open(p, "w") as f:
                    json.dump(fix(dict(property=self.prop, key=key, detail=str(detail)[:8000], seed=self.seed, tier=self.tier,
                                   rerun="VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (self.seed, self.tier, self.prop),
                                   replay=replay)), f, indent=1, default=str)
                print("  %s: %s" % (key, str(detail)[:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            rc = 1
        elif self.evals == 0 or not self.distinct:
            print("INCONCLUSIVE: nothing was observed")
            rc = 3
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1f s" % (self.prop, self.tier, self.evals, len(self.distinct), len(self.viol), wall))
        return rc


def main(argv):
    import importlib
    prop = argv[1]
    only = None
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(prop, only=argv[2] if len(argv) > 2 else None)
    rc = 2
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except B.BuildError as e:
        print("ERROR: build failed: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        # violations already seen still count
        if ctx.viol:
            ctx.finish()
            rc = 1
        else:
            rc = 2
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(ctx.tmp, ignore_errors=True)
        else:
            print("kept", ctx.tmp)
    return rc
