"""C15: arrays and data containers.

Random histories of every public operation (legal and misuse) on DataArray1D..4D, DataStruct and DataContainer are
executed under AddressSanitizer and UBSan; a reference model predicts each outcome and the full contents after it."""
TECHNIQUE = 'runtime monitoring + sanitizers: random operation histories under ASan/UBSan against a reference model of contents, sizes, attachment and layout; allocated bytes compared over each history'
NOTE = 'All four dimensions and several element types; construct/allocate/resize/attach/detach/assign/copy/arithmetic/element access through all accessors; containers of up to 8 mixed members over own and external memory. The debug bounds check is probed one past and two past the end of every dimension.'
HARNESSES = [('data+src/base/', 'asan'), ('data+src/base/', 'chk')]


def run(ctx):
    ctx.rule = "one evaluation: a comparison of the whole observable state of an object with its model after an operation; distinct: kinds of operation and outcome reached, and probes of the bounds check"
    exe = ctx.harness("data+src/base/", "asan")
    n = 400 if ctx.thorough else 40
    jobs = 8

    def one(k):
        return ctx.run([exe, str(ctx.seed * 1000 + k), str(n)], env=dict(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"), timeout=600)
    tot = {}
    for k, r in enumerate(ctx.pmap(one, range(jobs * (4 if ctx.thorough else 1)))):
        for v in r.lines("@V "):
            key, _, det = v.partition(" ")
            ctx.violation(key, det, "data %d %d" % (ctx.seed * 1000 + k, n))
        if not ctx.need(r, "C15:histories", "operation histories"):
            continue
        if "runtime error" in r.err:
            ctx.violation("ub", r.err[:400], " ".join(r.cmd))
        for l in r.lines("@C "):
            c, _, name = l.partition(" ")
            tot[name] = tot.get(name, 0) + int(c)
    for name, c in tot.items():
        if name.startswith(("legal", "misuse")):
            ctx.case(name, n=c)
    ctx.counters["observed"] = tot
    chk = ctx.harness("data+src/base/", "chk")
    cases = [(d, a, f) for d in range(1, 5) for a in range(d) for f in range(4)]

    def probe(c):
        return ctx.run([chk, "oob"] + [str(q) for q in c], retry=False)
    for c, r in zip(cases, ctx.pmap(probe, cases)):
        ctx.case("oob:%d:%d:%d" % c)
        if "out of bounds" not in r.out and "terminate called after throwing an instance of 'Exception'" not in r.err:
            ctx.violation("bounds:%dD:axis%d:%s" % (c[0], c[1], "next" if c[2] < 2 else "beyond"), "the debug bounds check does not report index size%s of dimension %d of a %dD array (%s)" % ("" if c[2] < 2 else "+1", c[1], c[0], "[]" if c[2] % 2 else "()"), "data oob %d %d %d" % c)
    ctx.samples = ["data %d %d" % (ctx.seed * 1000, n)] + sorted(tot)[:8]
