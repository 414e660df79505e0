"""C02: halo exchange. Interiors are filled with codes that name their owner (panel, index, level, component, field, round); after
the real exchange every halo value is decoded and compared with the point that geometry says lies there."""
import json
import numpy as np
from vp.dump import Grid
from vp import cs

TECHNIQUE = "runtime monitoring: exchange of self-describing values with an independent geometric oracle; MPI message monitor with injected delays"
NOTE = "Random grids, patch divisions and process counts; every halo value of every exchanged field decoded; message order perturbed, send buffers watched while in flight. Halo points beyond cube corners are not defined and not judged."
HARNESSES = [("exch", "opt")]


def code(rnd, dt, loc, c, k, panel, A, B):
    return B + 512.0 * (A + 512.0 * (panel + 8.0 * (k + 64.0 * (c + 16.0 * (loc + 2.0 * (dt + 8.0 * (rnd + 1)))))))


def configs(ctx):
    r = ctx.rng
    out = []
    for i in range(120 if ctx.thorough else 16):
        sw = r.random() < 0.25
        g = "cs" if sw else ["cs", "cs", "xy", "xz"][i % 4]
        k = dict(grid=g, seed=r.randrange(1, 10 ** 6), order=r.choice([3, 4, 5, 6]), rounds=24 if ctx.thorough else 9, chaos=r.choice([1, 2, 2]),
                 scheme=r.choice(["strang", "ars343", "erk"]), tr=r.choice(["", "u,r:1", "u,u,u,u,u,u,u"]))
        if g == "cs":
            k["ne"] = r.choice([2, 3, 4, 6])
            k["patches"] = r.choice([6] + [6 * d * d for d in (2, 3) if k["ne"] % d == 0])
            np_ = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        else:
            k["ne"] = r.choice([2, 3, 4, 6, 8])
            k["patches"] = r.choice([d for d in (1, 2, 3, 4, 6, 8) if k["ne"] % d == 0])
            k["ney"] = 1 if g == "xz" else r.choice([1, 2, 3])
            np_ = r.choice([1, 2, 3, 4, 5])
        if sw:
            k.update(eq="sw")
        else:
            k.update(levels=r.choice([4, 5, 7]), stagger="LOR")
        if not k["tr"]:
            del k["tr"]
        out.append((k, min(np_, k["patches"])))
    return out


def run(ctx):
    ctx.rule = "one evaluation = one exchange (configuration, round); distinct = configuration, field kind and round"
    exe = ctx.harness("exch")

    def one(job):
        k, np_ = job
        pre = ctx.path("x%d" % id(k), "d")
        k = dict(k, dump=pre)
        r = ctx.run([exe] + ["%s=%s" % z for z in k.items()], np=np_, timeout=90)
        tag = "%s:p%d:n%d" % (k["grid"], k["patches"], np_)
        if not ctx.need(r, tag, "exchange"):
            return
        n = k["ne"] * k["order"]
        nb = cs.edge_neighbour(k["ne"], k["order"]) if k["grid"] == "cs" else None
        nB = n if nb else k["ney"] * k["order"]
        rounds = [[int(x) for x in l.split()] for l in r.lines("@R")]
        ctx.check(len(rounds) == k["rounds"], "rounds:" + tag, "%d rounds" % len(rounds))
        for rd in rounds:
            q, dt, locs = rd[0], rd[1], rd[2:]
            G = Grid(pre, q)
            ctx.case((str(sorted(k.items())), np_, q), sample=dict(config=k, ranks=np_, round=q, kind=dt))
            for p in G.patches:
                for name in p.a:
                    a = p[name]
                    if a.ndim == 3:
                        a = a[None]
                    loc = 1 if name == "redge" else 0
                    nC, _, _, nK = a.shape
                    nAi, nBi = p.a1 - p.a0, p.b1 - p.b0
                    h = p.halo
                    I, J = np.meshgrid(np.arange(-h, nAi + h), np.arange(-h, nBi + h), indexing="ij")
                    A, B = I + p.a0, J + p.b0
                    inner = (I >= 0) & (I < nAi) & (J >= 0) & (J < nBi)
                    # where the value ought to come from
                    P, SA, SB, ok = np.full(A.shape, p.panel), A.copy(), B.copy(), np.ones(A.shape, bool)
                    if nb is None:
                        SA, SB = A % n, B % nB
                    else:
                        for sd, m, s, d in (("L", A < 0, B, -A), ("R", A >= n, B, A - n + 1), ("B", B < 0, A, -B), ("T", B >= n, A, B - n + 1)):
                            s_in = (s >= 0) & (s < n)
                            ok &= ~(m & ~s_in)
                            m = m & s_in
                            qp, f = nb[p.panel, sd]
                            x, y = f(s[m], d[m])
                            P[m], SA[m], SB[m] = qp, x, y
                    for c in range(nC):
                        if name in ("node", "redge") and locs[c] != loc:
                            # not an exchanged location: must be untouched
                            e = code(q, dt, loc, c, np.arange(nK)[None], p.panel, A[inner][:, None], B[inner][:, None])
                            ctx.check((a[c][inner] == e).all(), "touched:%s:%s" % (tag, name), "round %d: interior of component %d changed" % (q, c), r.cmd)
                            continue
                        e = code(q, dt, loc, c, np.arange(nK)[None], P[ok][:, None], SA[ok][:, None], SB[ok][:, None])
                        v = a[c][ok]
                        bad = v != e
                        ctx.count("values_decoded", int(v.size))
                        ctx.count("halo_values", int((~inner & ok).sum()) * nK)
                        if bad.any():
                            w = np.argwhere(bad)[0]
                            ii, jj = I[ok][w[0]], J[ok][w[0]]
                            kind = "interior" if inner[ok][w[0]] else "halo"
                            ctx.violation("%s:%s:%s" % (kind, tag, name),
                                          "round %d (%s) patch %d panel %d local (%d,%d) level %d component %d holds %r, expected %r (panel %d, %d, %d); %d of %d wrong; %s"
                                          % (q, name, p.ix, p.panel, ii, jj, w[1], c, v[tuple(w)], e[tuple(w)], P[ok][w[0]], SA[ok][w[0]], SB[ok][w[0]], bad.sum(), bad.size, " ".join(r.cmd)), r.cmd)
        for l in r.lines("@MSG"):
            m = json.loads(l)
            for z in ("sends", "hidden", "delayed", "bytes_sent"):
                ctx.count("mpi_" + z, m[z])
            if m["sends"]:
                ctx.distinct.add("order%d" % m["order"])
            ctx.check(m["sends"] == m["recvs"] and m["bytes_sent"] == m["bytes_recv"], "messages:" + tag, "sent and received messages differ: %s" % m, r.cmd)
            ctx.check(m["uncompleted"] == 0, "uncompleted:" + tag, "sends started anew before the previous one was completed: %s" % m, r.cmd)
            ctx.check(m["changed_in_flight"] == 0, "inflight:" + tag, "send buffers changed while the send was active: %s" % m, r.cmd)

    ctx.pmap(one, configs(ctx), workers=4)
    ctx.check(ctx.counters.get("halo_values", 0) > 10000, "nothing-observed", "no halo values")
