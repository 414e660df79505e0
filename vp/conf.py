"""Random configurations that the model supports (key=value arguments of the harness)."""

SCHEMES = ["strang", "strang/rk3", "strang/rk4", "strang/ssprk53", "strang/kgu35", "ars222", "ars232", "ars343", "ars443",
           "ssp3_332", "gark2", "ark232"]
SW_SCHEMES = SCHEMES + ["erk", "erk/rk3", "erk/kgu35", "strang/fe"]
KINDS = ["cs", "xy", "cs_sw", "xz", "cs", "xy", "cs_sw", "cs"]


def make(r, g, topo=None, steps=4, walls=None, visc=None, fv=True, explicit=True, big=False, tr="r:1,b:2,u:0.7", **over):
    """One random configuration of kind g (cs, cs_sw, xy, xz)."""
    k = dict(seed=r.randrange(1, 10 ** 6), order=r.choice([3, 4, 4, 5]), tr=tr)
    sw = g == "cs_sw"
    k["scheme"] = r.choice(SW_SCHEMES if sw else SCHEMES)
    dt = 60 if g.startswith("cs") else 20
    if g.startswith("cs"):
        k.update(grid="cs", ne=r.choice([2, 4, 4, 6]), topo=r.choice([0, 800]) if topo is None else topo * 800)
        if visc if visc is not None else r.random() < 0.4:
            o = r.choice([4, 4, 2])
            n = 1e15 if o == 4 else 1e5
            k.update(nu=n * r.choice([0.3, 1, 2]), nud=n, nuv=n * r.choice([0.5, 1]), hvorder=o)
        if k["ne"] % 2 == 0 and r.random() < 0.4:
            k["patches"] = 24
    else:
        ne = r.choice([4, 6, 6])
        k.update(grid=g, ne=ne, ney=(1 if g == "xz" else r.choice([2, 3, 4])), Lx=100e3 * ne, Ly=3e5,
                 topo=r.choice([0, 300]) if topo is None else topo * 300, reflat=r.choice([0, 0.7]))
        w = walls if walls is not None else (g == "xy" and r.random() < 0.4)
        if w or k["order"] == 5:
            dt = 10
        if w:
            b = [r.choice([0, 1, 2]) if q in (0, 1) else 0 for q in range(4)]
            b = [r.choice([0, 1, 2]), r.choice([0, 1, 2]), 0, 0]
            # right,top,left,bottom: opposite sides are both periodic or both solid
            b[2] = r.choice([1, 2]) if b[0] else 0
            b[3] = r.choice([1, 2]) if b[1] else 0
            if g == "xz":
                b[1] = b[3] = 0
            if b == [0, 0, 0, 0]:
                b = [1, 0, 1, 0]
            k["bc"] = ",".join(map(str, b))
        if visc if visc is not None else r.random() < 0.4:
            if r.random() < 0.5:
                n = 0.02 if k["order"] < 5 else 0.004
                k.update(nu=n, nud=n, nuv=n)
            else:
                k.update(nu=1e5, nud=1e5, nuv=5e4, hvorder=2)
        if r.random() < 0.4:
            k["patches"] = r.choice([d for d in (2, 3, 4, 6) if ne % d == 0])
    if sw:
        k["eq"] = "sw"
    else:
        k["hmethod"] = r.choice(["V1", "V1", "V2"])
        q = r.random()
        if q < 0.5:
            k.update(levels=r.choice([5, 6, 8]), vorder=1)
        elif q < 0.8 or not fv:
            k.update(levels=12, vorder=2)
        else:
            k.update(levels=12, vorder=2, vdisc="FV")
        if r.random() < 0.25:
            k["stretch"] = r.choice(["cubic", "pwlinear"])
        if r.random() < 0.15:
            k["mflev"] = 1
        if explicit and r.random() < 0.15:
            k["expvert"] = 1
            dt = 1
            k.pop("stretch", None)      # thin layers would need a smaller step
            if r.random() < 0.4:
                k["scheme"] = "spex"
        if k["hmethod"] == "V2":
            k["order"] = 4
        k["amp"] = r.choice([1e-3, 1e-2])
        # covariant vertical velocity (the model keeps what it is given): some 0.1 to 3 m/s
        k["w0"] = (0, 3e3, 3e4)[k["seed"] % 3]
    k.update(dt="%ds" % dt, end="%ds" % (dt * steps) if dt * steps < 60 else "%ds" % (dt * steps))
    k.update(over)
    return k


def label(k):
    g = k.get("grid", "cs") + ("_sw" if k.get("eq") == "sw" else "")
    t = [g, k.get("scheme", "strang"), k.get("hmethod", "V1")]
    if k.get("vdisc") == "FV":
        t.append("FV")
    if k.get("expvert"):
        t.append("exp")
    if k.get("topo"):
        t.append("topo")
    if k.get("bc"):
        t.append("walls")
    if k.get("nu"):
        t.append("hv%d" % k.get("hvorder", 4))
    return "/".join(t)


def nproc(r, k, p1=0.6):
    """A process count the configuration admits."""
    if r.random() < p1:
        return 1
    pc = k.get("patches", 6 if k.get("grid", "cs") == "cs" else 1)
    return r.choice([n for n in (2, 3, 4, 5, 6) if n <= pc] or [1])
