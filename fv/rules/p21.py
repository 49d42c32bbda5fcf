"""P21: invalid constructor parameters are rejected.

The constructors of every public class are evaluated symbolically through Python and native code; the branch conditions that hold on
every path that returns normally are collected. For every invalid region of a parameter (an interval, an ordering of two parameters,
an unknown name) those conditions must contradict the region, decided with intervals: then no value of the region gets past the
constructor. How the rejection is written (which side, which comparison, a helper) does not matter.
"""
import math
from ..link import Link
from ..region import Region, rejects, INF, ZERO
from ..terms import mk, walk

NEG, NONPOS = (-INF, -1e-30), (-INF, 0.0)


def reg(**k):
    return [(n, r) for n, r in k.items()]


HIST = {"r_max": NONPOS, "bins": ZERO}
#: invalid regions of native constructor parameters, by Python class
NATIVE = {
    "freud.density.CorrelationFunction": [("bins", ZERO), ("r_max", NONPOS)],
    "freud.density.GaussianDensity": [("width_x", ZERO), ("width_y", ZERO), ("width_z", ZERO), ("r_max", NONPOS), ("sigma", NONPOS)],
    "freud.density.SphereVoxelization": [("width_x", ZERO), ("width_y", ZERO), ("width_z", ZERO), ("r_max", NONPOS)],
    "freud.density.LocalDensity": [("r_max", NONPOS), ("diameter", NEG)],
    "freud.density.RDF": [("bins", ZERO), ("r_max", NONPOS), ("r_min", NEG), ("r_max<=r_min", None)],
    "freud.diffraction.StaticStructureFactorDebye": [("bins", ZERO), ("k_max", NONPOS), ("k_min", NEG), ("k_max<=k_min", None)],
    "freud.environment.BondOrder": [("n_bins_theta", (0.0, 1.0)), ("n_bins_phi", (0.0, 1.0))],
    "freud.order.Cubatic": [("t_initial<t_final", None), ("t_final", (-INF, 9e-7)), ("scale", NONPOS), ("scale", (1.0, INF)), ("n_replicates", ZERO)],
    "freud.pmft.PMFTR12": [("r_max", NONPOS), ("n_r", ZERO), ("n_t1", ZERO), ("n_t2", ZERO)],
    "freud.pmft.PMFTXYT": [("x_max", NONPOS), ("y_max", NONPOS), ("n_x", ZERO), ("n_y", ZERO), ("n_t", ZERO)],
    "freud.pmft.PMFTXY": [("x_max", NONPOS), ("y_max", NONPOS), ("n_x", ZERO), ("n_y", ZERO)],
    "freud.pmft.PMFTXYZ": [("x_max", NONPOS), ("y_max", NONPOS), ("z_max", NONPOS), ("n_x", ZERO), ("n_y", ZERO), ("n_z", ZERO)],
}
OTHER = "<a name not listed>"
#: invalid regions of Python parameters: (class, method, what, assumptions)
PYTHON = [
    ("freud.box.Box", "__init__", "Lx = 0", {"Lx": ZERO}),
    ("freud.box.Box", "__init__", "Ly = 0", {"Ly": ZERO}),
    ("freud.box.Box", "__init__", "Lz = 0 in a 3D box", {"Lz": ZERO, "is2D": False}),
    ("freud.box.Box", "from_box_lengths_and_angles", "alpha = 0 or less", {"alpha": NONPOS}),
    ("freud.box.Box", "from_box_lengths_and_angles", "alpha = pi or more", {"alpha": (math.pi, INF)}),
    ("freud.box.Box", "from_box_lengths_and_angles", "beta = 0 or less", {"beta": NONPOS}),
    ("freud.box.Box", "from_box_lengths_and_angles", "beta = pi or more", {"beta": (math.pi, INF)}),
    ("freud.box.Box", "from_box_lengths_and_angles", "gamma = 0 or less", {"gamma": NONPOS}),
    ("freud.box.Box", "from_box_lengths_and_angles", "gamma = pi or more", {"gamma": (math.pi, INF)}),
    ("freud.density.RDF", "__init__", "an unknown normalization_mode", {"normalization_mode": OTHER}),
    ("freud.environment.BondOrder", "__init__", "an unknown mode", {"mode": OTHER}),
    ("freud.environment.LocalDescriptors", "__init__", "an unknown mode", {"mode": OTHER}),
    ("freud.msd.MSD", "__init__", "an unknown mode", {"mode": OTHER}),
    ("freud.order.RotationalAutocorrelation", "__init__", "a negative l", {"l": (-INF, -1.0)}),
    ("freud.order.RotationalAutocorrelation", "__init__", "an odd l", {"l": "odd"}),
    ("freud.order.Steinhardt", "__init__", "an empty l", {"l": "empty"}),
    ("freud.density.GaussianDensity", "__init__", "a width of four numbers", {"width": ("seq", 4)}),
    ("freud.density.GaussianDensity", "__init__", "a width of one number in a list", {"width": ("seq", 1)}),
    ("freud.density.SphereVoxelization", "__init__", "a width of four numbers", {"width": ("seq", 4)}),
    ("freud.density.SphereVoxelization", "__init__", "a width of one number in a list", {"width": ("seq", 1)}),
]


def nats(t, seen=None):
    return [x for x in walk(t) if x.op == "nat"]


def check(ctx):
    L = Link(ctx)
    classes = {c.q: c for c in L.P.classes()}
    ctx.need(sum(q in classes for q in NATIVE), 8, "public classes of the table")
    for q, rows in sorted(NATIVE.items()):
        if q not in L.ctor:
            continue
        E, s = L.ctor[q]
        ctx.visited(E)
        if s is None:
            ctx.ob(False, "R1", q, "the constructor never returns")
            continue
        v = s.heap.get((mk("self", classes[q]), "_cpp_obj"))
        if v is None:
            continue
        made = [x for x in nats(v) if x.a[0] == L.nat.get(q) or x.a[0] in L.B.funcs]
        for x in {y: 1 for y in made}:
            args = x.a[1]
            r = L.construct(x.a[0], len(args))
            if r is None:
                continue
            CE, cs, pl, names = r
            where = first(L, CE)
            for name, region in rows:
                env, order = {}, None
                if region is None:
                    strict = "<=" not in name
                    a, b = name.replace("<=", "<").split("<")
                    if a not in names or b not in names:
                        continue
                    pr = [param(CE, n) for n in (a, b)]
                    order = ({pr[0]: 1.0, pr[1]: -1.0}, strict)
                    porder = ({args[names.index(a)]: 1.0, args[names.index(b)]: -1.0}, strict)
                    penv = {}
                    what = name
                else:
                    if name not in names:
                        continue
                    env[param(CE, name)] = region
                    penv = {args[names.index(name)]: region}
                    porder = None
                    what = "%s in %s" % (name, rangename(region))
                ok = cs is None or rejects(cs.guards, Region(env, order)) or rejects(s.guards, Region(penv, porder))
                ctx.ob(ok, "R1", "%s(): %s" % (q, what), "the constructor accepts this invalid value", *where)
    cells(ctx, L)
    for q, name, what, given in PYTHON:
        if q not in classes:
            continue
        c = classes[q]
        o, ds = L.P.find(c, name)
        if not o:
            continue
        if name == "__init__":
            E, s = L.ctor.get(q, (None, None))
            if E is None:
                continue
        else:
            E = L.engine()
            s, v = E.run(c, name)
        ctx.visited(E)
        iv, kind = {}, {}
        present = {x.a[0] for t, p in (s.guards if s is not None else ()) for x in walk(t) if x.op == "param"}
        for n, r in given.items():
            t = mk("param", n)
            if isinstance(r, bool):
                kind[t] = r
            elif r == OTHER:
                kind[t] = "other"
            elif r == "odd":
                kind[t] = "odd"
            elif r == "empty":
                kind[t] = "seq0"
            elif r[0] == "seq":
                kind[t] = "seq%d" % r[1]
            else:
                iv[t] = r
        ok = s is None or rejects(s.guards, Region(iv, None, kind))
        node = ds[0][1] if isinstance(ds[0], tuple) and len(ds[0]) > 1 else None
        ctx.ob(ok, "R2", "%s.%s(): %s" % (q, name, what), "this invalid value is accepted", "freud/" + q.split(".")[1] + ".py", getattr(node, "lineno", 0))


def cells(ctx, L):
    """A cell width above half the distance between the planes of the box is rejected, in every direction."""
    q = L.nat.get("freud.locality.LinkCell")
    r = L.construct(q, 3) if q else None
    if r is None or "cell_width" not in r[3]:
        return
    E, s, pl, names = r
    w = mk("param", "cell_width")
    seen = {}
    for t, p in (s.guards if s is not None else ()):
        for x in walk(t):
            if x.op in ("get", "fld") and x.a[1] in ("x", "y", "z") and any(y.op == "call" and "NearestPlane" in str(y.a[0]) for y in walk(x)):
                seen[x.a[1]] = x
            if x.op == "call" and "is2D" in str(x.a[0]):
                seen["2d"] = x
    for a in "xyz":
        ok = s is None
        if a in seen:
            kind = {seen["2d"]: False} if "2d" in seen else {}
            ok = ok or rejects(s.guards, Region({w: (1e-9, INF)}, ({seen[a]: 1.0, w: -2.0}, True), kind))
        ctx.ob(ok, "R1", "freud.locality.LinkCell(): cell_width above half the box in %s" % a, "the constructor accepts this invalid value", *first(L, E))


def first(L, E):
    for e in E.events:
        if e.file:
            return e.file, e.line
    return None, None


def param(E, n):
    return mk("param", n)


def rangename(r):
    if r[0] == r[1]:
        return "{%g}" % r[0]
    return "(%g, %g]" % r
