"""P16: dimensionality requirements are enforced.

R1 Every native entry point of a class that is defined only in 2D (3D) is evaluated symbolically with a 3D (2D) box: it never returns
   normally, and no loop (in particular no parallel one) is entered before the error is raised.
R2 The constructor of every query engine, given a 2D box, raises for every point whose z is not zero: there is a throw whose path
   conditions all hold for such a point, in a loop over all the points.
R3 Where a Python caller requires a number of dimensions, a box with another one is refused.
"""
from .. import cxx
from ..link import Link
from ..queries import Queries, unwrap
from ..region import Region, rejects, INF
from ..shared import OPAQUE, owner_fn
from ..terms import T, mk, islit, walk, root
from . import p11

#: dimensionality each class is defined for
NEEDS = {"freud.order.Hexatic": 2, "freud.pmft.PMFTR12": 2, "freud.pmft.PMFTXYT": 2, "freud.pmft.PMFTXY": 2, "freud.pmft.PMFTXYZ": 3}
TOL = 1e-5
BOX = "freud::box::Box"


def check(ctx):
    F = ctx.cxx(None, True)
    L = Link(ctx)
    fld = flag(F)
    ctx.need(len(fld), 1, "dimensionality accessor of the box")
    entry(ctx, F, L, fld)
    points(ctx, F, fld)
    helper(ctx, L)


def flag(F):
    """Fields Box::is2D() reads."""
    out = set()
    for fid in F.byname.get(BOX + "::is2D", []):
        E = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
        s, v = E.run(fid, cxx.S({}, ()), mk("this", BOX))
        for x in walk(v):
            if x.op == "fld":
                out.add(x.a[1])
    return out


class Dim(Region):
    """Values in a box of the given dimensionality."""

    def __init__(self, fields, two, *a):
        Region.__init__(self, *a)
        self.fields, self.two = fields, two

    def is2d(self, t):
        t = unwrap(t)
        while t.op == "ld":
            t = unwrap(t.a[0])
        return t.op in ("fld", "get") and t.a[1] in self.fields or t.op == "call" and p11.simplename(t) == "is2D"

    def hook(self, t):
        if self.is2d(t):
            return self.two
        return Region.hook(self, t)

    def truth(self, t):
        if isinstance(t, T) and self.is2d(t):
            return self.two
        return Region.truth(self, t)

    def interval(self, t, d=0):
        if isinstance(t, T):
            if self.is2d(t):
                return (1.0, 1.0) if self.two else (0.0, 0.0)
            if t.op == "ld":
                r = self.iv.get(t.a[0])
                if r is not None:
                    return r
            if t.op == "call" and p11.simplename(t) in ("abs", "fabs", "fabsf"):
                r = self.interval(t.a[-1], d + 1)
                if r is not None:
                    return r if r[0] >= 0 else (-r[1], -r[0]) if r[1] <= 0 else (0.0, max(-r[0], r[1]))
        return Region.interval(self, t, d)


def says(guards, R):
    for t, p in guards:
        v = R.A.val(t)
        if v is None:
            v = R.truth(t)
        if v is not None and v != p:
            return True
    return False


# ---------------------------------------------------------------- entry points
def entry(ctx, F, L, fld):
    n = 0
    for q, dim in sorted(NEEDS.items()):
        nat = L.cls_of(L.nat[q]) if q in L.nat else None
        if not nat:
            continue
        for fid in methods(F, L, nat):
            f = F.fns[fid]
            if not any("NeighborQuery" in str(p["t"]) or "Box" in str(p["t"]) for p in f.get("ps") or []):
                continue
            E = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
            s, v = E.run(fid, cxx.S({}, ()), mk("this", nat))
            ctx.visited(E)
            n += 1
            R = Dim(fld, dim == 3)
            name = "%s::%s" % (q.replace("freud.", ""), fid.split("(")[0].split("::")[-1])
            ctx.ob(s is None or s.dead or says(s.guards, R), "R1", name, "a %dD box is accepted" % (5 - dim), f.get("file"), f.get("line"))
            for e in E.events:
                if (e.loops or e.par) and e.kind in ("store", "acc", "append", "insert", "construct") and not says(e.guards, Dim(fld, dim == 3)):
                    ctx.ob(False, "R1", name + " order", "the computation starts before a %dD box is refused" % (5 - dim), e.file, e.line)
                    break
            else:
                ctx.ob(True, "R1", name + " order", "")
    ctx.need(n, 4, "entry points of classes with a dimensionality requirement")


def methods(F, L, nat):
    """Native methods of the class (own or inherited) the bindings expose."""
    out, c, seen = [], [nat], set()
    while c:
        x = c.pop()
        if x in seen:
            continue
        seen.add(x)
        for i, f in F.fns.items():
            if f.get("cls") == x and f.get("body") and not f.get("ctor") and not i.startswith("lambda"):
                nm = i.split("(")[0].split("::")[-1]
                if nm in ("compute", "accumulate") and not any(j.split("(")[0].split("::")[-1] == nm and F.fns[j].get("cls") != x for j in out):
                    out.append(i)
        r = F.recs.get(x) or {}
        c += [b["n"] if isinstance(b, dict) else b for b in r.get("bases") or []]
    return sorted(out)


# ---------------------------------------------------------------- points in 2D boxes
def points(ctx, F, fld):
    Q = Queries(ctx, F)
    n = 0
    for cls, _ in Q.engines:
        for i, f in sorted(F.fns.items()):
            if f.get("cls") != cls or not f.get("ctor") or i.startswith("lambda") or f.get("implicit"):
                continue
            pts = [p["n"] for p in f.get("ps") or [] if "vec3<float>" in str(p["t"]) and "*" in str(p["t"])]
            if not pts:
                continue
            E = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
            E.run(i, cxx.S({}, ()), mk("this", cls))
            ctx.visited(E)
            n += 1
            for sign, rng in (("above", (TOL, INF)), ("below", (-INF, -TOL))):
                ok = any(refuses(E, e, fld, pts, rng) for e in E.events if e.kind == "throw")
                ctx.ob(ok, "R2", "%s(): points %s z = 0" % (cls.replace("freud::locality::", ""), sign), "points outside the plane are accepted in a 2D box", f.get("file"), f.get("line"))
    ctx.need(n, 3, "constructors of query engines")


def refuses(E, e, fld, pts, rng):
    """All conditions of this throw hold for a point whose z is in the range, whichever of the points it is."""
    zs = {}
    guards = []
    for t, p in e.guards:
        nm = p11.simplename(t) if t.op == "call" else ""
        if nm in ("any_of", "none_of", "all_of") and p is (nm == "any_of") and len(t.a) > 3 and unwrap(t.a[-3]).op == "param":
            guards.append((t.a[-1], nm != "all_of"))
        else:
            guards.append((t, p))
    for t, p in guards:
        for x in walk(t):
            if x.op in ("fld", "get") and x.a[1] == "z":
                zs[x] = rng
    if not zs:
        return False
    R = Dim(fld, True, zs)
    got = False
    for t, p in guards:
        v = R.truth(t)
        if v is None:
            v = R.A.val(t)
        if v is p and any(x in zs for x in walk(t)):
            got = True
        if v is p:
            continue
        if v is not None or not every(E, e, t, p):
            return False
    return got and all(start(E, L) for L in e.loops)


def start(E, L):
    d = [x for x in (E.loops.get(L, {}).get("ind") or {}).values() if len(x) == 3 and x[2] == "++"]
    return any(islit(unwrap(x[1])) and unwrap(x[1]).a[0] == 0 or unwrap(x[1]).op == "param" for x in d)


def every(E, e, t, p):
    """The loop condition (index below the number of points), or that there are points at all."""
    if t.op != "op" or len(t.a) != 3:
        return False
    lvs = [x for x in t.a[1:] if x.op == "lv"]
    par = [x for x in t.a[1:] if x.op == "param" or x.op == "ld" and x.a[0].op == "fld"]
    par = par or [x for x in t.a[1:] if x.op == "op" and x.a[0] == "+" and all(y.op in ("param", "ld") for y in x.a[1:])]
    if lvs and par and p == (t.a[0] != "=="):
        return t.a[0] in ("!=", "==") or t.a[0] == "<" and t.a[1] is lvs[0]
    if par and any(islit(x) and x.a[0] == 0 for x in t.a[1:]):
        return (t.a[0] == "==" and not p) or (t.a[0] in ("<", "!=") and p)
    return False


# ---------------------------------------------------------------- the Python helper
def helper(ctx, L):
    q = "freud.util._convert_box"
    fn = next(((m, n) for m, k, n in functions(L.P) if k == q), None)
    if fn is None:
        return
    E = L.engine()
    s, v = E.runfunc(fn[0], fn[1], q)
    d = mk("param", "dimensions")

    class Other(Region):
        def compare(self, t):
            if t.a[0] in ("==", "!=") and d in t.a[1:] and any(x.op == "attr" and x.a[1] == "dimensions" for x in walk(t)):
                return t.a[0] == "!="
            return Region.compare(self, t)
    ok = s is None or rejects(s.guards, Other({d: (2.0, 3.0)}))
    ctx.ob(ok, "R3", q + ": another number of dimensions", "a box of the wrong dimensionality is accepted", "freud/util.py", fn[1].lineno)


def functions(P):
    import ast
    for m in P.mods.values():
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                yield m, "%s.%s" % (m.name, n.name), n
