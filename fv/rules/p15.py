"""P15: a neighbor list passed by the user must match the system.

R1 Every native function that receives a neighbor list together with a system is evaluated symbolically with a list that is present.
   It returns normally only when the list's number of points equals the system's and its number of query points equals the number of
   query points of the call (the system's own points where the call has none); no loop starts before that is known.
R2 The constructor of a neighbor list from index arrays stores a bond only when its query point index is not below the previous one,
   both indices are below the numbers of query points and points.
"""
from .. import cxx
from ..queries import unwrap, NS
from ..region import Region
from ..shared import OPAQUE, entries, owner_fn, simple
from ..terms import T, mk, lit, islit, walk, root, show
from . import p11, p14

NL = NS + "NeighborList"


def check(ctx):
    F = ctx.cxx(None, True)
    lists(ctx, F)
    arrays(ctx, F)


# ---------------------------------------------------------------- lists passed to computations
def lists(ctx, F):
    n = 0
    for fid in entries(F):
        f = F.fns[fid]
        ps = f.get("ps") or []
        if not f.get("body") or f.get("ctor"):
            continue
        nl = [p for p in ps if "NeighborList>" in str(p["t"])]
        nq = [p for p in ps if "NeighborQuery>" in str(p["t"])]
        if not nl or not nq:
            continue
        E, s, objs = evaluate(F, fid, f, nl)
        ctx.visited(E)
        own = not any("query_point" in p["n"] for p in ps if p not in nl + nq)
        reads = [e for e in E.events if uses(e, objs)]
        if not reads and not (s and any(objs & set(walk(t)) for t, p in s.guards)):
            continue          # handed on to a virtual function only: its implementations are analysed
        n += 1
        nm = simple(fid)
        for side, fld in (("query points", "m_num_query_points"), ("points", "m_num_points")):
            R = Differs(objs, fld, side == "points" or own, own)
            ok = s is None or s.dead or says(s.guards, R)
            ctx.ob(ok, "R1", "%s: number of %s" % (nm, side), "a list for another number of %s is accepted" % side, f.get("file"), f.get("line"))
            bad = None
            for e in E.events:
                if (e.loops or e.par) and uses(e, objs) and not says(e.guards, Differs(objs, fld, side == "points" or own, own)):
                    bad = e
                    break
            ctx.ob(bad is None, "R1", "%s: %s before use" % (nm, side), "the list is used before its number of %s is checked" % side,
                   bad.file if bad else f.get("file"), bad.line if bad else f.get("line"))
    ctx.need(n, 10, "native functions that take a neighbor list")


def evaluate(F, fid, f, nl):
    args, mem, objs = {}, {}, set()
    for p in nl:
        o = mk("pobj", p["n"] + " list")
        objs.add(o)
        if str(p["t"]).rstrip().endswith("&"):
            h = mk("pobj", p["n"])
            mem[h] = mk("ptr", o)
            args[p["n"]] = mk("ptr", h)
        else:
            args[p["n"]] = mk("ptr", o)
    E = cxx.Engine(F, opaque=OPAQUE)
    s, v = E.run(fid, cxx.S(mem, ()), mk("this", f["cls"]) if f.get("cls") and not f.get("static") else None, args)
    return E, s, objs


def uses(e, objs):
    """The event depends on the bonds of the list (not only on its own counts)."""
    for t in (e.value, e.place):
        if isinstance(t, T) and reads(t, objs):
            return True
    return False


def reads(t, objs):
    for x in walk(t):
        if x.op == "fld" and x.a[0] in objs and x.a[1] not in ("m_num_query_points", "m_num_points"):
            return True
    return False


class Differs(Region):
    """Systems whose number of points (query points) differs from the list's."""

    def __init__(self, objs, fld, system, own):
        Region.__init__(self)
        self.objs, self.fld, self.system, self.own = objs, fld, system, own

    def count(self, t):
        t = base(t)
        return t.op == "fld" and t.a[0] in self.objs and t.a[1] == self.fld

    def actual(self, t):
        t = base(t)
        if t.op == "fld" and t.a[1] == "m_n_points":
            return self.system
        if self.system:
            return t.op == "call" and p11.simplename(t) == "getNPoints"
        if t.op == "param":
            return True
        return t.op == "call" and p11.simplename(t) in ("shape", "size") and any("query" in str(x.a[0]) for x in walk(t) if x.op in ("pobj", "param"))

    def compare(self, t):
        o, a, b = t.a
        if o in ("==", "!=") and (self.count(a) and self.actual(b) or self.count(b) and self.actual(a)):
            return o == "!="
        return Region.compare(self, t)


def base(t):
    t = unwrap(t)
    while t.op in ("ld", "ilist") and len(t.a) == 1 or t.op == "call" and p11.simplename(t) in ("toint",):
        t = unwrap(t.a[-1])
    return t


def says(guards, R):
    for t, p in guards:
        v = R.A.val(t)
        if v is None:
            v = R.truth(t)
        if v is not None and v != p:
            return True
    return False


# ---------------------------------------------------------------- lists built from arrays
def arrays(ctx, F):
    n = 0
    for i, f in sorted(F.fns.items()):
        if f.get("cls") != NL or not f.get("ctor") or f.get("implicit"):
            continue
        ix = [p["n"] for p in f.get("ps") or [] if "unsigned int *" in str(p["t"]) or "uint32" in str(p["t"]) and "*" in str(p["t"])]
        if len(ix) != 2:
            continue
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(i, cxx.S({}, ()), mk("this", NL))
        ctx.visited(E)
        n += 1
        where = (f.get("file"), f.get("line"))
        for col, (side, fld) in enumerate((("query point", "m_num_query_points"), ("point", "m_num_points"))):
            st = [e for e in E.events if e.kind == "store" and e.loops and e.place is not None and e.place.op == "idx" and isinstance(e.value, T) and any(x.op == "param" and x.a[0] in ix for x in walk(e.value))
                  and islit(unwrap(e.place.a[-1])) and unwrap(e.place.a[-1]).a[0] == col]
            ctx.need(len(st), 1, "stores of bond indices")
            for e in st:
                every(ctx, E, e)
            for e in st:
                cnt = limit(E, e, fld)
                ok = any(says(e.guards, Region({}, ({c: 1.0, e.value: -1.0}, False))) for c in cnt)
                if not ok and col == 0:
                    ok = any(all(says([(decide(t, E, e, first), p) for t, p in e.guards], Region({}, ({c: 1.0, e.value: -1.0}, False))) for first in (True, False)) for c in cnt)
                ctx.ob(ok, "R2", "NeighborList(arrays): %s index in range" % side, "an index at or above the number of %ss is accepted" % side, e.file, e.line)
                if col == 0:
                    ctx.ob(sorted_(E, e), "R2", "NeighborList(arrays): sorted", "query point indices that decrease are accepted", e.file, e.line)
    ctx.need(n, 1, "constructor from index arrays")


def every(ctx, E, e):
    """The loop that checks and stores the bonds visits every row."""
    inf = E.loops.get(e.loops[0], {})
    row = unwrap(e.place.a[1])
    ind = [x for x in inf.get("ind", {}).values() if x[0] is row]
    if len(e.loops) != 1 or len(ind) != 1:
        return
    lo, how = ind[0][1], ind[0][2]
    c = inf.get("cond")
    up = None
    if isinstance(c, T) and c.op == "op" and c.a[0] in ("<", "!=") and len(c.a) == 3 and row in c.a[1:]:
        up = unwrap(c.a[2] if c.a[1] is row else c.a[1])
    sizes = {unwrap(p14.length(E, a.value)) for a in E.events if a.kind == "alloc" and isinstance(a.value, T) and p14.length(E, a.value) is not None}
    if not isinstance(lo, T) or how != "++" or up is None:
        return
    ctx.ob(islit(lo) and lo.a[0] == 0 and up in sizes if islit(lo) else None, "R2", "NeighborList(arrays): every bond", "some bonds are neither checked nor stored", e.file, e.line)


def limit(E, e, fld):
    """Terms equal to the count kept by the list."""
    out = set()
    for x in E.events:
        if x.kind == "store" and x.place is not None and x.place.op == "fld" and x.place.a[1] == fld and isinstance(x.value, T):
            out.add(x.value)
            out.add(unwrap(x.value))
    return out


def sorted_(E, e):
    """Some condition of the store contradicts an index below the previous one."""
    v = e.value
    gs = []
    for t, p in e.guards:
        if t.op == "op" and t.a[0] == "&&" and not p:
            # not (0 < i && x < y): the rest of the conjunction holds for every bond but the first
            rest = [x for x in t.a[1:] if not later(x)]
            if len(rest) == 1:
                t = rest[0]
        gs.append((t, p))
    for t, p in gs:
        if t.op != "op" or len(t.a) != 3 or v not in t.a[1:]:
            continue
        w = t.a[2] if t.a[1] is v else t.a[1]
        if not previous(E, e, v, w):
            continue
        if says([(t, p)], Region({}, ({v: 1.0, w: -1.0}, True))):
            return True
    return False


def decide(t, E, e, first):
    """A condition for the first bond, or for a later bond whose index differs from (is above) the previous one's: an index equal
    to the previous one's is as valid as that one."""
    if t.op != "op":
        return t
    o = t.a[0]
    if o in ("&&", "||", "!", "not"):
        a = [decide(x, E, e, first) for x in t.a[1:]]
        if o in ("!", "not"):
            return lit(not a[0].a[0]) if islit(a[0]) else mk("op", o, *a)
        stop = o == "||"
        if any(islit(x) and bool(x.a[0]) == stop for x in a):
            return lit(stop)
        a = [x for x in a if not islit(x)]
        return lit(not stop) if not a else a[0] if len(a) == 1 else mk("op", o, *a)
    if len(t.a) == 3 and o in ("<", "<=", ">", ">=", "==", "!="):
        x, y = t.a[1], t.a[2]
        cmp = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q}[o]
        lv = x if x.op == "lv" else y if y.op == "lv" else None
        k = y if lv is x else x
        if lv is not None and islit(k) and isinstance(k.a[0], (int, float)):
            r = {cmp(i, k.a[0]) if lv is x else cmp(k.a[0], i) for i in ((0,) if first else (1, 10 ** 9))}
            if len(r) == 1:
                return lit(r.pop())
        v = e.value
        if not first and v in (x, y) and previous(E, e, v, y if x is v else x):
            return lit(cmp(1, 0) if x is v else cmp(0, 1))
    return t


def later(t):
    """0 < i, or the like"""
    return t.op == "op" and any(x.op == "lv" for x in t.a[1:]) and any(islit(x) and x.a[0] in (0, 1) for x in t.a[1:])


def previous(E, e, v, w):
    if w.op == "hv" and len(w.a) > 1:
        pl = w.a[1]
        return any(x.place is pl and x.value is v and x.loops == e.loops and x.guards == e.guards for x in E.events if x.kind == "store") and \
            not any(x.place is pl and x.value is not v and x.loops and x.loops == e.loops for x in E.events if x.kind == "store")
    lv = [x for x in walk(v) if x.op == "lv"]
    if w.op == "ld" and lv and v.op == "ld":
        one = [x for x in walk(w) if x.op == "op" and x.a[0] in ("-", "+") and lv[0] in x.a[1:]]
        return bool(one) and root(w.a[0]) is root(v.a[0])
    return False
