"""P23: non-periodic directions are never wrapped.

R1 Every method of the native box that yields positions is evaluated symbolically; assuming one direction is not periodic, no value it
   returns or stores contains a periodic reduction (modulus, rounding, circular mean) of that direction's coordinate; assuming all
   directions are periodic, a method that reduces one direction reduces all three.
R2 Cells of a density grid whose index is reduced modulo the grid size are only written, in a direction that is not periodic, for
   indices inside the grid.
R3 The query entry point of every engine raises on every path when any one direction is not periodic.
R5 Outside the box class, no value is reduced by multiples of a box length (rounded quotients, remainders, or a length added or subtracted
   under a comparison with it) in a direction unless the guards exclude that the direction is not periodic.
R4 Image vectors have no component along a lattice vector whose direction is not periodic.
"""
from .. import cxx
from ..implies import Asm
from ..queries import Queries, unwrap
from ..region import Region, rejects, INF
from ..shared import OPAQUE, entries, owner_fn
from ..terms import T, mk, lit, islit, walk, show, root
from ..vec import AXES, comp, expand
from . import p11

BOX = "freud::box::Box"
REDUCE = {"fmod", "fmodf", "remainder", "floor", "floorf", "ceil", "ceilf", "round", "roundf", "rint", "nearbyint", "lround", "trunc", "arg", "atan2"}


def check(ctx):
    F = ctx.cxx(None, True)
    boxes(ctx, F)
    grids(ctx, F)
    queries(ctx, F)
    images(ctx, F)


# ---------------------------------------------------------------- the box
def flags(ctx, F):
    """The places the box's own periodicity accessors read, per direction."""
    out = {}
    for a in AXES:
        for fid in F.byname.get(BOX + "::getPeriodic" + a.upper(), []):
            E = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
            s, v = E.run(fid, cxx.S({}, ()), mk("this", BOX))
            if v is not None:
                out[a] = unwrap(v)
    for fid in F.byname.get(BOX + "::getPeriodic", []):
        E = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
        s, v = E.run(fid, cxx.S({}, ()), mk("this", BOX))
        f = F.fns[fid]
        for a in out:
            if v is not None:
                c = unwrap(comp(unwrap(v), a))
                ok = place(c) is place(out[a])
                ctx.ob(ok, "R1", "Box::getPeriodic: %s" % a, "the flags of two directions are interchanged", f.get("file"), f.get("line"))
    return out


def place(t):
    while t.op == "ld":
        t = t.a[0]
    return t


def boxes(ctx, F):
    fl = flags(ctx, F)
    ctx.need(len(fl), 3, "periodicity accessors of the box")
    n = 0
    for fid, f in sorted(F.fns.items()):
        if f.get("cls") != BOX or not f.get("body") or fid.startswith("lambda") or f.get("ctor"):
            continue
        E = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
        s, v = E.run(fid, cxx.S({}, ()), mk("this", BOX))
        ctx.visited(E)
        vals = [(v, ())] if v is not None and v.op != "undef" else []
        for e in E.events:
            if e.kind == "store" and isinstance(e.value, T) and e.place is not None and root(e.place).op not in ("var", "tmp", "this", "obj"):
                vals.append((e.value, e.guards))
        if not vals or not any(reductions(x) for x, g in vals):
            continue
        n += 1
        where = (f.get("file"), f.get("line"))
        for a in AXES:
            bad = any(a in axes(x, g, {fl[a]: False}) for x, g in vals)
            ctx.ob(not bad, "R1", "%s: %s not periodic" % (name(fid), a), "the coordinate is still reduced to the box", *where)
            full = all(any(a in axes(x, g, {y: z == a or others for z, y in fl.items()}) for x, g in vals) for others in (False, True))
            ctx.ob(full, "R1", "%s: %s periodic" % (name(fid), a), "the coordinate is not reduced to the box", *where)
    ctx.need(n, 2, "box methods that wrap")


def name(fid):
    return fid.split("(")[0].replace("freud::", "")


def reductions(t):
    return [x for x in walk(t) if x.op == "call" and p11.simplename(x) in REDUCE]


def axes(v, guards, given):
    """Directions whose coordinate a periodic reduction in v is applied to, under the given flags."""
    def hook(t):
        for p, b in given.items():
            if t is p or t.op == "ld" and t.a[0] is p or p.op == "ld" and p.a[0] is t:
                return b
        return None
    for t, p in guards:
        x = Asm(hook=hook).val(t)
        if x is not None and x != p:
            return set()
    A = Asm([(t, p) for t, p in guards], hook)
    r = A.reduce(v)
    memo, out = {}, set()
    todo = []
    for x in reductions(r):
        todo.append(x)
    for x in todo:
        y = A.reduce(expand(x, memo))
        if not reductions(y):
            continue
        for z in reductions(y):
            d = coordinate(z)
            if d:
                out.add(d)
    if "vec" not in kinds(r):
        return out
    # reductions that do not reach any component of the value do not count
    live = set()
    for a in AXES:
        c = A.reduce(expand(comp(r, a), memo))
        for z in reductions(c):
            d = coordinate(z)
            if d:
                live.add(d)
    return out & live


def kinds(t):
    """Whether a value is a vector: built, updated or added as one (a dot product, a square root or a stored element is not)."""
    t = unwrap(t)
    if t.op in ("vec", "upd", "ilist", "struct"):
        return {"vec"}
    if t.op == "phi" or t.op == "op":
        return set().union(*[kinds(x) for x in t.a[1:] if isinstance(x, T)], set())
    return set()


def coordinate(t):
    """The leading direction (x before y before z) of the input coordinates in t."""
    seen = set()
    for x in walk(t):
        if x.op in ("get", "fld") and x.a[1] in AXES and not own(x):
            seen.add(x.a[1])
    for a in AXES:
        if a in seen:
            return a
    return None


def own(x):
    """A parameter of the box itself (its lengths, corners) rather than of the vector."""
    y = x
    while y.op in ("get", "fld", "ld", "idx") and isinstance(y.a[0], T):
        y = y.a[0]
    return y.op == "this"


# ---------------------------------------------------------------- density grids
def isflag(t, a):
    """A read of a box's periodicity in direction a (through its accessors)."""
    t = unwrap(t)
    while t.op == "ld":
        t = unwrap(t.a[0])
    if t.op in ("get", "fld") and t.a[1] == a:
        b = unwrap(t.a[0])
        while b.op == "ld":
            b = unwrap(b.a[0])
        return b.op == "call" and p11.simplename(b) == "getPeriodic" or b.op == "fld" and b.a[1] == "m_periodic"
    return t.op == "call" and p11.simplename(t) == "getPeriodic" + a.upper()


class NonPeriodic(Region):
    def __init__(self, axis, *a):
        Region.__init__(self, *a)
        self.axis = axis

    def hook(self, t):
        if isflag(t, self.axis):
            return False
        return Region.hook(self, t)

    def truth(self, t):
        if isinstance(t, T) and isflag(t, self.axis):
            return False
        return Region.truth(self, t)

    def interval(self, t, d=0):
        if isinstance(t, T) and isflag(t, self.axis):
            return (0.0, 0.0)
        return Region.interval(self, t, d)


def says(guards, R):
    """Do the guards contradict the region?"""
    for t, p in guards:
        v = R.A.val(t)
        if v is None:
            v = R.truth(t)
        if v is not None and v != p:
            return True
    return False


def modulo(t):
    """(index, size) of an index taken modulo a grid size: i % n or (i + n) % n"""
    t = unwrap(t)
    while t.op in ("ld",) or t.op == "call" and p11.simplename(t) in ("toint", "float"):
        t = unwrap(t.a[-1])
    if t.op == "op" and t.a[0] == "%" and len(t.a) == 3:
        i, n = t.a[1], t.a[2]
        if i.op == "op" and i.a[0] == "+" and any(unwrap(x) is unwrap(n) for x in i.a[1:]):
            i = [x for x in i.a[1:] if unwrap(x) is not unwrap(n)]
            i = i[0] if i else n
        return i, n
    return None


ROUND = REDUCE - {"arg", "atan2"}


def lengths(t):
    """Directions of the box lengths read in t."""
    out = set()
    for x in walk(t):
        if x.op == "call":
            n = p11.simplename(x)
            if n in ("getLx", "getLy", "getLz"):
                out.add(n[-1].lower())
        if x.op in ("fld", "get") and x.a[1] in AXES and isinstance(x.a[0], T):
            y = unwrap(x.a[0])
            while y.op == "ld":
                y = unwrap(y.a[0])
            if y.op == "call" and p11.simplename(y) == "getL":
                out.add(x.a[1])
    return out


def byhand(ctx, e, seen):
    """R5: minimum images made without the box."""
    if e.kind not in ("store", "acc", "decl", "return", "append") or not isinstance(e.value, T):
        return
    found = set()
    for x in walk(e.value):
        if x.op == "op" and x.a[0] == "*":
            fs = x.a[1:]
            for k, f in enumerate(fs):
                ls = lengths(f)
                if ls and not reductions(f) and any(p11.simplename(r) in ROUND and (lengths(r) & ls) for j, g in enumerate(fs) if j != k for r in reductions(g)):
                    found |= ls
        elif x.op == "call" and p11.simplename(x) in ("fmod", "fmodf", "remainder") and len(x.a) > 2:
            found |= lengths(x.a[-1])
    v = e.value
    terms = [(v, e.op)] if e.kind == "acc" and e.op in ("+=", "-=") else []
    if v.op == "op" and v.a[0] in ("+", "-") and len(v.a) == 3:
        terms += [(y, v.a[0]) for y in v.a[1:]]
    for y, o in terms:
        ls = lengths(y)
        if ls and unwrap(y).op in ("call", "ld", "get", "fld") and any(g.op == "op" and g.a[0] in ("<", ">", "<=", ">=") and lengths(g) & ls for g, p in e.guards):
            found |= ls
    for a in sorted(found):
        if (e.file, e.line, a) in seen:
            continue
        seen.add((e.file, e.line, a))
        ctx.ob(says(e.guards, NonPeriodic(a, {})), "R5", "%s: %s" % (owner_fn(e), a),
               "a value is reduced by the box length in a direction that may not be periodic", e.file, e.line)


def grids(ctx, F):
    seen, n, hand = set(), 0, set()
    for fid in entries(F):
        f = F.fns[fid]
        if not f.get("body") or f.get("cls") == BOX or not any("Box" in str(p["t"]) or "NeighborQuery" in str(p["t"]) for p in f.get("ps") or []):
            continue
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(fid, cxx.S({}, ()), mk("this", f["cls"]) if f.get("cls") else None)
        for e in E.events:
            byhand(ctx, e, hand)
            if e.kind != "store" or e.place is None or e.place.op != "idx" or len(e.place.a) != 4:
                continue
            ms = [modulo(x) for x in e.place.a[1:]]
            if not any(ms):
                continue
            key = (e.file, e.line)
            if key in seen:
                continue
            seen.add(key)
            ctx.visited(E)
            n += 1
            for a, m in zip(AXES, ms):
                if m is None:
                    continue
                i, w = m
                low = says(e.guards, NonPeriodic(a, {i: (-INF, -1.0)}))
                high = says(e.guards, NonPeriodic(a, {}, ({w: 1.0, i: -1.0}, False)))
                ctx.ob(low and high, "R2", "%s: grid index in %s" % (owner_fn(e), a), "cells across the boundary are written although the box is not periodic in this direction", e.file, e.line)
    ctx.need(n, 2, "grid writes with periodic indices")


# ---------------------------------------------------------------- neighbor queries
def queries(ctx, F):
    Q = Queries(ctx, F)
    ctx.need(len(Q.engines), 3, "query engines")
    for cls, qid in Q.engines:
        E = cxx.Engine(F, opaque=OPAQUE)
        s, v = E.run(qid, cxx.S({}, ()), mk("this", cls))
        ctx.visited(E)
        f = F.fns[qid]
        if delegates(F, cls):
            continue
        for a in AXES:
            ok = s is None or s.dead or says(s.guards, NonPeriodic(a))
            ctx.ob(ok, "R3", "%s::query: %s not periodic" % (cls.replace("freud::locality::", ""), a), "the query goes on in a box that is not periodic", f.get("file"), f.get("line"))


def delegates(F, cls):
    """An engine whose search is another engine's (whose image vectors R4 holds to the periodicity flags)."""
    for i, f in F.fns.items():
        if f.get("cls") == cls and f.get("body") and i.split("(")[0].endswith("::querySingle"):
            if calls(f["body"], "::querySingle"):
                return True
    return False


# ---------------------------------------------------------------- image vectors
def images(ctx, F):
    n, seen = 0, set()
    Q = Queries(ctx, F)
    for fid, f in sorted(F.fns.items()):
        if not f.get("body") or fid.startswith("lambda") or "locality" not in (f.get("file") or ""):
            continue
        if not calls(f["body"], "getLatticeVector") or not searches(F, f, Q):
            continue
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(fid, cxx.S({}, ()), mk("this", f["cls"]) if f.get("cls") else None)
        ctx.visited(E)
        for e in E.events:
            if e.kind not in ("store", "append") or not isinstance(e.value, T) or not p11.vectorial(e.value):
                continue
            if e.place is None or (e.kind == "store" and e.place.op == "var") or (e.file, e.line) in seen:
                continue
            lvs = [x for x in walk(e.value) if x.op == "lv"]
            if not lvs:
                continue
            seen.add((e.file, e.line))
            gs = list(e.guards)
            for L in e.loops:
                for v, d in (E.loops.get(L, {}).get("ind") or {}).items():
                    if len(d) == 3 and d[2] == "++" and isinstance(d[1], T):
                        gs.append((mk("op", "<=", d[1], d[0]), True))
            for w, g in p11.combos(e.value):
                co = p11.coeffs_of(w) if hasattr(p11, "coeffs_of") else terms(w)
                for ax, c in co.items():
                    a = AXES[ax]
                    n += 1
                    ok = all(says(gs + list(g), NonPeriodic(a, {c: r})) for r in ((-INF, -1.0), (1.0, INF)))
                    ctx.ob(ok, "R4", "%s: image along lattice vector %d" % (owner_fn(e), ax), "an image across a direction that is not periodic is searched", e.file, e.line)
    ctx.need(n, 3, "image vector components")


def searches(F, f, Q):
    """Helpers of a search that another engine may use without its own refusal: per-point iterators and free functions of the
    search (an engine's own members run after its query() refused; other classes replicate on the user's request)."""
    c = f.get("cls")
    return not c or Q.perpoint(c)


def calls(n, name):
    if isinstance(n, dict):
        if n.get("f") and name in str(n["f"]):
            return True
        return any(calls(x, name) for x in n.values())
    return isinstance(n, list) and any(calls(x, name) for x in n)


def terms(v):
    """{axis: coefficient}"""
    out = {}

    def go(x, c):
        x = unwrap(x)
        if p11.axis(x) is not None:
            out[p11.axis(x)] = c
        elif x.op == "op" and x.a[0] in ("+", "-") and len(x.a) == 3:
            go(x.a[1], c)
            go(x.a[2], c)
        elif x.op == "op" and len(x.a) == 2 or x.op == "neg":
            go(x.a[-1], c)
        elif x.op == "op" and x.a[0] == "*" and len(x.a) == 3:
            l = any(p11.axis(y) is not None for y in walk(x.a[1]))
            if l:
                go(x.a[1], x.a[2])
            else:
                go(x.a[2], x.a[1])
        elif x.op == "phi":
            go(x.a[1], c)
            go(x.a[2], c)
    go(v, lit(1))
    return out
