"""P13: values outside a histogram's range are never counted.

R1 Every axis class is evaluated symbolically from its constructor to its bin method: a path that returns a bin contradicts value < minimum
   and value >= maximum, a path that returns the overflow bin contradicts minimum <= value < maximum, and the bin is the truncated position
   of the value in units of the width of the stored edges, never equal to the number of bins. The edges are the minimum plus equal steps.
R2 The bin of several values takes axis k's bin of value k, and is the overflow bin as soon as one axis gives it.
R3 Every write to a per-bin array anywhere in the library is at an index that runs over that array, or at a bin obtained from the axes on a
   path that excludes the overflow bin; arrays accumulated together in one pass use the same bin.
R4 Coordinates given to axes named after a coordinate are that coordinate.
"""
from .. import cxx
from ..implies import Asm, cases
from ..ratfun import Norm, Undefined
from ..region import Region, rejects
from ..shared import OPAQUE, entries, simple, evfn, owner_fn, placename
from ..terms import T, mk, lit, islit, walk, show, ancestors

OVER = 4294967295
O = lambda o, *a: mk("op", o, *a)
P = lambda n: mk("param", n)


def check(ctx):
    F = ctx.cxx(None, False)
    axes(ctx, F)
    n = {"w": 0, "b": 0}
    for i in entries(F):
        f = F.fns[i]
        E = cxx.Engine(F, inline_box=False, opaque=OPAQUE)
        E.run(i, cxx.S({}, ()), mk("this", f.get("cls")), {})
        ctx.visited(E)
        combine(ctx, F, i, E)
        writes(ctx, F, i, E, n)
    ctx.need(n["w"], 10, "writes to per-bin arrays")
    ctx.need(n["b"], 5, "writes at a bin of the axes")
    letters(ctx, F)


def isover(t):
    return islit(t) and t.a[0] in (OVER, 2 ** 64 - 1, -1)


# ---------------------------------------------------------------- one axis
def axes(ctx, F):
    base = "freud::util::Axis"
    n = 0
    for i, f in sorted(F.fns.items()):
        cls = f.get("cls") or ""
        if not simple(i).endswith("::bin") or not f.get("body") or len(f.get("ps") or []) != 1 or "vector" in str(f["ps"][0]["t"]):
            continue
        if base not in derives(F, cls):
            continue
        this = mk("this", cls)
        for j, g in sorted(F.fns.items()):
            if g.get("cls") != cls or not g.get("ctor") or g.get("implicit") or [("float" in str(p["t"])) for p in g.get("ps") or []] != [False, True, True]:
                continue
            E = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
            nb, mn, mx, val = P("nbins"), P("min"), P("max"), P("value")
            s, v = E.run(j, cxx.S({}, ()), this, dict(zip([p["n"] for p in g["ps"]], (nb, mn, mx))))
            ctx.visited(E)
            if s is None:
                continue
            edges(ctx, g, E, nb, mn, mx)
            mem = {p: x for p, x in s.mem.items() if rootop(p) in ("this",)}
            for name, want in (("getMin", mn), ("getMax", mx), ("size", nb)):
                k = find(F, base, name)
                if k:
                    E2 = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
                    s2, r = E2.run(k, cxx.S(dict(mem), ()), this, {})
                    ctx.ob(r is want if isinstance(r, T) else None, "R1", "Axis::" + name, "the axis does not report the value it was made with", F.fns[k].get("file"), F.fns[k].get("line"))
            arg = mk("pobj", "value")
            mem[arg] = val
            E2 = cxx.Engine(F, inline_box=True, opaque=OPAQUE)
            s2, r = E2.run(i, cxx.S(mem, ()), this, {f["ps"][0]["n"]: mk("ptr", arg)})
            ctx.visited(E2)
            if isinstance(r, T):
                n += 1
                onebin(ctx, i, f, r, nb, mn, mx, val)
    ctx.need(n, 1, "bin methods of axes")


def rootop(p):
    while p.op in ("fld", "idx"):
        p = p.a[0]
    return p.op


def derives(F, cls):
    out, todo = set(), [cls]
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        todo += [b["n"] if isinstance(b, dict) else b for b in (F.recs.get(c) or {}).get("bases") or []]
    return out


def find(F, cls, name):
    for i, f in sorted(F.fns.items()):
        if f.get("cls") == cls and simple(i).endswith("::" + name) and f.get("body") and not f.get("ps"):
            return i
    return None


def alternatives(t, p):
    """A condition as a list of conjunctions, one of which holds."""
    if t.op == "op" and t.a[0] == "!":
        return alternatives(t.a[1], not p)
    if t.op == "op" and (t.a[0] in ("||", "or") and p or t.a[0] in ("&&", "and") and not p):
        out = []
        for x in t.a[1:]:
            out += alternatives(x, p)
        return out
    if t.op == "op" and (t.a[0] in ("||", "or") or t.a[0] in ("&&", "and")):
        out = [()]
        for x in t.a[1:]:
            out = [a + b for a in out for b in alternatives(x, p)]
        return out
    if t.op == "phi":
        return [a + b for c, x in ((True, t.a[1]), (False, t.a[2])) for a in alternatives(t.a[0], c) for b in alternatives(x, p)]
    if islit(t):
        return [()] if bool(t.a[0]) is p else []
    return [((t, p),)]


def paths(g):
    out = [()]
    for t, p in g:
        out = [a + b for a in out for b in alternatives(t, p)][:256]
    return out


def onebin(ctx, i, f, r, nb, mn, mx, val):
    name = simple(i).replace("freud::util::", "")
    at = (f.get("file"), f.get("line"))
    below = lambda: Region(order=({val: 1.0, mn: -1.0}, True))
    above = lambda: Region(order=({mx: 1.0, val: -1.0}, False))
    inlow = lambda: Region(order=({mn: 1.0, val: -1.0}, False))
    inhigh = lambda: Region(order=({val: 1.0, mx: -1.0}, True))
    N = Norm()
    want = O("/", O("*", O("-", val, mn), nb), O("-", mx, mn))
    some = False
    for leaf, g in cases(r, ()):
        for path in paths(g):
            if isover(leaf):
                ok = rejects(path, inlow()) or rejects(path, inhigh())
                ctx.ob(ok, "R1", name + " overflow", "a value inside the range may get the overflow bin", *at)
                continue
            some = True
            ctx.ob(rejects(path, below()), "R1", name + " below", "a value below the lower edge gets a bin", *at)
            ctx.ob(rejects(path, above()), "R1", name + " above", "a value at or above the upper edge gets a bin", *at)
            position(ctx, name, N, leaf, path, want, nb, at)
    ctx.ob(some, "R1", name + " bins", "no value gets a bin", *at)


def trunc(t):
    while t.op in ("op", "call", "cast") and isinstance(t.a[-1], T) and (str(t.a[0]) in ("toint", "floor", "trunc") or t.op == "cast"):
        t = t.a[-1]
    return t


def truncated(t):
    return t.op == "op" and t.a[0] == "toint" or t.op == "call" and t.a[0] in ("floor", "trunc")


def position(ctx, name, N, leaf, path, want, nb, at):
    """The leaf is the truncated position, below the number of bins; or that position clamped to the last bin."""
    if leaf.op == "call" and leaf.a[0] == "min" and len(leaf.a) == 3:
        a, b = leaf.a[1:]
        if not truncated(a):
            a, b = b, a
        ok = truncated(a) and same(N, trunc(a), want) and same(N, b, O("-", nb, lit(1)))
        ctx.ob(ok, "R1", name + " position", "the bin is not the truncated position of the value", *at)
        return
    if truncated(leaf):
        ctx.ob(same(N, trunc(leaf), want), "R1", name + " position", "the bin is not the truncated position of the value", *at)
        A = Asm(path)
        full = any(v is False for v in (A.val(O("==", leaf, nb)), A.val(O("==", nb, leaf)), A.val(O("<=", nb, leaf)))) or A.val(O("<", leaf, nb)) is True
        ctx.ob(full, "R1", name + " last", "rounding may give a bin equal to the number of bins", *at)
        return
    last = same(N, leaf, O("-", nb, lit(1)))
    if not last and leaf.op == "op" and leaf.a[0] == "-" and truncated(leaf.a[1]) and islit(leaf.a[2]) and leaf.a[2].a[0] == 1:
        A = Asm(path)
        last = A.val(O("==", leaf.a[1], nb)) is True or A.val(O("==", nb, leaf.a[1])) is True
    if last:
        # only when the position is the number of bins
        hit = any(p and t.op == "op" and t.a[0] in ("==", "<=") and any(truncated(x) for x in t.a[1:]) or not p and t.op == "op" and t.a[0] in ("<", "!=") and any(truncated(x) for x in t.a[1:]) for t, p in path)
        ctx.ob(hit, "R1", name + " last", "the last bin is given to values of other bins", *at)
        return
    ctx.ob(False if any(x is P("value") for x in walk(leaf)) or islit(leaf) else None, "R1", name + " position", "the bin %s is not the truncated position of the value" % show(leaf, 4), *at)


def same(N, a, b):
    try:
        return N.same(a, b)
    except Undefined:
        return None


def edges(ctx, g, E, nb, mn, mx):
    """m_bin_edges[i] = min + i * (max - min) / nbins for i = 0 ... nbins."""
    N = Norm()
    for e in E.events:
        if e.kind != "store" or e.place is None or e.place.op != "idx" or not e.loops or rootop(e.place) != "this":
            continue
        ix = e.place.a[1]
        lv = [x for x in walk(ix) if x.op == "lv"]
        if ix.op != "lv" or not any(x is mn for x in walk(e.value)):
            continue
        ok = same(N, e.value, O("+", mn, O("*", ix, O("/", O("-", mx, mn), nb))))
        ctx.ob(ok, "R1", "bin edges", "the edges are not the minimum plus equal steps up to the maximum", g.get("file"), e.line)
        A = [(t, p) for t, p in e.guards if any(x is ix for x in walk(t))]
        R = Region(order=({ix: 1.0, nb: -1.0}, False))
        ctx.ob(not rejects(A, R), "R1", "number of bin edges", "the last edge is not set", g.get("file"), e.line)


# ---------------------------------------------------------------- several axes
def inaxes(p):
    return p.op == "idx" and p.a[0].op == "fld" and p.a[0].a[1] == "m_axes"


def combine(ctx, F, i, E):
    """A bin of one axis is kept only when it is not the overflow bin; axis and value have the same position."""
    if not simple(i).endswith("Histogram::bin") or "ThreadLocal" in i:
        return
    vals = {p["n"] for p in F.fns[i].get("ps") or []}
    n = 0
    for e in E.events:
        if e.kind not in ("append", "store", "acc") or not isinstance(e.value, T) or not e.loops:
            continue
        ax = {x.a[1] for x in walk(e.value) if inaxes(x)}
        if not ax:
            continue
        n += 1
        ctx.ob(len(ax) == 1, "R2", "Histogram::bin axis", "mixes several axes", e.file, e.line)
        ix = {x.a[1] for x in walk(e.value) if x.op == "idx" and x.a[0].op in ("pobj", "param", "var") and any(v in str(x.a[0].a[0]) for v in vals)}
        ctx.ob(ix <= ax, "R2", "Histogram::bin value", "the value of one axis is put into another axis", e.file, e.line)
        b = overs(e.value)
        if b is not None:
            ctx.ob(excluded(b, e.guards), "R2", "Histogram::bin overflow", "the overflow bin of one axis is combined with the bins of others", e.file, e.line)
    return n


def overs(t):
    """The part of an index that may be the overflow bin."""
    for x in walk(t):
        if x.op == "phi" and any(isover(l) for l, g in cases(x, ())):
            return x
    return None


def excluded(b, guards):
    A = Asm(guards)
    for o in (OVER, 2 ** 64 - 1):
        if A.val(O("==", b, lit(o))) is False or A.val(O("==", lit(o), b)) is False:
            return True
        if rejects(guards, Region(iv={b: (float(o), float(o))})):
            return True
    ls = cases(b, guards)
    live = []
    for l, g in ls:
        A = Asm(g)
        if any(A.val(t) is (not p) for t, p in g):
            continue
        live.append(l)
    return bool(live) and not any(isover(l) for l in live)


# ---------------------------------------------------------------- writes
def perbin(p):
    """Is the place an element of a histogram's bins?"""
    return p is not None and p.op == "idx" and p.a[0].op == "fld" and p.a[0].a[1] == "#data" and any(x.op == "fld" and x.a[1] == "m_bin_counts" for x in walk(p.a[0]))


def writes(ctx, F, i, E, n):
    f = F.fns[i]
    seen = {}
    for e in E.events:
        if e.kind not in ("store", "acc") or not perbin(e.place):
            continue
        n["w"] += 1
        ix = e.place.a[1]
        name = "%s %s" % (simple(i).replace("freud::", ""), placename(e.place))
        if islit(ix):
            ctx.ob(None, "R3", name, "", e.file, e.line)
            continue
        if ix.op == "lv":
            ok = bounded(ix, e)
            ctx.ob(ok, "R3", name, "the loop over the bins does not end at the number of bins", e.file, e.line)
            continue
        if ix.op == "param":
            ctx.ob(excluded(ix, e.guards), "R3", name, "the overflow bin is written to", e.file, e.line)
            continue
        b = overs(ix)
        if b is not None:
            n["b"] += 1
            ctx.ob(excluded(b, e.guards), "R3", name, "a value outside the range is written to a bin", e.file, e.line)
            if e.loops:
                seen.setdefault((e.loops, tuple(x[0] for x in e.stack[:2]) if e.stack else ()), []).append((shape(ix, e), e, name))
        else:
            got = any(x.op == "call" and x.a[0] == "maindex" for x in walk(ix))
            n["b"] += bool(got)
            ctx.ob(None if not got and ix.op in ("hv", "ho", "undef", "opaque", "ld") else got, "R3", name, "the index %s is not a bin of the axes" % show(ix, 4), e.file, e.line)
    for k, l in seen.items():
        for s, e, name in l[1:]:
            ctx.ob(s == l[0][0], "R3", name, "arrays accumulated together use different bins", e.file, e.line)


def shape(ix, e):
    """The values a bin is computed from, independent of the evaluation's numbering."""
    return frozenset(values(ix))


def bounded(ix, e):
    """The loop's end is the size of a histogram (bins, axis or edges)."""
    good = False
    for t, p in e.guards:
        if not any(x is ix for x in walk(t)):
            continue
        if t.op == "op" and t.a[0] in ("<", "!=", "==", "<=") and len(t.a) == 3:
            lo = t.a[1] is ix
            hi = t.a[2] if lo else t.a[1]
            o = t.a[0]
            if hi is ix or islit(hi):
                continue
            strict = (o == "<" and p and lo) or (o in ("!=",) and p) or (o == "==" and not p) or (o == "<=" and not p and not lo)
            loose = o == "<=" and p and lo
            if loose:
                h2 = hi.op == "op" and hi.a[0] == "-" and islit(hi.a[2])
                if not h2:
                    return False
            if strict:
                h = end(hi, e)
                if h.op == "op" and h.a[0] == "+" and any(islit(x) and x.a[0] > 0 for x in h.a[1:]):
                    return False
                good = True
    return good or None


def end(t, e):
    """The end of the range a parallel loop was started with."""
    for q in e.par or ():
        for r in getattr(q, "ranges", ()) or ():
            pass
    return t


def values(ix):
    """Lists of values (front first) that a bin is computed from."""
    out = set()
    for x in walk(ix):
        l = listof(x)
        if l and not any(y.op == "lv" and "Histogram" in str(y.a[0]) for v in l for y in walk(v)):
            out.add(tuple(l))
    best = max((len(l) for l in out), default=0)
    return {l for l in out if len(l) == best}


def listof(x):
    """inserted(inserted([c], front, b), front, a) -> [a, b, c]"""
    if x.op == "upd":
        return listof(x.a[0]) if isinstance(x.a[1], tuple) and x.a[1] == ("f", "#size") else None
    if x.op == "call" and x.a[0] == "inserted" and len(x.a) == 4:
        r = listof(x.a[1])
        return [x.a[3]] + r if r is not None else None
    if x.op == "ilist" and x.a and not any(y.op == "ptr" for y in x.a) and not all(islit(y) for y in x.a):
        return list(x.a)
    return None


# ---------------------------------------------------------------- coordinates
def letters(ctx, F):
    """Axis k made from a parameter named x..., y..., z... receives the x, y, z component."""
    byclass = {}
    for i, f in sorted(F.fns.items()):
        cls = f.get("cls") or ""
        if f.get("ctor") and not f.get("implicit") and cls.startswith("freud::") and not cls.startswith("freud::util"):
            E = cxx.Engine(F, inline_box=False, opaque=OPAQUE)
            s, v = E.run(i, cxx.S({}, ()), mk("this", cls), {})
            if s is None:
                continue
            for p, x in s.mem.items():
                if p.op != "fld" or p.a[1] != "m_axes":
                    continue
                while x.op == "upd":
                    x = x.a[0]
                if x.op != "ilist":
                    continue
                l = []
                for y in x.a:
                    o = y.a[0] if y.op == "ptr" else y
                    mx = s.mem.get(mk("fld", o, "m_max"))
                    ps = {z.a[0] for z in walk(mx) if z.op == "param"} if isinstance(mx, T) else set()
                    c = {z[0] for z in ps if len(z) > 1 and z[0] in "xyz" and z[1] == "_"}
                    l.append(c.pop() if len(c) == 1 and len(ps) == 1 else None)
                if any(l):
                    byclass[cls] = l
    ctx.need(len(byclass), 2, "classes with coordinate axes")
    n = 0
    for cls, l in sorted(byclass.items()):
        for i, f in sorted(F.fns.items()):
            if f.get("cls") != cls or not f.get("body") or f.get("ctor") or "(lambda at" in i or f.get("lam"):
                continue
            E = cxx.Engine(F, inline_box=False, opaque=OPAQUE)
            E.run(i, cxx.S({}, ()), mk("this", cls), {})
            for e in E.events:
                if e.kind in ("store", "acc") and perbin(e.place):
                    for vs in values(e.place.a[1]):
                        if len(vs) != len(l):
                            continue
                        for k, (c, v) in enumerate(zip(l, vs)):
                            got = coordinate(v)
                            if c and got:
                                n += 1
                                ctx.ob(got == c, "R4", "%s axis %d" % (cls.replace("freud::", ""), k), "the axis of %s receives the %s coordinate" % (c, got), e.file, e.line)


def coordinate(v):
    while v.op in ("op",) and v.a[0] in ("neg", "tofloat") or v.op == "cast":
        v = v.a[-1]
    if v.op == "get" and v.a[1] in ("x", "y", "z"):
        return v.a[1]
    if v.op == "ld" and v.a[0].op == "fld" and v.a[0].a[1] in ("x", "y", "z"):
        return v.a[0].a[1]
    return None
