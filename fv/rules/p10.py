"""Emission guards of the query iterators. For every engine and mode, the per-point iterator is constructed by abstract
evaluation of querySingle with symbolic arguments and its next() is evaluated on that object. Every bond next() can
return is traced to where it was made (through the fields and containers of the iterator that hold bonds), and the
branch conditions on the way must exclude: distance >= r_max, distance < r_min, and - with exclude_ii - a point index
equal to the query point's. A nearest-neighbor iterator must return a bond only while fewer than num_neighbors were
returned."""
from .. import cxx
from ..queries import Queries, NS, unwrap, ptrs, BASE
from ..terms import T, mk, lit, islit, walk, root, show
from ..facts import strip_targs
from ..region import Region
from ..shared import OPAQUE, owner_fn, simple
from ..implies import Asm, contradicts, cases
from .p19 import BALLONLY, short

P = lambda n: mk("param", n)
TERM = "ITERATOR_TERMINATOR"


def check(ctx):
    ctx.rule("R1: every bond a ball or nearest iterator returns was made under distance < r_max")
    ctx.rule("R2: ... and under r_min <= distance")
    ctx.rule("R3: ... and, with exclude_ii, under point index != query point index, comparing exactly those two")
    ctx.rule("R4: nearest iterators return bonds only while fewer than num_neighbors were returned, counting each")
    ctx.rule("R5: NeighborList::filter_r keeps no bond with distance < r_min or distance >= r_max")
    F = ctx.cxx(None, True)
    filtered(ctx, F)
    Q = Queries(ctx, F)
    ctx.need(len(Q.engines), 4, "query engines")
    n = 0
    for cls, _ in Q.engines:
        for want in ("ball", "nearest"):
            if want == "nearest" and cls in BALLONLY:
                continue
            for I in iterators(ctx, Q, cls, want):
                n += 1
                emission(ctx, I, cls, want)
    ctx.need(n, 6, "query iterators")


def filtered(ctx, F):
    for i in F.byname.get(NS + "NeighborList::filter_r", []):
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(i, cxx.S({}, ()), mk("this", NS + "NeighborList"))
        ctx.visited(E)
        hi, lo = P("r_max"), P("r_min")
        for e in E.events:
            if e.kind not in ("store", "append") or not e.loops or not isinstance(e.value, T):
                continue
            ds = {x for x in walk(e.value) if x.op == "ld" and any(y.op == "fld" and y.a[1] == "m_distances" for y in walk(x.a[0]) if isinstance(y, T)) and x.a[0].op == "idx"}
            if len(ds) != 1 or not (hi in walk(e.value) or lo in walk(e.value)):
                continue
            d = ds.pop()
            for what, c in (("distance >= r_max", ({hi: 1.0, d: -1.0}, False)), ("distance < r_min", ({d: 1.0, lo: -1.0}, True))):
                R = Region({}, c)
                ctx.ob(R.truth(e.value) is False, "R5", "NeighborList::filter_r %s" % what, "bonds with %s are kept" % what, e.file, e.line)


class It:
    """An iterator built by querySingle and evaluated through next()."""

    def __init__(self, Q, E, obj, s, start, qidx, nextid):
        self.Q, self.E, self.obj, self.qidx = Q, E, obj, qidx
        self.cls = obj.a[1]
        # a first run finds the fields next() itself changes; their values at an arbitrary call are unknown
        E.run(nextid, s.copy(), obj)
        s = s.copy()
        for e in E.events[start:]:
            if e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[0] is obj:
                E.store(s, e.place, mk("hv", "next", e.place), "hv", None, silent=True)
        self.k = start = len(E.events)
        self.s, self.v = E.run(nextid, s, obj)
        self.f = Q.F.fns[nextid]
        self.ret = [e for e in E.events[start:] if e.kind == "return" and e.fn == nextid and isinstance(e.value, T)]
        self.src = {}
        for e in E.events:
            if e.kind in ("store", "append", "insert", "assign") and e.place is not None and isinstance(e.value, T):
                f = srcfield(e.place, obj)
                if f:
                    self.src.setdefault(f, []).append(e)


def iterators(ctx, Q, cls, want):
    F = Q.F
    E0 = cxx.Engine(F)
    ids = []
    for i in F.byname.get(BASE + "::querySingle", []):
        ids += [i] + list(E0.alloverrides(i))
    ids = [i for i in set(ids) | {i for i in F.fns if strip_targs(i).split("(")[0].endswith("::querySingle")} if F.fns.get(i, {}).get("body")]
    fid = E0.lookup(cls, ids)
    if not fid:
        return
    ps = F.fns[fid]["ps"]
    qi = [p["n"] for p in ps if p["t"].replace("const ", "") in ("unsigned int", "size_t", "unsigned long")]
    an = [p["n"] for p in ps if "QueryArgs" in p["t"]]
    mem = dict(Q.defaults)
    gs = []
    for k in ("r_max", "r_min", "exclude_ii") + (("num_neighbors", "scale", "r_guess") if want == "nearest" else ()):
        if k not in ("r_min", "exclude_ii"):
            gs.append((mk("op", "==", P(k), mem[k]), False))
        mem[k] = P(k)
    mem["mode"] = lit("enum:" + NS + "QueryType::" + want)
    E = cxx.Engine(F, opaque=OPAQUE)
    args = {an[0]: mk("struct", Q.args, tuple(mem.items()))}
    s, v = E.run(fid, cxx.S({}, tuple(gs)), mk("this", cls), args)
    ctx.visited(E)
    if s is None or s.dead or v is None:
        return
    start = len(E.events)
    for o in sorted({x for x in ptrs(v) if x.op == "obj"}, key=lambda x: x.uid):
        nx = nextof(F, E, o.a[1])
        if nx:
            yield It(Q, E, o, s, start, P(qi[0]) if qi else None, nx)
            ctx.visited(E)


def nextof(F, E, cls):
    ids = [i for i in F.fns if strip_targs(i).split("(")[0].endswith("::next") and F.fns[i].get("body") and F.fns[i].get("cls")]
    return E.lookup(cls, ids)


def srcfield(p, obj):
    """The iterator's field a place or loaded value belongs to."""
    x = p
    for _ in range(60):
        if x.op == "fld" and x.a[0] is obj:
            return x.a[1]
        if x.op in ("fld", "idx", "ld", "sel", "get", "deref"):
            x = x.a[0]
        elif x.op in ("hv", "ho"):
            x = x.a[-1]
        elif x.op == "ptr":
            x = x.a[0]
        else:
            return None
    return None


def bondfields(v):
    """Fields of a constructed bond."""
    d = {}
    x = v
    while x.op == "upd":
        k = x.a[1]
        if isinstance(k, tuple) and k[0] == "f":
            d.setdefault(k[1], unwrap(x.a[2]))
        x = x.a[0]
    if x.op == "struct":
        for n, y in x.a[1]:
            d.setdefault(n, unwrap(y))
    return d if "point_idx" in d and "distance" in d else None


def isterm(v):
    return any(x.op == "glob" and TERM in str(x.a[0]) for x in [v]) or v.op == "ld" and v.a[0].op == "glob" and TERM in str(v.a[0].a[0])


def leaves(v, g):
    """cases(), also below the field updates of a bond."""
    for w, gg in cases(v, g):
        w = unwrap(w)
        if w.op == "upd" and unwrap(w.a[0]).op in ("phi", "upd"):
            for b, g2 in leaves(unwrap(w.a[0]), gg):
                yield mk("upd", b, *w.a[1:]), g2
        else:
            yield w, gg


class Bond:
    """What is known of one bond value: its distance in linear and squared form, its indices."""

    def __init__(self, v, d=None):
        self.v, self.d = v, d
        if d is not None:
            D = d["distance"]
            self.lin = {D}
            self.sq = set()
            self.addsq(D)
            self.pidx = {d["point_idx"]}
            self.qidx = {d["query_point_idx"]} if "query_point_idx" in d else set()
        else:
            self.lin = {mk("get", v, "distance"), mk("fld", v, "distance"), mk("ld", mk("fld", v, "distance"))}
            if v.op in ("ho", "hv"):
                w = v.a[-1]
                self.lin |= {mk(v.op, *v.a[:-1], mk("fld", w, "distance"))}
            self.sq, self.pidx, self.qidx = set(), set(), set()

    def addsq(self, D):
        if D.op == "call" and str(D.a[0]).split("(")[0].split("::")[-1].rstrip("f") == "sqrt" and len(D.a) == 2:
            self.sq.add(D.a[1])

    def dist(self, t, A):
        t = unwrap(t)
        if t in self.lin or A.reduce(t) in self.lin:
            return 1
        if t in self.sq or A.reduce(t) in self.sq:
            return 2
        # squared distance recomputed, or |v| recomputed
        if t.op == "op" and t.a[0] == "*" and len(t.a) == 3 and t.a[1] is t.a[2] and t.a[1] in self.lin:
            return 2
        if t.op == "call" and str(t.a[0]).split("(")[0].split("::")[-1].rstrip("f") == "sqrt" and t.a[1] in self.sq:
            return 1
        return 0


def bound(t, name):
    """1 when t is the bound (or at most the bound), 2 its square; 0 otherwise."""
    t = unwrap(t)
    if t is P(name):
        return 1
    if name == "r_max" and t.op == "call" and str(t.a[0]).split("(")[0].split("::")[-1] == "min" and any(unwrap(x) is P(name) for x in t.a[1:] if isinstance(x, T)):
        return 1
    if t.op == "op" and t.a[0] == "*" and len(t.a) == 3 and t.a[1] is t.a[2]:
        return 2 if bound(t.a[1], name) == 1 else 0
    if t.op == "call" and str(t.a[0]).split("(")[0].split("::")[-1] == "pow" and len(t.a) == 3 and islit(t.a[2]) and t.a[2].a[0] == 2:
        return 2 if bound(t.a[1], name) == 1 else 0
    return 0


def hook_max(B, A):
    def h(t):      # situation: distance >= r_max
        if t.op != "op" or len(t.a) != 3 or t.a[0] not in ("<", "<="):
            return None
        o, x, y = t.a
        k = B.dist(x, A)
        if k and k == bound(y, "r_max") and o == "<":
            return False
        k = B.dist(y, A)
        if k and k == bound(x, "r_max") and o == "<=":
            return True
        return None
    return h


def hook_min(B, A):
    def h(t):      # situation: distance < r_min
        if t.op != "op" or len(t.a) != 3 or t.a[0] not in ("<", "<="):
            return None
        o, x, y = t.a
        k = B.dist(y, A)
        if k and k == bound(x, "r_min"):
            return False
        k = B.dist(x, A)
        if k and k == bound(y, "r_min"):
            return True
        return None
    return h


def hook_excl(B, A, I):
    qs = {I.qidx} | B.qidx

    def h(t):      # situation: exclude_ii and the same index
        if t is P("exclude_ii"):
            return True
        if t.op == "op" and len(t.a) == 3 and t.a[0] == "==":
            x, y = unwrap(t.a[1]), unwrap(t.a[2])
            x2, y2 = A.reduce(x), A.reduce(y)
            for a, b in ((x, y), (y, x), (x2, y2), (y2, x2)):
                if a in qs and b in B.pidx:
                    return True
        return None
    return h


def emission(ctx, I, cls, want):
    what = "%s %s" % (short(cls), short(I.cls))
    n = 0
    for e in I.ret:
        for v, g in leaves(unwrap(e.value), e.guards):
            v = unwrap(v)
            if isterm(v):
                continue
            n += 1
            for prop, txt in (("max", "R1"), ("min", "R2"), ("excl", "R3")):
                ok, where = holds(I, v, g, prop, set())
                w = where or e
                msg = {"max": "a bond with distance >= r_max can be returned", "min": "a bond with distance < r_min can be returned",
                       "excl": "with exclude_ii, a bond between a query point and the point of the same index can be returned"}[prop]
                ctx.ob(ok, txt, "%s: bond made in %s" % (what, owner_fn(w)), msg, w.file, w.line)
            if want == "nearest":
                ctx.ob(counted(I, e, g), "R4", what + " num_neighbors", "bonds are returned without counting them against num_neighbors", e.file, e.line)
    ctx.ob(n > 0, "R1", what + " returns bonds", "no bond is ever returned", I.f.get("file", ""), I.f.get("l", 0))


def holds(I, v, g, prop, seen):
    """(property guaranteed, event to blame)"""
    A = Asm(g)
    v = A.reduce(v)
    d = bondfields(v)
    B = Bond(v, d)
    h = {"max": hook_max, "min": hook_min}.get(prop)
    hk = h(B, A) if h else hook_excl(B, A, I)
    gr = tuple(g) + tuple((A2(g, t), p) for t, p in g)
    if contradicts(gr, hk):
        return True, None
    if d is not None:
        return False, None
    f = srcfield(v, I.obj)
    if f is None:
        return False, None
    if f in seen:
        return True, None
    seen = seen | {f}
    srcs = I.src.get(f, [])
    any_ = False
    for e in srcs:
        if e.op in ("hv",):
            continue
        for w, gg in leaves(unwrap(e.value), e.guards):
            w = unwrap(w)
            if isterm(w) or w.op in ("empty", "undef", "lit", "new") or w.op == "call" and not w.a[1:]:
                continue
            if not bondlike(w, I):
                continue
            any_ = True
            ok, wh = holds(I, w, gg, prop, seen)
            if not ok:
                return False, wh or e
    return any_, None


def bondlike(w, I):
    return bondfields(w) is not None or srcfield(w, I.obj) is not None


def A2(g, t):
    """A guard with the other guards' decisions substituted."""
    return Asm([x for x in g if x[0] is not t]).reduce(t)


def counted(I, e, g):
    """Some guard says counter < num_neighbors (or an equivalent), and the counter is incremented."""
    for t, p in g:
        for a, pol in atoms(t, p):
            if a.op != "op" or len(a.a) != 3:
                continue
            o, x, y = a.a
            c = x if o == "<" and pol and unwrap(y) is P("num_neighbors") else y if o == "<=" and not pol and unwrap(x) is P("num_neighbors") else None
            if c is None:
                continue
            f = srcfield(unwrap(c), I.obj)
            if f and any(bumps(s, c) for s in I.src.get(f, [])):
                return True
    return False


def bumps(s, c):
    v = unwrap(s.value)
    return v.op == "op" and v.a[0] == "+" and len(v.a) == 3 and any(x is c for x in v.a[1:]) and any(islit(x) and x.a[0] == 1 for x in v.a[1:])


def atoms(t, p):
    if t.op == "op" and t.a[0] == "&&" and p or t.op == "op" and t.a[0] == "||" and not p:
        return atoms(t.a[1], p) + atoms(t.a[2], p)
    if t.op == "op" and t.a[0] == "!":
        return atoms(t.a[1], not p)
    return [(t, p)]
