"""Index-space analysis of query points and points. The numbering an index belongs to (query points, points) is derived
from the loop bounds, the columns of the bond index array, the two index fields of a bond, the counts handed to
NeighborList::validate and to the neighbor search, and - to a fixpoint - from what is stored in fields and passed to
parameters. Over every path of every native function: arrays sized by one numbering are never indexed with the other, a
caller's array is never indexed with both, the two fields of a bond and the two index columns receive indices of their own
numbering, arguments keep the numbering of their parameter, and indices of the two numberings are not compared. Across
Python and the bindings: arrays indexed by one numbering are checked to have that length, and no array argument is passed
in the place of its counterpart."""
from ..terms import T, mk, walk, islit, show
from .. import cxx, spaces, core
from ..link import Link
from ..shared import OPAQUE, entries, simple, placename, owner_fn
from ..spaces import P, Q

OP = OPAQUE | {"freud::locality::makeDefaultNlist", "freud::locality::NeighborList::validate"}


def check(ctx):
    ctx.rule("R1: an array with one entry per query point is never indexed by a point index and vice versa; an array argument is not indexed by both")
    ctx.rule("R2: bond index fields, bond index columns, iterator fields and index parameters only receive indices of their own numbering")
    ctx.rule("R3: indices and counts of the two numberings are never compared with each other")
    ctx.rule("R4: neighbor lists are validated with the number of query points first and the number of points second")
    ctx.rule("R5: the Python accessors of the two index columns return the column of their name")
    ctx.rule("R6: array arguments have the length of the numbering that indexes them, and are not passed in the place of their counterparts")
    L = Link(ctx)
    S = spaces.Spaces(L)
    runs = []
    for f in entries(L.F):
        E = cxx.Engine(L.F, opaque=OP, accesses=True)
        E.run(f)
        ctx.visited(E)
        runs.append((f, E))
    cx = {f: Context(S, f, E) for f, E in runs}
    diff = [(f, E) for f, E in runs if not cx[f].same]
    spaces.learn(S, diff, L.F)
    n = 0
    for f, E in diff:
        S.fn = f
        n += native(ctx, L, S, f, E, cx[f])
    for f, E in runs:
        S.fn = f
        validated(ctx, S, f, E, cx[f])
    ctx.need(n, 60, "native uses of query point and point indices")
    ctx.cov["functions_with_distinct_numberings"] = sum(1 for f, E in diff if cx[f].counts)
    ctx.cov["learned_fields"] = {k: sorted(v) for k, v in S.fields.items()}
    columns(ctx, L, S)
    python(ctx, L)


class Context:
    """How many query points the function works with, and whether they are the system's own points."""

    def __init__(self, S, f, E):
        S.fn = f
        self.counts = set()
        self.same = False
        self.pcounts = set()
        for e in E.events:
            if e.kind == "store" and e.place is not None and e.place.op == "fld" and isinstance(e.value, T) and e.value.op == "param":
                if e.place.a[1] in S.nquery:
                    self.counts |= S.extent(E, e.value)
                elif e.place.a[1] in S.npoints:
                    self.pcounts |= S.extent(E, e.value)
        if self.counts & self.pcounts:
            self.same = True
        for e in E.events:
            if e.kind != "call" or not isinstance(e.info, dict) or not e.info.get("f") or e.value is None or e.value.op != "ilist":
                continue
            n, a = simple(e.info["f"]), e.value.a
            c = None
            if n.endswith("NeighborList::validate") and len(a) == 2:
                c = a[0]
            elif n.endswith("::makeDefaultNlist") and len(a) >= 4:
                c = a[3]
            elif n.endswith("Query::query") and len(a) >= 2:
                c = a[1]
            if c is not None:
                t = S.extent(E, c)
                if P in t:
                    self.same = True
                self.counts |= {x for x in t if x not in (spaces.ANY, "const")}

    def tok(self, toks):
        return {Q if t in self.counts else P if t in self.pcounts else t for t in toks}

    def bounded(self, S, E, e, v):
        """Spaces of a value read from an array the caller passed: what it was checked against on this path."""
        out = set()
        if v.op in ("ld", "cast"):
            for g, pol in e.guards:
                for y, q in spaces.conds(g, pol):
                    if y.op == "op" and len(y.a) == 3:
                        if y.a[0] == "<" and q and y.a[1] is v:
                            out |= S.extent(E, y.a[2])
                        elif y.a[0] == "<=" and not q and y.a[2] is v:
                            out |= S.extent(E, y.a[1])
        return self.tok(out) & {P, Q}


def clash(a, b):
    return P in a and Q in b and Q not in a or Q in a and P in b and P not in a


def nm(t):
    return {P: "points", Q: "query points"}[t]


def native(ctx, L, S, f, E, C):
    n = 0
    alloc = {}
    for e in E.events:
        if e.kind == "alloc" and isinstance(e.value, T):
            for x in walk(e.value):
                if x.op == "upd" and x.a[1] == ("f", "#shape") or x.op == "upd" and isinstance(x.a[1], tuple) and x.a[1][-1] == "#shape":
                    sh = x.a[2]
                    while sh.op == "upd":
                        sh = sh.a[0]
                    if sh.op == "ilist":
                        alloc[e.place] = sh.a
    used = {}
    for e in E.events:
        where = owner_fn(e)
        if e.kind in ("acc", "store") and e.place is not None:
            p = e.place
            while p.op == "fld" and p.a[1] != "#data":
                p = p.a[0]
            if p.op == "idx" and p.a[0].op == "fld" and p.a[0].a[1] == "#data":
                sh = alloc.get(p.a[0].a[0])
                if sh and len(sh) == len(p.a) - 1:
                    for k, (d, i) in enumerate(zip(sh, p.a[1:])):
                        a, b = C.tok(S.extent(E, d)), C.tok(S.of(E, i))
                        if (P in a or Q in a) and (P in b or Q in b):
                            n += 1
                            ctx.ob(not clash(a, b), "R1", "%s array allocated as %s" % (where, show(d, 3)), "array with one entry for each of the %s is indexed by %s" % (
                                "/".join(map(nm, a & {P, Q})), show(i, 4)), e.file, e.line)
        if e.kind in ("store", "append", "insert") and isinstance(e.value, T) and e.place is not None and e.op not in ("hv", "ho"):
            if e.place.op == "fld" and e.place.a[1] in S.nquery | S.npoints and e.value.op != "param":
                want = {Q} if e.place.a[1] in S.nquery else {P}
                t = C.tok(S.extent(E, e.value)) & {P, Q}
                if t:
                    n += 1
                    ctx.ob(not clash(want, t), "R2", "%s count %s" % (where, e.place.a[1]), "field %s counts the %s but is set to %s" % (e.place.a[1], "/".join(map(nm, want)), show(e.value, 4)), e.file, e.line)
            for fld, v in fieldvals(e):
                want = {Q} if fld in S.bq else {P} if fld in S.bp else S.fields.get(fld, set())
                if len(want) != 1:
                    continue
                t = C.tok(S.of(E, v)) & {P, Q} or C.bounded(S, E, e, v)
                if t:
                    n += 1
                    ctx.ob(not clash(want, t), "R2", "%s field %s" % (where, fld), "field %s holds an index of the %s but is given %s" % (fld, "/".join(map(nm, want)), show(v, 4)), e.file, e.line)
            p = e.place
            if p.op == "idx" and len(p.a) == 3 and islit(p.a[2]) and S.isnbr(p.a[0].a[0] if p.a[0].op == "fld" else p.a[0]):
                t = C.tok(S.of(E, e.value)) & {P, Q}
                want = {Q} if p.a[2].a[0] == 0 else {P}
                if t:
                    n += 1
                    ctx.ob(not clash(want, t), "R2", "%s column %s" % (where, p.a[2].a[0]), "column %s of the bond indices holds %s indices but is given %s" % (p.a[2].a[0], "/".join(map(nm, want)), show(e.value, 4)), e.file, e.line)
            for fld, v in fieldvals(e):
                for y, _ in spaces.conds(v):
                    n += compared(ctx, S, E, C, y, where, e)
        if e.kind in ("call", "ctor", "construct") and isinstance(e.info, dict) and isinstance(e.value, T) and e.value.op == "ilist":
            g = e.info.get("f")
            fn = L.F.fns.get(g) or {}
            for p, a in zip(fn.get("ps") or [], e.value.a):
                want = set()
                for t in [g] + list(spaces.alloverrides(L.F.overrides, g)):
                    want |= S.params.get((t, p["n"]), set())
                if simple(g or "").endswith("::find_first_index"):
                    want = {Q}
                if len(want) != 1:
                    continue
                t = C.tok(S.of(E, a)) & {P, Q}
                if t:
                    n += 1
                    ctx.ob(not clash(want, t), "R2", "%s argument %s of %s" % (where, p["n"], simple(g)), "parameter %s of %s takes an index of the %s but is given %s" % (
                        p["n"], simple(g), "/".join(map(nm, want)), show(a, 4)), e.file, e.line)
        for g, _ in e.guards:
            for y, _ in spaces.conds(g):
                n += compared(ctx, S, E, C, y, where, e)
    other = {}
    for e, p, ix in spaces.accesses(E):
        t = C.tok(S.of(E, ix[0]))
        for x in t & {P, Q}:
            used.setdefault(p, {}).setdefault(x, e)
        if not t & {P, Q}:
            other.setdefault(p, (e, ix[0]))
    for p, u in used.items():
        if p in other:
            e, i = other[p]
            ctx.fail("R1", "%s parameter %s elsewhere" % (simple(f), p), "array parameter %s has one entry for each of the %s, but is also read at %s" % (p, "/".join(map(nm, u)), show(i, 4)), e.file, e.line)
        n += 1
        e = u.get(P) or u.get(Q)
        ctx.ob(len(u) == 1, "R1", "%s parameter %s" % (simple(f), p), "array parameter %s is indexed by point indices (line %s) and by query point indices (line %s)" % (
            p, u[P].line if P in u else "", u[Q].line if Q in u else ""), e.file, e.line)
    return n


def fieldvals(e):
    """(field name, value) pairs written by a store or append."""
    p = e.place
    f = spaces.anyfield(p)
    if f:
        yield f, e.value
    for x in walk(e.value):
        if x.op == "struct":
            for n, v in x.a[1]:
                if isinstance(v, T) and not n.startswith("#"):
                    yield n, v


def compared(ctx, S, E, C, y, where, e):
    if y.op != "op" or y.a[0] not in ("<", "<=", "==", "!=") or len(y.a) != 3:
        return 0
    k = (y, E)
    if k in C.__dict__.setdefault("cmp", set()):
        return 0
    C.cmp.add(k)
    a = C.tok(S.of(E, y.a[1])) & {P, Q} or C.tok(S.extent(E, y.a[1])) & {P, Q}
    b = C.tok(S.of(E, y.a[2])) & {P, Q} or C.tok(S.extent(E, y.a[2])) & {P, Q}
    if not a or not b:
        return 0
    # equality between a query point index and a point index is how self-neighbors are recognised
    ok = y.a[0] in ("==", "!=") or not clash(a, b)
    ctx.ob(ok, "R3", "%s comparison %s" % (where, y.a[0]), "an index or count of the %s is compared with one of the %s: %s" % ("/".join(map(nm, a)), "/".join(map(nm, b)), show(y, 4)), e.file, e.line)
    return 1


def validated(ctx, S, f, E, C):
    for e in E.events:
        if e.kind == "call" and isinstance(e.info, dict) and simple(e.info.get("f") or "").endswith("NeighborList::validate") and e.value is not None and len(e.value.a) == 2:
            t = S.extent(E, e.value.a[1])
            q = S.extent(E, e.value.a[0])
            ctx.ob(P in t, "R4", "%s validate points" % owner_fn(e), "the neighbor list's number of points is validated against %s" % show(e.value.a[1], 4), e.file, e.line)
            ctx.ob(C.same or P not in q, "R4", "%s validate query points" % owner_fn(e), "the neighbor list's number of query points is validated against %s" % show(e.value.a[0], 4), e.file, e.line)


def columns(ctx, L, S):
    """query_point_indices is column 0, point_indices column 1."""
    from .. import pyeval
    from ..link import PYOPAQUE
    n = 0
    for c in L.P.classes():
        for name, col in (("query_point_indices", 0), ("point_indices", 1)):
            mem = L.P.members(c).get(name)
            if not mem or mem[0] is not c:
                continue
            E = pyeval.Engine(L.P, opaque=PYOPAQUE, natclass=L.nat)
            r = E.run(c, name)
            vals = [v for v in walk(r[1] if isinstance(r, tuple) else r) if v.op in ("item", "sub", "getitem", "index")]
            cols = {x.a[0] for v in vals for x in walk(v) if islit(x) and x.a[0] in (0, 1) and not isinstance(x.a[0], bool)}
            n += 1
            ctx.ob(cols == {col}, "R5", "%s.%s" % (c.q, name), "%s selects column %s of the bond indices" % (name, sorted(cols)), "freud/%s.py" % c.mod.name.split(".")[-1], mem[1][0][1].lineno)
    ctx.need(n, 2, "Python accessors of the bond index columns")


def python(ctx, L):
    """Lengths and roles of the arrays given to native code, decided with the rules of P07 and P18."""
    from . import p07, p18
    sub = core.Ctx("P12")
    sub._cxx, sub._py = ctx._cxx, ctx._py
    S = spaces.Spaces(L)
    p07.calls(sub, L, S, p07.natives(sub, L, S))
    take(ctx, sub, lambda f: f.rule == "R2" and "is indexed by" in f.msg, "R6")
    sub = core.Ctx("P12")
    sub._cxx, sub._py = ctx._cxx, ctx._py
    p18.pycalls(sub, L)
    p18.wrappers(sub, L)
    p18.library(sub, L)
    take(ctx, sub, lambda f: f.rule == "R2" and (pointlike(f.construct) or " stores " in f.construct and "point" in f.construct), "R6")


def pointlike(s):
    """Does a finding exchange something belonging to points with something belonging to query points?"""
    import re
    m = re.search(r"passes (\S+) as (\S+)", s)
    if not m:
        return False
    a, b = m.group(1), m.group(2)
    return ("query" in a) != ("query" in b) or any(x in a + b for x in ("point", "orientation", "nlist", "values", "neighbor"))


def take(ctx, sub, sel, rule):
    fs = [f for f in sub.findings if sel(f)]
    n = sub.cov["obligations"]
    ctx.cov["obligations"] += n
    ctx.cov["discharged"] += n - len(fs)
    ctx.fnset |= sub.fnset
    for f in fs:
        f.rule = rule
        if f.key() not in {g.key() for g in ctx.findings}:
            ctx.findings.append(f)
