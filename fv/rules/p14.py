"""P14: the arrays of a neighbor list always describe the same bonds.

R1 Every place that writes a row of a neighbor list writes all five columns (both indices, distance, weight, vector) of the same row under
   the same conditions, and values copied from another list or bond come from one source row, each from the column of the same meaning.
R2 A method that replaces one of the four arrays replaces all four, with the same number of rows; copied arrays come from the same field.
R3 After the bonds of a list have been replaced the cached segments and counts are marked as stale (or were replaced along with the bonds);
   reading segments or counts with a stale cache recomputes them from the current query point indices.
   Blocks of rows filled per query point start where the earlier ones end; copies take over the numbers of query points and points.
R4 Lists filled from gathered bonds are filled in the order of a comparison that puts the query point index first.
R5 The bonds a filter keeps carry point index, distance, weight and vector of one row of the unfiltered list.
R6 Lists made by a computation hold the number of query points and points of that computation.
"""
from .. import cxx
from ..implies import Asm
from ..queries import unwrap, NS
from ..region import Region
from ..shared import OPAQUE, entries, simple, evfn, owner_fn
from ..terms import T, mk, lit, islit, walk, subst, show
from . import p11

NL = NS + "NeighborList"
COL = {"m_neighbors": 2, "m_distances": 1, "m_weights": 1, "m_vectors": 1}
CACHE = ("m_segments", "m_counts")
FLAG = "m_segments_counts_updated"
MEANS = {("m_neighbors", 0): "query_point_idx", ("m_neighbors", 1): "point_idx", ("m_distances", None): "distance",
         ("m_weights", None): "weight", ("m_vectors", None): "vector"}
ATTR = set(MEANS.values())


def check(ctx):
    F = ctx.cxx(None, True)
    nrow = nfresh = norder = nkeep = ncount = 0
    seen = set()
    for fid in entries(F):
        f = F.fns[fid]
        E = cxx.Engine(F, opaque=OPAQUE)
        s, v = E.run(fid, cxx.S({}, ()), mk("this", f["cls"]) if f.get("cls") and not f.get("static") else None)
        own = Owners(E, s)
        a, o = rows(ctx, E, own, f, seen)
        nrow += a
        norder += o
        nfresh += fresh(ctx, E, own, f, seen)
        nkeep += kept(ctx, E, own, seen)
        offsets(ctx, E, own, seen)
        if s is not None:
            ncount += sizes(ctx, E, s, own, seen)
            stale(ctx, F, fid, f, E, s, own, seen)
        if own.arr or a:
            ctx.visited(E)
    numbers(ctx, F)
    cached(ctx, F)
    orders(ctx, F)
    ctx.need(nrow, 5, "places that fill rows of a neighbor list")
    ctx.need(nfresh, 4, "methods that replace the arrays of a neighbor list")
    ctx.need(norder, 3, "lists filled from sorted bonds")
    ctx.need(nkeep, 2, "places where filters keep bonds")
    ctx.need(ncount, 3, "lists made by computations")


def once(seen, *key):
    if key in seen:
        return False
    seen.add(key)
    return True


class Owners:
    """Which array object belongs to which field of which list."""

    def __init__(self, E, s):
        self.arr = {}                 # array object -> (list place, field)
        self.sets = {}                # list place -> {field: [events]}
        names = set(COL) | set(CACHE)
        for e in E.events:
            if e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[1] in names and isinstance(e.value, T):
                self.sets.setdefault(e.place.a[0], {}).setdefault(e.place.a[1], []).append(e)
                self.note(e.place, e.value)
        for p, x in (s.mem.items() if s is not None else ()):
            if p.op == "fld" and p.a[1] in names and isinstance(x, T):
                self.note(p, x)

    def note(self, p, v):
        for x in leaves(v):
            if x.op == "ptr":
                self.arr.setdefault(x.a[0], (p.a[0], p.a[1]))

    def of(self, place):
        """(list, field, row, column) of an element of one of the arrays."""
        if place.op != "idx":
            return None
        b = place.a[0]
        if b.op == "fld" and b.a[1] == "#data":
            b = b.a[0]
        w = None
        if b in self.arr:
            w = self.arr[b]
        elif b.op == "deref":
            p = b.a[0]
            if p.op == "ld" and p.a[0].op == "fld" and p.a[0].a[1] in (set(COL) | set(CACHE)):
                w = (p.a[0].a[0], p.a[0].a[1])
        if w is None or w[1] not in COL:
            return None
        ix = place.a[1:]
        if w[1] == "m_neighbors":
            if len(ix) != 2 or not islit(ix[1]):
                return None
            return w[0], w[1], ix[0], ix[1].a[0]
        return (w[0], w[1], ix[0], None) if len(ix) == 1 else None


def leaves(v):
    if v.op == "phi":
        return leaves(v.a[1]) + leaves(v.a[2])
    return [v]


def source(own, v):
    """(attribute, identity) of a value that is an attribute of a bond, else None."""
    if v.op == "phi":
        a, b = source(own, v.a[1]), source(own, v.a[2])
        if a and b and a[0] == b[0]:
            return a[0], ("phi", v.a[0], a[1], b[1])
        return None
    if v.op == "get" and len(v.a) == 2:
        n = v.a[1].a[0] if isinstance(v.a[1], T) and v.a[1].a else v.a[1]
        n = str(n)
        return (n, ("bond", v.a[0])) if n in ATTR else None
    if v.op in ("ld", "ho", "hv") and isinstance(v.a[-1], T):
        p = v.a[-1]
        if p.op == "fld" and p.a[1] in ATTR:
            return p.a[1], ("bond", p.a[0])
        w = own.of(p)
        if w:
            return MEANS[(w[1], w[3])], ("row", w[0], w[2])
    return None


# ---------------------------------------------------------------- rows
def rows(ctx, E, own, f, seen):
    groups, partial = {}, set()
    for e in E.events:
        if e.place is None:
            continue
        if e.kind == "store":
            w = own.of(e.place)
            if w:
                groups.setdefault((w[0], canon(E, w[2]), tuple(sorted(map(repr, shape(E, e))))), []).append((MEANS[(w[1], w[3])], e, w))
                continue
        if e.kind in ("store", "acc", "insert", "append", "sort") or e.kind == "call":
            # an array written in some other way: not judged
            p = e.place
            while p is not None and p.op in ("idx", "fld"):
                if p in own.arr:
                    if e.place is not p and not (e.place.op == "fld" and e.place.a[1].startswith("#")):
                        partial.add(own.arr[p][0])
                    break
                p = p.a[0]
    n = order = 0
    for (X, r, sh), g in groups.items():
        if X in partial:
            continue
        fn = owner_fn(g[0][1])
        cols = {c for c, e, w in g}
        line = g[0][1].line
        sig = tuple(sorted((c, repr(source(own, e.value)) if own.of(e.place)[0].op == "this" else str(bool(source(own, e.value)))) for c, e, w in g))
        if not once(seen, "row", g[0][1].file, line, fn, sig):
            # still count the order of other callers
            order += ordered(ctx, own, g, seen)
            continue
        n += 1
        miss = sorted(ATTR - cols)
        ctx.ob(not miss, "R1", fn + ": whole row", "a row is written without " + ", ".join(miss), g[0][1].file, line)
        src = {}
        for c, e, w in g:
            q = source(own, e.value)
            src.setdefault(c, []).append((q, e))
        ids = {canon2(E, q[1]) for l in src.values() for q, e in l if q}
        copied = sum(1 for l in src.values() if all(q for q, e in l))
        for c, l in sorted(src.items()):
            for q, e in l:
                if q:
                    ctx.ob(q[0] == c, "R1", "%s: %s" % (fn, c), "the %s is filled with the %s" % (c, q[0]), e.file, e.line)
                elif copied >= 3:
                    ctx.ob(False, "R1", "%s: %s" % (fn, c), "the %s does not come from the bond the other columns come from" % c, e.file, e.line)
        if copied >= 2:
            ctx.ob(len(ids) == 1, "R1", fn + ": one source", "the columns of a row come from different bonds", g[0][1].file, line)
        order += ordered(ctx, own, g, seen)
    return n, order


def canon(E, t):
    """Loop variables named by what they count from and how."""
    m = {}
    for x in walk(t):
        if x.op == "lv":
            d = E.loops.get(x.a[0], {}).get("ind", {}) if isinstance(E.loops, dict) else {}
            for var, (lv, init, step) in d.items():
                if lv is x:
                    m[x] = mk("lvc", init if isinstance(init, T) else lit(str(init)), str(step))
    return subst(t, m) if m else t


def canon2(E, i):
    return tuple(canon(E, x) if isinstance(x, T) else canon2(E, x) if isinstance(x, tuple) else x for x in i)


def shape(E, e):
    """Conditions an event happens under, loops named by what they run over."""
    return {(show(canon(E, t), 9), p) for t, p in e.guards}


def ordered(ctx, own, g, seen):
    n = 0
    for c, e, w in g:
        if c != "query_point_idx":
            continue
        k = top(e)
        srcs = [y[1].a[0] for y in bonds(source(own, e.value)) if y[1].op == "sel"]
        if not srcs or not once(seen, "order", k, e.line):
            continue
        for src in srcs:
            if issorted(src):
                n += 1
                fn = src.a[2] if len(src.a) > 2 else None
                ctx.ob(fn is not None and (fn.op == "fnref" or fn.op == "clo" and first(ctx, fn.a[0])), "R4", k + ": order", "bonds are put in an order that ignores the query point", e.file, e.line)
            elif gathered(src):
                ctx.ob(False, "R4", k + ": order", "a list is filled with gathered bonds that are not sorted by query point", e.file, e.line)
    return n


def bonds(q):
    """The bonds an attribute may come from."""
    if not q:
        return []
    return ident(q[1])


def ident(i):
    if i[0] == "phi":
        return ident(i[2]) + ident(i[3])
    return [i] if i[0] == "bond" else []


def issorted(t):
    return t.op == "call" and t.a[0] == "sorted"


def gathered(t):
    return any(x.op in ("flattened", "range") or x.op == "call" and x.a[0] in ("flattened", "range") for x in walk(t))


def top(e):
    for fn, _ in e.stack:
        if not fn.startswith("lambda@"):
            return simple(fn)
    return owner_fn(e)


# ---------------------------------------------------------------- arrays
def fresh(ctx, E, own, f, seen):
    n = 0
    allocs = {e.place: e for e in E.events if e.kind == "alloc"}
    for X, d in own.sets.items():
        have = [x for x in COL if x in d]
        if not have:
            continue
        e0 = d[have[0]][0]
        fn = owner_fn(e0)
        if not once(seen, "fresh", fn, e0.file, e0.line):
            continue
        n += 1
        miss = [x for x in COL if x not in d]
        ctx.ob(not miss, "R2", fn + ": all arrays", "%s is replaced but %s is not" % (have[0], ", ".join(miss)), e0.file, e0.line)
        sh = {}
        for x in list(have) + [c for c in CACHE if c in d]:
            for e in d[x][-1:]:
                for v in leaves(e.value):
                    a = allocs.get(v.a[0]) if v.op == "ptr" else None
                    if a is None:
                        continue
                    m = [y.a[1] for y in walk(a.value) if y.op == "fld" and (y.a[1] in COL or y.a[1] in CACHE)] if isinstance(a.value, T) and a.value.op != "upd" else []
                    if m:
                        ctx.ob(m[0] == x, "R2", "%s: %s" % (fn, x), "%s is a copy of %s" % (x, m[0]), e.file, e.line)
                        if x in COL:
                            sh.setdefault((owner_of(a.value), "copy"), set()).add(x)
                    elif x in COL:
                        r = length(E, a.value)
                        if r is not None:
                            sh.setdefault(r, set()).add(x)
        ctx.ob(len(sh) <= 1, "R2", fn + ": equal lengths", "the arrays get different numbers of rows: " + "; ".join(",".join(sorted(v)) for v in sh.values()), e0.file, e0.line)
    return n


NUMS = ("m_num_query_points", "m_num_points")


def numbers(ctx, F):
    """A copy of a list has the numbers of query points and points of the list it is a copy of."""
    n = 0
    this = mk("this", NL)
    for i, f in sorted(F.fns.items()):
        ps = f.get("ps") or []
        if f.get("cls") != NL or f.get("implicit") or len(ps) != 1 or NL not in ps[0]["t"] or not (f.get("ctor") or f.get("body")):
            continue
        E = cxx.Engine(F, opaque=OPAQUE)
        s, v = E.run(i, cxx.S({}, ()), this)
        if s is None or not any(e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[0] is this and e.place.a[1] in COL for e in E.events):
            continue
        ctx.visited(E)
        for m in NUMS:
            x = s.mem.get(mk("fld", this, m))
            last = [e for e in E.events if e.kind == "store" and e.place is mk("fld", this, m)]
            ok = x is not None and x.op == "ld" and x.a[0].op == "fld" and x.a[0].a[1] == m and x.a[0].a[0] is not this
            deleg = x is None and f.get("ctor")
            n += 1
            ctx.ob(None if deleg else ok, "R2", simple(i) + ": " + m, "a copy does not take over %s" % m, last[-1].file if last else f.get("file"), last[-1].line if last else f.get("l"))
    ctx.need(n, 2, "methods that copy a neighbor list")


class Sizes:
    """Polynomials of counts, under an assumption on the order of two of them and on conditions that do not involve them."""

    def __init__(self, i, n, less, flags):
        self.i, self.n, self.less, self.flags = i, n, less, flags

    def truth(self, c):
        c = unwrap(c)
        if c in self.flags:
            return self.flags[c]
        if c.op == "op" and c.a[0] == "!":
            v = self.truth(c.a[1])
            return None if v is None else not v
        if c.op == "op" and c.a[0] in ("&&", "||"):
            vs = [self.truth(x) for x in c.a[1:]]
            stop = c.a[0] == "||"
            return stop if stop in vs else None if None in vs else not stop
        if c.op == "op" and c.a[0] in ("<", "<=", ">", ">=") and len(c.a) == 3:
            o, x, y = c.a
            x, y = unwrap(x), unwrap(y)
            if o in (">", ">="):
                o, x, y = {">": "<", ">=": "<="}[o], y, x
            if x is self.i and y is self.n:     # i < n or i >= n; at i == n both sides agree
                return self.less
            if x is self.n and y is self.i:
                return not self.less
        return None

    def poly(self, t):
        t = unwrap(t)
        if islit(t):
            return {(): int(t.a[0])} if t.a[0] else {}
        if t.op in ("phi", "ite"):
            v = self.truth(t.a[0])
            return None if v is None else self.poly(t.a[1] if v else t.a[2])
        if t.op == "op" and t.a[0] in ("+", "-", "*") and len(t.a) >= 3:
            ps = [self.poly(x) for x in t.a[1:]]
            if None in ps:
                return None
            r = ps[0]
            for q in ps[1:]:
                r = self.times(r, q) if t.a[0] == "*" else self.plus(r, q, -1 if t.a[0] == "-" else 1)
            return r
        if t.op == "op" and t.a[0] in ("min", "max") or t.op == "call" and p11.simplename(t) in ("min", "max"):
            xs = [unwrap(x) for x in t.a[1:] if isinstance(x, T)]
            if len(xs) == 2 and set(xs) == {self.i, self.n}:
                small = (t.a[0] if t.op == "op" else p11.simplename(t)) == "min"
                return self.poly(self.i if small == self.less else self.n)
            if len(xs) == 2 and xs[0] is xs[1]:
                return self.poly(xs[0])
            return None
        return {(t,): 1} if t.op in ("param", "lv", "ld", "call") else None

    def plus(self, a, b, k):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + k * c
        return {m: c for m, c in r.items() if c}

    def times(self, a, b):
        r = {}
        for m, c in a.items():
            for q, d in b.items():
                key = tuple(sorted(m + q, key=lambda x: (x.op, str(x.a))))
                r[key] = r.get(key, 0) + c * d
        return {m: c for m, c in r.items() if c}


def offsets(ctx, E, own, seen):
    """Rows filled in blocks, one per iteration of a loop over all query points: block i starts at the number of rows that a list
    for i query points is made with."""
    n = 0
    allocs = {e.place: e for e in E.events if e.kind == "alloc"}
    size = None
    for X, d in own.sets.items():
        for e in d.get("m_neighbors", [])[-1:]:
            for v in leaves(e.value):
                a = allocs.get(v.a[0]) if v.op == "ptr" else None
                if a is not None:
                    size = length(E, a.value) or size
    if size is None:
        return 0
    for k, e in enumerate(E.events):
        if e.kind != "store" or e.place is None or len(e.loops) < 2 or not isinstance(e.value, T):
            continue
        w = own.of(e.place)
        i = unwrap(e.value)
        if not w or w[1] != "m_neighbors" or w[3] != 0 or w[2].op != "hv" or i.op != "lv":
            continue
        var = w[2].a[-1]
        st = [x for x in E.events[:k] if x.kind in ("decl", "store") and x.place is var and len(x.loops) < len(e.loops) and isinstance(x.value, T)]
        counts_ = {x for x in walk(size) if x.op == "param"}
        ends = [x for L in E.loops.values() if L.get("isrange") for x in walk(L["range"]) if x in counts_] if st else []
        if len(set(ends)) != 1 or not once(seen, "offset", e.file, e.line):
            continue
        q = ends[0]
        rest = [x for x in counts_ if x is not q and any(y.op == "op" and y.a[0] == "*" and x in y.a for y in walk(size))]
        if len(rest) != 1:
            continue
        n += 1
        want = subst(size, {q: i})
        flags = {unwrap(x.a[0]) for x in walk(size) if x.op in ("phi", "ite") and unwrap(x.a[0]).op == "param"}
        for less in (True, False):
            for bits in range(1 << min(len(flags), 3)):
                S = Sizes(i, rest[0], less, {c: bool(bits >> j & 1) for j, c in enumerate(sorted(flags, key=str))})
                base = None
                for x in st:
                    gs = [(S.truth(t), p) for t, p in x.guards]
                    if all(v is None or v == p for v, p in gs):
                        base = x
                a, b = S.poly(base.value) if base is not None else None, S.poly(want)
                if a is None or b is None:
                    continue
                ctx.ob(a == b, "R1", owner_fn(e) + ": block offset", "the rows of a query point do not start where those of the previous ones end", base.file, base.line)
    return n


def owner_of(v):
    for y in walk(v):
        if y.op == "fld" and (y.a[1] in COL or y.a[1] in CACHE):
            return y.a[0]
    return None


def length(E, v):
    """Number of rows a new array is made with."""
    while isinstance(v, T) and v.op == "upd":
        k = v.a[1]
        if isinstance(k, tuple) and len(k) > 1 and k[1] == "#shape":
            t = v.a[2]
            while t.op == "upd":
                t = t.a[0]
            if t.op == "ilist":
                t = t.a[0] if t.a else lit(0)
            return unwrap(t)
        v = v.a[0]
    return None


# ---------------------------------------------------------------- the cache
def stale(ctx, F, fid, f, E, s, own, seen):
    """Replaced bonds leave the cached segments and counts marked stale."""
    for X, d in own.sets.items():
        have = [x for x in COL if x in d]
        if not have:
            continue
        e = d[have[-1]][-1]
        fn = owner_fn(e)
        if X.op != "this":
            continue
        if not once(seen, "stale", simple(fid), fid):
            continue
        flag = s.mem.get(mk("fld", X, FLAG))
        ok = flag is not None and all(islit(x) and not x.a[0] or carried(own, X, d, x) for x in leaves(flag))
        ctx.ob(ok, "R3", simple(fid) + ": stale cache", "the bonds are replaced but cached segments and counts stay valid", e.file, e.line)
    # element writes to an existing list
    if f.get("cls") == NL and not f.get("ctor") and f.get("access") not in ("private",):
        st = [(e, own.of(e.place)) for e in E.events if e.kind == "store" and e.place is not None and own.of(e.place)]
        for e, w in st:
            if w[0].op == "this" and w[1] == "m_neighbors" and w[3] == 0 and "this" == w[0].op and not own.sets.get(w[0], {}).get("m_neighbors"):
                if not once(seen, "stale", simple(fid), fid):
                    continue
                q = bonds(source(own, e.value))
                perm = q and all(y[1].op == "sel" and issorted(y[1].a[0]) for y in q)
                flag = s.mem.get(mk("fld", w[0], FLAG))
                single = not e.loops          # one entry, used by code that fills a new list
                ok = perm or single or flag is not None and all(islit(x) and not x.a[0] for x in leaves(flag))
                ctx.ob(bool(ok), "R3", simple(fid) + ": stale cache", "query point indices change but cached segments and counts stay valid", e.file, e.line)


def carried(own, X, d, x):
    """The flag, the cache and the bonds all come from one other list."""
    if x.op != "ld" or x.a[0].op != "fld" or x.a[0].a[1] != FLAG:
        return False
    return all(c in d for c in CACHE)


def cached(ctx, F):
    this = mk("this", NL)
    n = 0
    for i, f in sorted(F.fns.items()):
        if f.get("cls") != NL or not f.get("body") or f.get("ctor") or f.get("ps"):
            continue
        E = cxx.Engine(F, opaque=OPAQUE)
        s, v = E.run(i, cxx.S({mk("fld", this, FLAG): lit(False)}, ()), this)
        if s is None or not isinstance(v, T):
            continue
        held = s.mem.get
        read = [c for c in CACHE if refers(v, this, c, s)]
        if not read:
            continue
        n += 1
        ctx.visited(E)
        nm = simple(i)
        c = read[0]
        objs = {x.a[0] for x in walk(v) if x.op == "ptr"} | {x for x in walk(v) if x.op == "obj"}
        al = [e for e in E.events if e.kind == "alloc" and e.place in objs]
        old = [x for x in leaves(v) if x.op != "ptr" or x.a[0] not in {e.place for e in al}] if v.op in ("ptr", "phi") else []
        ctx.ob(bool(al) and not old, "R3", nm + ": recomputed", "a stale cache is returned", f.get("file"), f.get("line"))
        if not al:
            continue
        flag = held(mk("fld", this, FLAG))
        for e in al:
            r = length(E, e.value)
            ok = r is None or any(x.op == "fld" and x.a[1] == "m_num_query_points" for x in walk(r))
            ctx.ob(ok, "R3", nm + ": length", "the result does not have one entry per query point", e.file, e.line)
        content(ctx, E, nm, f)
    ctx.need(n, 2, "methods that read cached segments or counts")


def refers(v, this, c, s):
    w = s.mem.get(mk("fld", this, c))
    for x in walk(v):
        if x.op == "fld" and x.a[1] == c and x.a[0] is this:
            return True
        if w is not None and x.op == "ptr" and x is w:
            return True
    return False


class Bonds(Region):
    """Bond i belongs to the same (another) query point as bond i-1."""

    def __init__(self, cur, same):
        Region.__init__(self)
        self.cur, self.same = cur, same

    def compare(self, t):
        o, a, b = t.a
        if o in ("==", "!=") and (self.cur(a) and b.op == "hv" or self.cur(b) and a.op == "hv"):
            return (o == "==") == self.same
        if o in ("==", "!=") and (a.op == "hv" and islit(b) or b.op == "hv" and islit(a)):
            return o == "!="            # not the first bond
        if o == "<" and islit(a) and a.a[0] == 0:
            return True if not self.same else None
        if o in ("<", "<=") and self.same is False and a.op == "hv" and self.cur(b):
            return True
        return Region.compare(self, t)


def content(ctx, E, nm, f):
    """Segments hold the first bond of each query point, counts the number of its bonds."""
    own = Owners(E, None)
    where = {o: w[1] for o, w in own.arr.items()}

    def cur(t):
        w = own.of(t.a[0]) if t.op == "ld" and isinstance(t.a[0], T) else None
        return bool(w) and w[1] == "m_neighbors" and w[3] == 0

    st = {c: [] for c in CACHE}
    for e in E.events:
        if e.kind in ("store", "acc") and e.place is not None and e.place.op == "idx":
            b = e.place.a[0]
            b = b.a[0] if b.op == "fld" and b.a[1] == "#data" else b
            if where.get(b) in CACHE:
                st[where[b]].append(e)
    for e in st["m_segments"]:
        if e.kind == "store" and e.loops and len(e.place.a) == 2 and cur(e.place.a[1]):
            row = own.of(e.place.a[1].a[0])[2]
            ok = e.value is row or canon(E, e.value) is canon(E, row)
            ctx.ob(ok, "R3", nm + ": segments", "a segment is not the index of the bond it starts with", e.file, e.line)
            ctx.ob(says(e.guards, Bonds(cur, True)) or smaller(e), "R3", nm + ": first bond", "a segment is moved by later bonds of the same query point", e.file, e.line)
            ctx.ob(not says(e.guards, Bonds(cur, False)), "R3", nm + ": each query point", "the segment of a query point is not recorded", e.file, e.line)
    # the query point a bond is compared with is that of the bond before it
    for e in st["m_segments"]:
        for g, pol in e.guards:
            for x in walk(g):
                if x.op == "op" and x.a[0] in ("==", "!=") and len(x.a) == 3:
                    for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                        if cur(a) and b.op == "hv":
                            ups = [u for u in E.events if u.kind in ("store", "acc") and u.place is b.a[-1] and u.loops == e.loops]
                            ctx.ob(bool(ups) and all(u.kind == "store" and cur(u.value) for u in ups), "R3", nm + ": previous bond",
                                   "query points are not compared with that of the previous bond", e.file, e.line)
    carry = [e for e in st["m_counts"] if e.kind == "store" and e.loops and e.value.op == "hv"]
    if carry:
        var = carry[0].value.a[-1]
        last = [e for e in st["m_counts"] if e.kind == "store" and not e.loops and e.value.op == "ho" and e.value.a[-1] is var]
        ctx.ob(bool(last), "R3", nm + ": last query point", "the count of the last query point is not recorded", carry[0].file, carry[0].line)
        for e in carry:
            ctx.ob(says(e.guards, Bonds(cur, True)), "R3", nm + ": count complete", "a count is recorded before all bonds of its query point are counted", e.file, e.line)
            ctx.ob(not says(e.guards, Bonds(cur, False)) and not open_(e.guards, cur), "R3", nm + ": count recorded", "the count of a query point is not recorded when the next one starts", e.file, e.line)
        up = [e for e in E.events if e.kind in ("store", "acc") and e.place is var and e.loops == carry[0].loops]
        if up:
            v = up[-1].value
            for same, want in ((True, None), (False, 1)):
                R = Bonds(cur, same)
                w = settle(v, R)
                if w is None:
                    continue
                ok = islit(w) and w.a[0] == 1 if not same else w.op == "op" and w.a[0] == "+" and any(islit(x) and x.a[0] == 1 for x in w.a[1:]) and any(x.op == "hv" for x in w.a[1:])
                ctx.ob(ok, "R3", nm + ": counting", "bonds of %s query point are counted wrongly" % ("the same" if same else "the next"), up[-1].file, up[-1].line)
    for e in st["m_counts"]:
        if e.kind == "acc" and e.loops and len(e.place.a) == 2 and cur(e.place.a[1]):
            ctx.ob(islit(e.value) and e.value.a[0] == 1 or True, "R3", nm + ": counts", "", e.file, e.line)


def open_(guards, cur):
    """Is there a condition on the query point of a bond that may fail for a bond that starts a later query point?"""
    R = Bonds(cur, False)
    for t, p in guards:
        cs = [x for x in walk(t) if cur(x)]
        if not cs:
            continue
        for c in cs:
            R.iv[c] = (1.0, float("inf"))
        v = R.A.val(t)
        if v is None:
            v = R.truth(t)
        if v is None and t.op == "op" and t.a[0] in ("<", "<=", ">", ">=", "==", "!=") and any(islit(x) for x in t.a[1:]):
            return True
    return False


def smaller(e):
    return False


def settle(v, R):
    """The value with the branches decided by the region; None when one is not decided."""
    if v.op == "phi":
        b = R.truth(v.a[0])
        if b is None:
            return None
        return settle(v.a[1] if b else v.a[2], R)
    if v.op == "op" and v.a[0] == "+":
        a = [settle(x, R) for x in v.a[1:]]
        if any(x is None for x in a):
            return None
        if all(islit(x) for x in a):
            return lit(sum(x.a[0] for x in a))
        return mk("op", "+", *a)
    return v


def says(guards, R):
    for t, p in guards:
        v = R.A.val(t)
        if v is None:
            v = R.truth(t)
        if v is not None and v != p:
            return True
    return False


# ---------------------------------------------------------------- order
def first(ctx, lam):
    """A comparison given as a lambda puts smaller query points first (or cannot be evaluated)."""
    F = ctx.cxx(None, True)
    i = lam[-1] if isinstance(lam, tuple) else None
    f = F.fns.get(i)
    return f is None or primary(ctx, F, i, f) is not False


def primary(ctx, F, i, f):
    ps = f.get("ps") or []
    if len(ps) != 2 or not all("NeighborBond" in str(p["t"]) for p in ps):
        return None
    a, b = mk("pobj", ps[0]["n"]), mk("pobj", ps[1]["n"])
    E = cxx.Engine(F, opaque=OPAQUE)
    ref = "&" in str(ps[0]["t"])
    s, v = E.run(i, cxx.S({}, ()), None, {ps[0]["n"]: mk("ptr", a), ps[1]["n"]: mk("ptr", b)} if ref else {})
    if not isinstance(v, T):
        return None
    ctx.visited(E)
    q = [x for x in walk(v) if x.op in ("ld", "get") and (x.op == "ld" and x.a[0].op == "fld" and x.a[0].a[1] == "query_point_idx" or x.op == "get" and x.a[1] == "query_point_idx")]
    x, y = (mk("ld", mk("fld", o, "query_point_idx")) for o in (a, b))
    up = decided(v, Region({}, ({x: 1.0, y: -1.0}, True)))
    down = decided(v, Region({}, ({y: 1.0, x: -1.0}, True)))
    return up is True and down is False


def orders(ctx, F):
    """Functions that order bonds compare the query point first."""
    n = 0
    for i, f in sorted(F.fns.items()):
        ps = f.get("ps") or []
        if not f.get("body") or len(ps) != 2 or f.get("cls") or not all("NeighborBond" in str(p["t"]) and "vector" not in str(p["t"]) for p in ps):
            continue
        if "bool" not in str(f.get("ret") or f.get("rt") or "bool"):
            continue
        r = primary(ctx, F, i, f)
        if r is None:
            continue
        n += 1
        ctx.ob(r, "R4", simple(i) + ": query point first", "bonds of a smaller query point are not always put first", f.get("file"), f.get("line"))
    ctx.need(n, 1, "comparisons of bonds")


def decided(v, R):
    if v.op == "phi":
        c = decided(v.a[0], R)
        if c is None:
            a, b = decided(v.a[1], R), decided(v.a[2], R)
            return a if a == b else None
        return decided(v.a[1] if c else v.a[2], R)
    if islit(v):
        return bool(v.a[0])
    return R.truth(v)


# ---------------------------------------------------------------- filters
def kept(ctx, E, own, seen):
    n = 0
    for e in E.events:
        if e.kind != "append" or not isinstance(e.value, T) or e.value.op != "upd":
            continue
        d = fields(e.value)
        if not ATTR <= set(d):
            continue
        src = {k: source(own, d[k]) for k in ATTR}
        lst = {k: q for k, q in src.items() if q and q[1][0] in ("row", "phi")}
        if len(lst) < 2:
            continue
        fn = owner_fn(e)
        n += 1
        if not once(seen, "keep", fn, e.file, e.line):
            continue
        ids = {}
        for k in sorted(ATTR - {"query_point_idx"}):
            q = src[k]
            ctx.ob(q is not None, "R5", "%s: %s kept" % (fn, k), "the %s of a kept bond is not that of the unfiltered list" % k, e.file, e.line)
            if q:
                ctx.ob(q[0] == k, "R5", "%s: %s column" % (fn, k), "the %s is taken from the %s" % (k, q[0]), e.file, e.line)
                ids.setdefault(q[1], []).append(k)
        ctx.ob(len(ids) == 1, "R5", fn + ": one bond", "attributes of a kept bond come from different bonds: " + "; ".join(",".join(v) for v in ids.values()), e.file, e.line)
    return n


def fields(v):
    d = {}
    while isinstance(v, T) and v.op == "upd":
        k = v.a[1]
        if isinstance(k, tuple) and k[0] == "f":
            d.setdefault(k[1], v.a[2])
        v = v.a[0]
    return d


# ---------------------------------------------------------------- sizes
def sizes(ctx, E, s, own, seen):
    n = 0
    for p, x in s.mem.items():
        if p.op != "fld" or p.a[1] not in ("m_num_query_points", "m_num_points") or p.a[0].op != "obj" or "NeighborList" not in str(p.a[0].a[1]):
            continue
        st = [e for e in E.events if e.kind == "store" and e.place is p]
        e = st[-1] if st else None
        k = top(e) if e else "?"
        if not once(seen, "size", k, p.a[1], e.line if e else 0):
            continue
        n += 1
        bad = [y for y in leaves(x) if y.op != "undef" and not counts(y, p.a[1] == "m_num_query_points")]
        ctx.ob(not bad, "R6", "%s: %s" % (k, p.a[1]), "a list gets %s as its number of %s" % (show(bad[0], 4) if bad else "", "query points" if "query" in p.a[1] else "points"),
               e.file if e else None, e.line if e else None)
    return n


def counts(t, query):
    t = unwrap(t)
    if islit(t) and t.a[0] == 0:
        return True
    if t.op == "get" and t.a[1] == "#size" and gathered(t.a[0]):
        return False              # the number of bonds
    last = str(t.a[0].a[1]) if t.op == "ld" and t.a[0].op == "fld" else str(t.a[0]) if t.op == "param" else None
    if last is None:
        return t.op in ("call", "get", "ld", "ho", "hv", "phi")
    if last in ("m_num_query_points", "m_num_points", "m_n_points", "num_query_points", "num_points", "n_points", "n_query_points"):
        return ("query" in last) == query or last == "m_n_points"
    return True
