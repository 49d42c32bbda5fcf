"""Bond records: distance, vector and indices written together must belong together.

A bond record is a group of values written to one NeighborBond object or to one row of the columns of one NeighborList.
Every function of freud::locality is evaluated abstractly and every record it writes is checked:
 - copied records take every field from the same-named field of one and the same source record;
 - made records have distance = sqrt(dot(v, v)) of their own vector, and a vector that is, as a linear form over
   positions, +points[point index] - query_points[query point index], wrapped by a box or shifted by image vectors;
 - image vectors are lattice vectors, one each, times the loop counters; ghosts carry the index of their particle;
 - the radius of an image-based nearest search never exceeds half the box without the duplicate-image filter."""
from .. import cxx
from ..terms import T, mk, lit, islit, walk, root, show
from ..facts import strip_targs
from ..shared import OPAQUE, owner_fn
from ..queries import Queries, unwrap, NS
from ..implies import Asm, contradicts, cases

FIELDS = {"query_point_idx": "Q", "point_idx": "P", "distance": "D", "vector": "V", "weight": "W"}
COLS = {"m_distances": "D", "m_vectors": "V", "m_weights": "W", "m_neighbors": "N"}
NAME = {"Q": "query point index", "P": "point index", "D": "distance", "V": "vector", "W": "weight"}
GEOMETRY_ELSEWHERE = ("locality/Voronoi.cc",)      # vectors come from the tessellation library's face geometry


def check(ctx):
    ctx.rule("R1: copied bond records take each field from the same field of one source record")
    ctx.rule("R2: a made bond's distance is the length of its own vector")
    ctx.rule("R3: a made bond's vector is points[point index] - query_points[query point index], wrapped or image-shifted")
    ctx.rule("R4: image vectors and ghost displacements are integer combinations of the box's lattice vectors")
    ctx.rule("R5: a search that can see several images of a point keeps only the nearest of them")
    F = ctx.cxx(None, True)
    Q = Queries(ctx, F)
    made = copied = 0
    seen = set()
    for fid, f in sorted(F.fns.items()):
        if not relevant(f, fid):
            continue
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(fid, cxx.S({}, ()), mk("this", f.get("cls") or ""))
        ctx.visited(E)
        for key, g in groups(E).items():
            k = record(ctx, E, fid, key, g, seen)
            made += k == 1
            copied += k == 2
        ghosts(ctx, E, seen)
        lattice(ctx, E, seen)
        querysingle(ctx, E, seen)
    ctx.need(made, 6, "made bond records")
    ctx.need(copied, 6, "copied bond records")
    ctx.need(len([x for x in seen if x[0] == "lattice"]), 2, "image vector computations")
    ctx.need(len([x for x in seen if x[0] == "ghost"]), 2, "stored particle positions")
    n = 0
    for cls, _ in Q.engines:
        n += images(ctx, Q, cls)
    ctx.need(n, 1, "image-based nearest searches")


def relevant(f, fid):
    if not f.get("body") or fid.startswith("lambda@") or "/export-" in f.get("file", "") or not f.get("file", "").startswith("locality/"):
        return False
    return True


def groups(E):
    """Rows of bond records written: {(container, row): {role: event}}"""
    member = members(E)
    out = {}
    for e in E.events:
        if e.kind != "store" or e.place is None or not isinstance(e.value, T):
            continue
        p = e.place
        if p.op == "fld" and p.a[1] in FIELDS and e.op == "init":
            out.setdefault((p.a[0], None), {}).setdefault(FIELDS[p.a[1]], e)
        elif p.op == "idx":
            c = column(p.a[0], member)
            if c is None:
                continue
            own, col = c
            k = COLS[col]
            row = p.a[1:]
            if k == "N":
                k = {0: "Q", 1: "P"}.get(row[-1].a[0] if islit(row[-1]) else None)
                row = row[:-1]
            if k:
                out.setdefault((own, row), {}).setdefault(k, e)
    for g in out.values():
        g["member"] = member
    return out


def members(E):
    """Array objects that are, or become, the columns of a list."""
    m = {}
    for e in E.events:
        if e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[1] in COLS and isinstance(e.value, T):
            for x in walk(e.value):
                if x.op == "obj":
                    m.setdefault(x, (e.place.a[0], e.place.a[1]))
                    break
    return m


def column(x, member):
    for _ in range(8):
        if x in member:
            return member[x]
        if x.op == "fld" and x.a[1] in COLS:
            return (x.a[0], x.a[1])
        if x.op in ("fld", "deref", "ld", "ptr", "sel", "get"):
            x = x.a[0]
        else:
            return None
    return None


STAR = mk("lit", "*")


def skeleton(v, member, depth=0):
    """(v with the names of record fields struck out, the fields read on the way to the value)"""
    roles = set()
    memo = {}

    def go(x, top):
        if not isinstance(x, T):
            return tuple(go(y, False) for y in x) if isinstance(x, tuple) else x
        k = (x, top)
        if k in memo:
            return memo[k]
        memo[k] = r = go2(x, top)
        return r

    def go2(x, top):
        x = unwrap(x)
        if x.op == "idx":
            c = column(x.a[0], member)
            if c:
                r = COLS[c[1]]
                row = x.a[1:]
                if r == "N":
                    r = {0: "Q", 1: "P"}.get(row[-1].a[0] if islit(row[-1]) else None, "N")
                    row = row[:-1]
                if top:
                    roles.add(r)
                return mk("rec", go(c[0], False), tuple(go(y, False) for y in row))
        if x.op in ("fld", "get") and isinstance(x.a[1], str) and x.a[1] in FIELDS:
            if top:
                roles.add(FIELDS[x.a[1]])
            return mk("rec", go(x.a[0], False))
        if x.op == "obj" and x in member:
            return mk("col", go(member[x][0], False))
        if x.op in ("phi",):
            return mk("phi", go(x.a[0], False), go(x.a[1], top), go(x.a[2], top))
        if x.op in ("ld",):
            return go(x.a[0], top)
        if x.op in ("hv", "ho"):
            return mk(x.op, x.a[0], go(x.a[-1], top))
        return mk(x.op, *[go(y, False) for y in x.a])

    return go(v, True), roles


def normsq(t):
    """v when t is dot(v, v) or the sum of squares of the components of v."""
    t = unwrap(t)
    if t.op == "call" and simplename(t) == "dot" and len(t.a) == 3 and t.a[1] is t.a[2]:
        return t.a[1]
    if t.op == "dot" and t.a[0] is t.a[1]:
        return t.a[0]
    parts = terms_of(t)
    vs = set()
    comps = []
    for p in parts:
        if p.op == "op" and p.a[0] == "*" and len(p.a) == 3 and p.a[1] is p.a[2] and p.a[1].op in ("fld", "get"):
            vs.add(p.a[1].a[0])
            comps.append(p.a[1].a[1])
        else:
            return None
    return vs.pop() if len(vs) == 1 and sorted(comps) == ["x", "y", "z"] else None


def terms_of(t):
    t = unwrap(t)
    if t.op == "op" and t.a[0] == "+" and len(t.a) == 3:
        return terms_of(t.a[1]) + terms_of(t.a[2])
    return [t]


def simplename(t):
    return str(t.a[0]).split("(")[0].split("::")[-1]


def length_of(d):
    """v when d is sqrt(dot(v, v))"""
    d = unwrap(d)
    if d.op == "call" and simplename(d).rstrip("f") == "sqrt" and len(d.a) == 2:
        return normsq(d.a[1])
    if d.op in ("sqrt",):
        return normsq(d.a[0])
    return None


def undefined(v, d=0):
    """Unknown values outside of indices."""
    if v.op == "undef" or d > 40:
        return True
    return any(undefined(x, d + 1) for x in (v.a[:1] if v.op in ("idx", "sel") else v.a) if isinstance(x, T))


def record(ctx, E, fid, key, g, seen):
    member = g["member"]
    roles = {r: e for r, e in g.items() if r != "member"}
    if not {"D", "V"} <= set(roles) or not ({"P"} <= set(roles)):
        return 0
    if any(undefined(e.value) for e in roles.values()):
        return 0
    e = roles["V"]
    fk = ("rec", owner_fn(e), e.file, e.line, tuple(sorted((r, show(x.value, 6)) for r, x in roles.items())))
    if fk in seen:
        return 0
    seen.add(fk)
    if all(constant(x.value) for x in roles.values()):
        return 0                      # default-constructed or zeroed records
    vals = {r: unwrap(x.value) for r, x in roles.items()}
    sk = {r: skeleton(v, member) for r, v in vals.items()}
    if bare(vals["D"]):
        return 0                      # the record's own constructor; its callers are analysed
    site = "%s: bond record at %s" % (owner_fn(e), e.place is not None and placeshort(key))
    where = callsite(e)
    src = {r for r in vals if sk[r][1]}
    for r in sorted(src):
        ctx.ob(sk[r][1] == {r}, "R1", site, "its %s is filled from a %s" % (NAME[r], " / ".join(sorted(NAME.get(x, "neighbor column") for x in sk[r][1] - {r}) or [NAME[r]])), *where)
    copied = "V" in src
    if copied:
        base = sk["V"][0]
        for r in sorted(src - {"V"}):
            if r == "Q" and "Q" not in src:
                continue
            ctx.ob(sk[r][0] is base or sk[r][0] == base, "R1", site, "its %s and its vector come from different source records" % NAME[r], *where)
    # distance
    d = vals["D"]
    lv = length_of(d)
    if lv is not None:
        ctx.ob(same(lv, vals["V"]), "R2", site, "its distance is the length of another vector", *where)
    elif "D" in src:
        if not copied:
            ctx.ob("P" in src and sk["P"][0] == sk["D"][0], "R2", site, "its distance is taken from a record that does not belong to the point its vector leads to", *where)
    elif paramof(d) is not None and paramof(vals["V"]) is not None:
        ctx.ob(rowof(d) == rowof(vals["V"]), "R2", site, "its distance and vector come from different rows", *where)
    else:
        ctx.ob(False, "R2", site, "its distance is not the length of its vector", *where)
    if copied:
        return 2
    if bare(vals["V"]):
        return 1
    if e.file in GEOMETRY_ELSEWHERE or any(f.split(":")[0] in GEOMETRY_ELSEWHERE for f in [where[0]]):
        return 1
    for w in variants(vals):
        geometry(ctx, w, site, where, any(x.a[0] == "query_points" for r in w.values() for x in walk(r) if x.op in ("param", "pobj")))
    return 1


def bare(v):
    while v.op in ("ld", "ilist"):
        v = v.a[0]
    return v.op in ("param", "pobj")


def placeshort(key):
    own, row = key
    return "a NeighborBond" if row is None else "a NeighborList row"


def callsite(e):
    """The record's place in the code: the innermost caller outside NeighborBond.h."""
    if not e.file.endswith("NeighborBond.h"):
        return e.file, e.line
    for s in reversed(e.stack or ()):
        t = s if isinstance(s, str) else str(s)
        m = t.rsplit("@", 1)[-1]
        if ":" in m and "NeighborBond.h" not in m:
            p = m.split(":")
            if p[1].isdigit():
                return p[0], int(p[1])
    return e.file, e.line


def constant(v):
    v = unwrap(v)
    return islit(v) or v.op in ("ilist", "new", "empty", "struct") and all(constant(x) for x in v.a if isinstance(x, T))


def same(a, b):
    return a is b or unwrap(a) is unwrap(b) or Asm(()).reduce(a) is Asm(()).reduce(b) or show(a, 60) == show(b, 60)


# ---------------------------------------------------------------- linear forms over positions
def linear(t):
    """{atom: coefficient} with wrap() and 2D z-clearing transparent; (form, wrapped)"""
    out = {}
    wrapped = [False]

    def go(x, c):
        x = unwrap(x)
        if x.op == "op" and x.a[0] in ("+", "-") and len(x.a) == 3:
            go(x.a[1], c)
            go(x.a[2], c if x.a[0] == "+" else -c)
        elif x.op in ("neg",) or x.op == "op" and x.a[0] in ("neg", "-", "u-") and len(x.a) == 2:
            go(x.a[-1], -c)
        elif x.op == "call" and simplename(x) == "wrap" and len(x.a) >= 3:
            wrapped[0] = True
            go(x.a[-1], c)
        elif x.op == "upd" and x.a[1] == ("f", "z") and flat(x):
            go(x.a[0], c)
        elif x.op == "phi" and flatphi(x):
            go(x.a[2], c)
        else:
            out[x] = out.get(x, 0) + c
    go(t, 1)
    return {k: v for k, v in out.items() if v}, wrapped[0]


def flat(x):
    """upd(v, z, 0) or upd(v, z, 2D ? 0 : v.z): only clears z of flat systems."""
    v = unwrap(x.a[2])
    if islit(v):
        return v.a[0] == 0
    return v.op == "phi" and any(y.op == "call" and simplename(y) == "is2D" for y in walk(v.a[0]))


def flatphi(x):
    a, b = unwrap(x.a[1]), unwrap(x.a[2])
    return a.op == "upd" and unwrap(a.a[0]) is b and any(y.op == "call" and simplename(y) == "is2D" for y in walk(x.a[0]))


def elem(a):
    """(array, index) of an array element atom"""
    a = unwrap(a)
    while a.op in ("ld", "ho", "hv"):
        a = unwrap(a.a[0] if a.op == "ld" else a.a[-1])
    if a.op in ("idx", "sel") and len(a.a) == 2:
        return a.a[0], unwrap(a.a[1])
    return None


def variants(vals, depth=0):
    """The record's values with the conditions its vector's positions depend on decided either way."""
    cond = None
    for a in linear(vals["V"])[0]:
        for x in path(a):
            if x.op == "phi":
                cond = x.a[0]
    if cond is None or depth > 3:
        yield vals
        return
    for p in (True, False):
        A = Asm([(cond, p)])
        yield from variants({k: unwrap(A.reduce(x)) for k, x in vals.items()}, depth + 1)


def path(x):
    for _ in range(40):
        x = unwrap(x)
        yield x
        if x.op in ("fld", "get", "idx", "sel", "ld", "deref", "ptr", "upd") and isinstance(x.a[0], T):
            x = x.a[0]
        elif x.op in ("hv", "ho"):
            x = x.a[-1]
        else:
            return


def geometry(ctx, vals, site, where, own=False):
    v = vals["V"]
    if paramof(v) is not None:
        ix = {rowof(x) for r, x in vals.items() if r in "QPV" and paramof(x) is not None}
        ctx.ob(len(ix) == 1, "R3", site, "its vector and indices come from different rows", *where)
        return
    form, wrapped = linear(v)
    pos = [a for a, c in form.items() if c == 1 and position(a)]
    neg = [a for a, c in form.items() if c == -1 and position(a)]
    img = [a for a in form if not position(a)]
    img = [a for a in img if elem(a) is None or not image(a)]
    ok = len(pos) == 1 and len(neg) == 1 and not img
    ctx.ob(ok, "R3", site, "its vector is not a difference of a point's and a query point's position", *where)
    if not ok:
        return
    p, q = pos[0], neg[0]
    okp = belongs(p, vals["P"]) and not isquery(p)
    ctx.ob(okp, "R3", site, "the position its vector leads to is not that of the point it names", *where)
    if "Q" in vals:
        okq = isquery(q) and (elem(q) is None or elem(q)[1] is vals["Q"] or same(elem(q)[1], vals["Q"])) if isquery(q) else belongs(q, vals["Q"]) and not own
        ctx.ob(bool(okq) and not (isquery(p) and not isquery(q)), "R3", site, "the position its vector starts from is not that of the query point it names", *where)
    m = any(image(a) for a in form) or wrapped or stored(p)
    ctx.ob(m, "R3", site, "its vector is neither wrapped nor taken to an image of the point", *where)


def fieldnames(a):
    return {x.a[1] for x in walk(a) if x.op in ("fld", "get") and isinstance(x.a[1], str)} | {str(x.a[0]) for x in walk(a) if x.op in ("param", "pobj")}


def image(a):
    e = elem(a)
    return e is not None and not position(a)


def isquery(a):
    x = arr(a)
    return any("query_point" in n for n in topnames(x))


def arr(a):
    e = elem(a)
    return e[0] if e else a


def topnames(x):
    """Names on the access path of a place or value (not those inside indices)."""
    out = []
    for _ in range(40):
        x = unwrap(x)
        if x.op in ("fld", "get"):
            out.append(str(x.a[1]))
            x = x.a[0]
        elif x.op in ("idx", "sel", "ld", "deref", "ptr", "upd"):
            x = x.a[0]
        elif x.op in ("hv", "ho"):
            x = x.a[-1]
        elif x.op in ("param", "pobj", "var"):
            out.append(str(x.a[0]))
            break
        elif x.op == "call":
            out.append(simplename(x))
            x = x.a[1] if len(x.a) > 1 and isinstance(x.a[1], T) else None
            if x is None:
                break
        else:
            break
    return out


def position(a):
    """Elements of point arrays, the iterator's query point, stored particle positions."""
    n = topnames(a)
    return any("point" in x and "idx" not in x and "ind" not in x for x in n) or stored(a)


def stored(a):
    n = topnames(a)
    return bool(n) and n[0] == "p"


def belongs(a, idx):
    """Position a is that of the particle with this index."""
    e = elem(a)
    if e is not None:
        return e[1] is idx or same(e[1], idx)
    if stored(a):
        tags = {x for x in walk(idx) if x.op in ("fld", "get") and x.a[1] == "particle_index"}
        own = next((x.a[0] for x in path(a) if x.op in ("fld", "get")), None)
        return bool(tags) and all(unwrap(x.a[0]) is unwrap(own) or same(x.a[0], own) for x in tags) and \
            all(number(idx, {x: v for x in walk(idx) if unwrap(x) in tags}) in (k, None) for k in (0, 1, 5) for v in (k, ~k))
    return False


def paramof(v):
    """The bare array parameter an element is read from."""
    e = elem(v)
    if e is None:
        return None
    x = unwrap(e[0])
    while x.op in ("deref", "ld", "ptr"):
        x = unwrap(x.a[0])
    if x.op in ("param", "pobj") and not any(s in str(x.a[0]) for s in ("points",)):
        return x
    return None


def rowof(v):
    e = elem(v)
    return e[1] if e else None


# ---------------------------------------------------------------- stored particles and image vectors
def ghosts(ctx, E, seen):
    """{position, index} records of the cell engine."""
    d = {}
    for e in E.events:
        if e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[1] in ("p", "particle_index") and e.op == "init" and isinstance(e.value, T):
            d.setdefault(e.place.a[0], {})[e.place.a[1]] = e
    # aggregates written as one value
    for e in E.events:
        for v in ([e.value] if isinstance(e.value, T) else []):
            for x in walk(v):
                if x.op == "struct" and dict(x.a[1]).keys() >= {"p", "particle_index"}:
                    d.setdefault(x, {}).update({k: (e, y) for k, y in x.a[1]})
    for k, g in d.items():
        if len(g) < 2:
            continue
        (e, p), (_, t) = [(x if isinstance(x, tuple) else (x, x.value)) for x in (g["p"], g["particle_index"])]
        p, t = unwrap(p), unwrap(t)
        if undefined(p) or undefined(t) or constant(p):
            continue
        key = ("ghost", e.file, e.line, show(p, 5), show(t, 5))
        if key in seen:
            continue
        form, _ = linear(p)
        at = [a for a, c in form.items() if c == 1 and position(a) and elem(a)]
        if not at and all(stored(a) or not position(a) for a in form):
            continue
        seen.add(key)
        ix = elem(at[0])[1] if at else None
        ctx.ob(len(at) == 1 and tagged(t, ix) and len([a for a in form if position(a)]) == 1, "R3", "%s: stored particle position" % owner_fn(e),
               "a position is stored under the index of another particle", e.file, e.line)


def tagged(t, ix):
    """The tag is the index or its complement, for every index."""
    r = {(number(t, {ix: k}) - k) if number(t, {ix: k}) is not None and number(t, {ix: k}) >= 0 else
         None if number(t, {ix: k}) is None else "c%d" % (number(t, {ix: k}) + k) for k in (0, 1, 2, 5, 12)}
    return r == {0} or r == {"c-1"}


def number(t, env):
    """Integer value of a term under an assignment, or None."""
    t = unwrap(t)
    while t.op == "ld" and t not in env:
        t = unwrap(t.a[0])
    if t in env:
        return env[t]
    if islit(t):
        return int(t.a[0]) if isinstance(t.a[0], (int, bool)) else None
    if t.op == "op":
        xs = [number(x, env) for x in t.a[1:]]
        if None in xs:
            return None
        o = t.a[0]
        if len(xs) == 1:
            return {"neg": lambda a: -a, "-": lambda a: -a, "~": lambda a: ~a, "+": lambda a: a, "!": lambda a: int(not a)}.get(o, lambda a: None)(xs[0])
        if len(xs) == 2:
            a, b = xs
            try:
                return {"+": a + b, "-": a - b, "*": a * b, "^": a ^ b, "&": a & b, "|": a | b, ">>": a >> b if b >= 0 else None, "<<": a << b if 0 <= b < 64 else None,
                        "<": int(a < b), "<=": int(a <= b), "==": int(a == b)}.get(o)
            except Exception:
                return None
    if t.op == "call" and simplename(t) in ("abs", "labs", "llabs"):
        x = number(t.a[-1], env) if isinstance(t.a[-1], T) else None
        return None if x is None else abs(x)
    if t.op == "phi":
        c = number(t.a[0], env)
        return None if c is None else number(t.a[1] if c else t.a[2], env)
    return None


def lattice(ctx, E, seen):
    """Stores of vectors built from lattice vectors: each axis once, with its own coefficient."""
    for e in E.events:
        if e.kind not in ("store", "append") or not isinstance(e.value, T) or e.place is None:
            continue
        if e.kind == "store" and e.place.op != "idx":
            continue
        v = unwrap(e.value)
        if not any(axis(x) is not None for x in walk(v)) or any(position(a) for a in linear(v)[0]):
            continue
        if not vectorial(v):
            continue
        key = ("lattice", e.file, e.line, show(v, 12))
        if key in seen:
            continue
        for w in (v,):
            f = coeffs(w)
            if f is None:
                ctx.ob(False, "R4", "%s: image vector" % owner_fn(e), "an image vector is not a combination of lattice vectors", e.file, e.line)
                continue
            cs = [show(c, 20) for c in f.values() if c is not None]
            ctx.ob(len(cs) == len(set(cs)), "R4", "%s: image vector" % owner_fn(e), "one counter multiplies two lattice vectors of an image", e.file, e.line)
        seen.add(key)
        # loop counters run over -1, 0, 1
        ranges = counter_ranges(E, e, v)
        for nm, lo, hi in ranges:
            ctx.ob(lo == -1 and hi == 1, "R4", "%s: image loop" % owner_fn(e), "an image counter does not run over -1, 0 and 1", e.file, e.line)


def axis(x):
    if x.op == "call" and simplename(x) == "getLatticeVector" and islit(unwrap(x.a[-1])):
        return unwrap(x.a[-1]).a[0]
    return None


def vectorial(v):
    """Every summand is a (scaled) lattice vector or zero."""
    v = unwrap(v)
    if v.op == "op" and v.a[0] in ("+", "-", "*") and len(v.a) == 3:
        return any(vectorial(x) for x in v.a[1:] if isinstance(x, T))
    if v.op == "neg" or v.op == "phi":
        return any(vectorial(x) for x in v.a if isinstance(x, T))
    return axis(v) is not None


def combos(v, cap=64):
    out = []
    for w, g in cases(v, ()):
        out.append((w, g))
        if len(out) >= cap:
            break
    return out


def zero(x):
    x = unwrap(x)
    if islit(x):
        return x.a[0] == 0
    return x.op in ("ilist", "vec", "struct", "call", "new") and all(zero(y[1] if isinstance(y, tuple) and len(y) == 2 else y) for y in (x.a[1] if x.op == "struct" else x.a) if isinstance(y, (T, tuple)))


def coeffs(v):
    """{axis: coefficient term} of a combination of lattice vectors, None when it is something else."""
    out = {}

    def go(x, c):
        x = unwrap(x)
        if axis(x) is not None:
            if axis(x) in out:
                return False
            out[axis(x)] = c
            return True
        if x.op == "op" and x.a[0] in ("+", "-") and len(x.a) == 3:
            return go(x.a[1], c) and go(x.a[2], c)
        if x.op in ("neg", "un") or x.op == "op" and len(x.a) == 2:
            return go(x.a[-1], c)
        if x.op == "op" and x.a[0] == "*" and len(x.a) == 3:
            l = any(axis(y) is not None for y in walk(x.a[1]))
            r = any(axis(y) is not None for y in walk(x.a[2]))
            if l == r:
                return zero(x.a[1]) or zero(x.a[2])
            return go(x.a[1], x.a[2]) if l else go(x.a[2], x.a[1])
        if x.op == "phi":
            a, b = unwrap(x.a[1]), unwrap(x.a[2])
            la = any(axis(y) is not None for y in walk(a))
            lb = any(axis(y) is not None for y in walk(b))
            if la and lb:
                o = dict(out)
                ok = go(a, c)
                o2 = dict(out)
                out.clear()
                out.update(o)
                ok = go(b, c) and ok
                out.update(o2)
                return ok
            return go(a if la else b, c) if la or lb else True
        return not any(axis(y) is not None for y in walk(x))
    return out if go(v, None) else None


def counter_ranges(E, e, v):
    out = []
    for c in (coeffs(v) or {}).values():
        if c is None:
            continue
        for x in walk(c):
            if x.op == "lv":
                info = E.loops.get(x.a[0]) or {}
                ind = info.get("ind") or {}
                lo = None
                for p, (lv, l, how) in ind.items():
                    if lv is x and islit(unwrap(l)):
                        lo = unwrap(l).a[0]
                        if how == "--":
                            lo = None
                hi = None
                for t, p in e.guards:
                    for a, pol in atoms(t, p):
                        if a.op == "op" and len(a.a) == 3 and unwrap(a.a[1]) is x and islit(unwrap(a.a[2])):
                            k = unwrap(a.a[2]).a[0]
                            if a.a[0] == "<=" and pol:
                                hi = k if hi is None else min(hi, k)
                            if a.a[0] == "<" and pol:
                                hi = k - 1 if hi is None else min(hi, k - 1)
                if lo is not None and hi is not None:
                    out.append((x, lo, hi))
    return out


def atoms(t, p):
    if t.op == "op" and t.a[0] == "&&" and p or t.op == "op" and t.a[0] == "||" and not p:
        return atoms(t.a[1], p) + atoms(t.a[2], p)
    if t.op == "op" and t.a[0] == "!":
        return atoms(t.a[1], not p)
    return [(t, p)]


def querysingle(ctx, E, seen):
    """querySingle(query_points[i], i, ...)"""
    for e in E.events:
        if e.kind != "call" or not str(e.info.get("f", "")).split("(")[0].endswith("::querySingle") or not isinstance(e.value, T):
            continue
        a = [unwrap(x) for x in e.value.a]
        ix = [(i, x) for i, x in enumerate(a) if elem(x) and position(x)]
        for i, x in ix:
            if i + 1 < len(a):
                ctx.ob(elem(x)[1] is a[i + 1] or same(elem(x)[1], a[i + 1]), "R3", "%s: per-point query" % owner_fn(e),
                       "the query point's position and the index reported in its bonds differ", e.file, e.line)


# ---------------------------------------------------------------- several images of one point
def images(ctx, Q, cls):
    """Nearest searches over explicit images: duplicates are filtered by a map keyed by point, switched on by a flag."""
    from .p10 import iterators, leaves, bondfields, srcfield
    from .p19 import BALLONLY, short
    n = 0
    if cls in BALLONLY:
        return 0
    for I in iterators(ctx, Q, cls, "nearest"):
        ev = I.E.events[I.k:]
        site = "%s %s" % (short(cls), short(I.cls))
        keyed, direct = [], []
        for e in ev:
            if e.place is None or not isinstance(e.value, T):
                continue
            f = srcfield(e.place, I.obj)
            if f is None:
                continue
            bonds = [(w, g) for w, g in leaves(unwrap(e.value), e.guards) if bondfields(w)]
            if not bonds:
                continue
            if e.kind == "store" and e.place.op == "idx" and any(Asm(g).reduce(unwrap(e.place.a[-1])) is Asm(g).reduce(bondfields(w)["point_idx"]) for w, g in bonds):
                keyed.append((e, f, bonds))
            elif e.kind == "append":
                direct.append((e, f, bonds))
        if not keyed:
            continue
        n += 1
        for e, f, bonds in keyed:
            for w, g in bonds:
                D = bondfields(w)["distance"]

                def hk(t, D=Asm(g).reduce(D), f=f, A=Asm(g)):
                    # situation: the point is already there, and nearer
                    if t.op == "op" and len(t.a) == 3:
                        o, x, y = t.a[0], unwrap(t.a[1]), unwrap(t.a[2])
                        if o in ("<", "<=") and srcfield(y, I.obj) == f and distanceof(y) and eqd(A.reduce(x), D):
                            return False
                        if o in ("<", "<=") and srcfield(x, I.obj) == f and distanceof(x) and eqd(A.reduce(y), D):
                            return True
                        if o == "==" and (counts(x, f, I) and islit(y) and y.a[0] == 0 or counts(y, f, I) and islit(x) and x.a[0] == 0):
                            return False
                    return None
                ctx.ob(contradicts(g, hk), "R5", site + " duplicate filter", "a farther image of a point can replace the nearer one already found", e.file, e.line)
        # the flag under which bonds bypass the filter
        flags = {}
        for e, f, bonds in direct:
            for t, p in e.guards:
                for a, pol in atoms(t, p):
                    a = unwrap(a)
                    if a.op in ("ld", "hv", "ho", "fld") and srcfield(a, I.obj) and any(x is a or srcfield(unwrap(x), I.obj) == srcfield(a, I.obj) for k in keyed for t2, p2 in k[0].guards for x, q in atoms(t2, p2) if q != pol and unwrap(x).op in ("ld", "hv", "ho", "fld")):
                        flags[srcfield(a, I.obj)] = not pol
            if not flags:
                ctx.ob(False, "R5", site + " duplicate filter", "bonds bypass the filter that keeps the nearest image of each point", e.file, e.line)
        radii = {}
        for e in ev:
            if e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[0] is I.obj and isinstance(e.value, T) and any(x is mk("param", "scale") for x in walk(e.value)):
                radii.setdefault(e.place.a[1], []).append(e)
        for fl, on in flags.items():
            for r, evs in radii.items():
                vals = [(unwrap(e.value), e) for e in evs]
                first = mk("hv", "next", mk("fld", I.obj, r))
                init = initial(I, r)
                if init is None or not capped(init):
                    vals.append((first, evs[0]))
                for v, e in vals:
                    ok = any(x.kind == "store" and srcfield(x.place, I.obj) == fl and isinstance(x.value, T) and islit(unwrap(x.value)) and bool(unwrap(x.value).a[0]) == on
                             and any(exceeds(a, pol, v) for t, p in x.guards for a, pol in atoms(t, p)) for x in ev if x.place is not None)
                    ok = ok or any(x.kind == "store" and srcfield(x.place, I.obj) == fl and isinstance(x.value, T) and any(exceeds(y, on, v) for y in walk(unwrap(x.value))) for x in ev if x.place is not None)
                    what = "the initial search radius" if v is first else "the enlarged search radius"
                    ctx.ob(ok, "R5", site + " extended search", what + " can see several images of a point without switching on the duplicate filter", e.file, e.line)
    return n


def initial(I, r):
    for e in I.E.events[:I.k]:
        if e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[0] is I.obj and e.place.a[1] == r and isinstance(e.value, T):
            return unwrap(e.value)
    return None


def halfplane(t):
    w = list(walk(t))
    return any(x.op == "call" and simplename(x) == "getNearestPlaneDistance" for x in w) and any(islit(x) and x.a[0] in (2, 0.5) for x in w) \
        and not any(x.op == "call" and simplename(x) == "max" for x in w)


def capped(v):
    """min(..., half the smallest plane distance) on every alternative."""
    for w, g in cases(v, ()):
        w = unwrap(w)
        if not any(x.op == "call" and simplename(x) == "min" and any(halfplane(y) for y in x.a[1:] if isinstance(y, T)) for x in [w] + [y for y in w.a if isinstance(y, T)]):
            return False
    return True


def exceeds(a, pol, v):
    if a.op != "op" or len(a.a) != 3:
        return False
    o, x, y = a.a[0], unwrap(a.a[1]), unwrap(a.a[2])
    if o in ("<", "<=") and pol and (y is v or same(y, v)) and halfplane(x):
        return True
    return o in ("<", "<=") and not pol and (x is v or same(x, v)) and halfplane(y)


def distanceof(x):
    return any(y.op in ("fld", "get") and y.a[1] == "distance" for y in walk(x))


def eqd(x, D):
    return x is D or same(x, D)


def counts(x, f, I):
    from .p10 import srcfield
    return x.op == "call" and simplename(x) in ("count", "contains") or x.op in ("c.count", "c.contains") or any(srcfield(y, I.obj) == f for y in walk(x) if y.op in ("fld",)) and not distanceof(x)
