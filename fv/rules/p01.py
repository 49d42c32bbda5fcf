"""Race freedom of parallel regions by ownership analysis. Every function of the native library that reaches a
parallel construct (tbb::parallel_for / parallel_for_each / parallel_reduce, through util::forLoopWrapper and the
neighbor-loop helpers, following closures and virtual calls) is evaluated abstractly; each store, container mutation and
non-const call made inside the parallel body is an obligation: its target must be created inside the body, thread-local
(enumerable_thread_specific::local), atomic, lock-protected, a concurrent container, or an array element whose index is
an injective function of the iteration index of that parallel range."""
from ..terms import T, mk, walk, root, show, ancestors, islit
from ..shared import entries, evfn, placename, OPAQUE, owner_fn
from ..facts import strip_targs
from .. import cxx

MUT = {"append", "insert", "resize", "clear", "assign", "erase", "pop_back", "push_front", "pop_front", "sort"}
CONCURRENT = ("DisjointSets", "concurrent_", "tbb::", "std::atomic", "mutex")


def owned(E, t, par, depth=0):
    """Is term t an injective function of the iteration index of parallel region par?"""
    if depth > 12:
        return False
    o = t.op
    if o == "pi":
        return t.a[0] == par
    if o == "lv":
        inf = (E.lvs or {}).get(t)
        if not inf:
            return False
        lo, how, L = inf
        if lo.op == "pb" and lo.a[0] == par:
            return upper(E, t, par)
        return cursor(E, lo, par, depth + 1)
    if o == "op" and len(t.a) == 3:
        op, a, b = t.a
        if op in ("+", "-"):
            if owned(E, a, par, depth + 1):
                return invariant(E, b, par) or scaled(a)
            if op == "+" and owned(E, b, par, depth + 1):
                return invariant(E, a, par) or scaled(b)
        if op == "*":
            return (owned(E, a, par, depth + 1) and invariant(E, b, par) and not (islit(b) and b.a[0] == 0)) or \
                   (owned(E, b, par, depth + 1) and invariant(E, a, par) and not (islit(a) and a.a[0] == 0))
        return False
    if o == "hv":
        return cursor(E, t, par, depth + 1)
    if o == "call" and t.a[0] == "maindex":
        return any(owned(E, x, par, depth + 1) for x in t.a[2:])
    return False


def scaled(t):
    if t.op == "op" and t.a[0] == "*":
        return True
    if t.op == "op" and t.a[0] in ("+", "-"):
        return scaled(t.a[1]) or scaled(t.a[2])
    return False


def invariant(E, t, par):
    """No dependence on anything that varies inside the region."""
    for x in walk(t):
        if x.op in ("lv", "hv", "ho", "pi", "pb", "pe", "site"):
            if x.op in ("pb", "pe", "pi"):
                return False
            if x.op == "lv":
                return False
            if x.op in ("hv", "ho") and inside(E, x.a[0], par):
                return False
    return True


def inside(E, L, par):
    return True


def upper(E, lv, par):
    """The loop of lv stays below the end of its range."""
    info = E.loops.get(lv.a[0], {})
    c = info.get("cond")
    if c is None:
        return info.get("kind") not in ("for", "while")
    for x in conds(c):
        y, pol = x
        if y.op == "op" and y.a[0] == "==" and not pol and lv in y.a and any(getattr(z, "op", "") == "pe" and z.a[0] == par for z in y.a[1:]):
            return True
        if y.op == "op" and y.a[0] == "<" and pol and y.a[1] is lv and y.a[2].op == "pe" and y.a[2].a[0] == par:
            return True
        if y.op == "op" and y.a[0] == "<=" and not pol and y.a[2] is lv and y.a[1].op == "pe":
            return True
    return False


def conds(c, pol=True):
    while c.op == "op" and c.a[0] == "!":
        c, pol = c.a[1], not pol
    if c.op == "op" and ((c.a[0] == "&&" and pol) or (c.a[0] == "||" and not pol)):
        yield from conds(c.a[1], pol)
        yield from conds(c.a[2], pol)
    else:
        yield c, pol


def blockstart(E, x, par, depth):
    """i*n (+/- something): the start of the block of elements that iteration i owns."""
    if x.op == "op" and x.a[0] == "*":
        return owned(E, x, par, depth + 1) and not (islit(x.a[1]) and x.a[1].a[0] == 1) and not (islit(x.a[2]) and x.a[2].a[0] == 1)
    if x.op == "op" and x.a[0] in ("+", "-"):
        return blockstart(E, x.a[1], par, depth) or (x.a[0] == "+" and blockstart(E, x.a[2], par, depth))
    return False


def cursor(E, lo, par, depth):
    """A bond cursor: it starts at the first bond of the range (or of an owned query point) and only moves forward."""
    seen = set()
    st = [lo]
    ok = False
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if blockstart(E, x, par, depth):
            ok = True
            continue
        if x.op == "call" and "find_first_index" in str(x.a[0]):
            arg = [y for y in x.a[1:] if isinstance(y, T)]
            if any((y.op == "pb" and y.a[0] == par) or owned(E, y, par, depth + 1) for y in arg):
                ok = True
                continue
            return False
        if x.op in ("hv", "ho"):
            u = E.loops.get(x.a[0], {}).get("upd", {}).get(x.a[1])
            if u is None:
                continue
            st.extend(u)
            continue
        if x.op == "lv":
            inf = (E.lvs or {}).get(x)
            if inf:
                st.append(inf[0])
                continue
            return False
        if x.op == "phi":
            st.extend(x.a[1:])
            continue
        if x.op == "op" and x.a[0] == "+":
            st.append(x.a[1])
            if not islit(x.a[2]):
                return False
            continue
        if x.op == "ld" and x.a[0].op == "idx" and "segments" in placename(x.a[0]) and any(owned(E, i, par, depth + 1) for i in x.a[0].a[1:]):
            ok = True
            continue
        return False
    return ok


def lastname(p):
    return p.a[1] if p.op == "fld" else placename(p)


PRIVATE = {}   # (thread-local container, pointer field) -> every initial element owns what the field points to


def tlsfields(ctx, F):
    """What pointer fields of thread-local elements point to: freshly allocated per element, or something shared."""
    PRIVATE.clear()
    for i in entries(F):
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(i)
        for e in list(E.events):
            if e.kind != "store" or not isinstance(e.value, T) or e.value.op != "struct" or e.value.a[0] != "ets":
                continue
            name = lastname(e.place)
            for n, v in e.value.a[1]:
                if v.op == "clo":
                    k = len(E.events)
                    s2, r = E.closure_call(cxx.S(), v, [], {"k": "call"})
                    made = {x.place for x in E.events[k:] if x.kind == "alloc"}
                    while r is not None and r.op == "upd":
                        if isinstance(r.a[1], tuple) and r.a[1][0] == "f":
                            fld, x = r.a[1][1], r.a[2]
                            if x.op == "ptr":
                                PRIVATE[name, fld] = PRIVATE.get((name, fld), True) and x.a[0] in made
                        r = r.a[0]
                else:
                    PRIVATE[name, None] = False


def classify(E, e, p):
    """None when the target is safe, otherwise a reason."""
    par = e.par
    r = root(p)
    if r.op == "tls":
        return None if len(r.a) == 1 or not par else "thread-local copy looked up outside the parallel loop"
    if e.op and str(e.op).startswith("atomic"):
        return None
    if e.locks:
        return None
    # element owned by the iteration
    for P in (par[-1:] or ()):
        q = p
        while q.op in ("fld", "idx"):
            if q.op == "idx" and any(owned(E, i, P) for i in q.a[1:]):
                return None
            q = q.a[0]
    # created inside the parallel body
    q = p
    while True:
        d = E.declpar.get(q)
        if d is not None and len(d) >= len(par):
            return None
        if q.op in ("fld", "idx"):
            q = q.a[0]
        else:
            break
    if r.op in ("var", "tmp", "cap", "obj") and r not in E.declpar:
        return None
    if r.op == "deref":
        v = r.a[0]
        # a pointer obtained from an unmodelled call: nothing known about it
        if v.op in ("call", "get", "sel", "amb", "opaque", "undef", "null", "nd", "phi", "mod", "lit"):
            if v.op == "phi":
                alts = [x for x in v.a[1:] if x.op not in ("null", "undef")]
                bad = [classify(E, e, E.deref(x)) for x in alts]
                bad = [b for b in bad if b]
                return bad[0] if bad else None
            return None
        if v.op in ("hv", "ho", "ld"):
            rr = root(v.a[-1])
            d = E.declpar.get(rr)
            if d is not None and len(d) >= len(par):
                return None
            if rr.op in ("deref",) and rr.a[0].op in ("call", "get"):
                return None
            if rr.op == "tls" and v.a[-1].op == "fld":
                if len(rr.a) > 1:
                    return "thread-local copy looked up outside the parallel loop"
                name = lastname(rr.a[0])
                if PRIVATE.get((name, v.a[-1].a[1])) and (name, None) not in PRIVATE:
                    return None
                return "the thread-local copies share what their field %s points to" % v.a[-1].a[1]
    return "not private to the iteration or thread, not atomic, not locked, and not indexed by the iteration index of its range"


def sameconst(E, e):
    """Every write to that array in the region stores one and the same constant (order cannot matter)."""
    if not islit(e.value) or e.op != "=":
        return False
    r = root(e.place)
    vals = {x.value for x in E.events if x.kind == "store" and x.par == e.par and root(x.place) is r and
            (x.place.op == "idx") == (e.place.op == "idx")}
    return len(vals) == 1 and e.place.op == "idx"


def check(ctx):
    F = ctx.cxx()
    ctx.rule("R1: a store inside a parallel region targets memory owned by the iteration or thread, or is synchronised")
    ctx.rule("R2: a container mutation or non-const call inside a parallel region targets an owned or concurrent object")
    tlsfields(ctx, F)
    regions = set()
    nent = 0
    for i in entries(F):
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(i)
        npar = 0
        for e in E.events:
            if not e.par:
                continue
            regions.add(e.par[-1].rsplit(":", 1)[0])
            npar += 1
            if e.kind == "store" and e.op not in ("init", "decl", "bind", "new", "tmp"):
                p = e.place
                if root(p).op == "var" and p.op == "var" and E.declpar.get(p) == e.par:
                    continue
                if e.op in ("mutcall",):
                    info = [x for x in E.events[e.n - 1:e.n]][0].info if e.n else None
                    cls = strip_targs((info or {}).get("cls") or "")
                    if any(c in cls for c in CONCURRENT) or any(c in (info or {}).get("f", "") for c in CONCURRENT):
                        ctx.ob(True, "R2", owner_fn(e), "", e.file, e.line)
                        continue
                why = classify(E, e, p)
                if why and sameconst(E, e):
                    why = None
                ctx.ob(why is None, "R1", "%s writes %s" % (owner_fn(e), placename(p)),
                       "write to shared '%s' inside parallel region %s: %s" % (show(p, 5), e.par[-1], why), e.file, e.line)
            elif e.kind in MUT and e.place is not None:
                why = classify(E, e, e.place)
                ctx.ob(why is None, "R2", "%s %s %s" % (owner_fn(e), e.kind, placename(e.place)),
                       "%s on shared container '%s' inside parallel region %s" % (e.kind, show(e.place, 5), e.par[-1]), e.file, e.line)
        if npar:
            nent += 1
            ctx.visited(E)
    ctx.cov["parallel_regions"] = len(regions)
    ctx.need(nent, 20, "functions reaching a parallel region")
