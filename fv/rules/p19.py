"""Query arguments, followed end to end. Python: the evaluated `_QueryArgs.from_dict` must store every key's value,
unchanged, in the native field of that name under no other condition than its presence; unknown keys and modes raise;
every pair computation evaluates to from_dict of either a fresh default dictionary or a copy of the caller's, in which
only a missing exclude_ii was filled in with (query_points is None). Native: query() of every engine is evaluated over
the abstract domain mode x {num_neighbors absent/present} x {r_max absent/present} (validation, mode inference,
dispatch and iterator construction followed as one path); each entry of that table must raise or build the documented
iterator with exactly the given values (or the documented defaults)."""
import ast
from .. import cxx, pyeval, link
from ..queries import Queries, MODES, NS, unwrap
from ..terms import T, mk, lit, islit, walk, root, show
from ..shared import entries, owner_fn, OPAQUE, simple
from . import p07, p08

FROM = "freud.locality._QueryArgs.from_dict"
QA = "freud.locality._QueryArgs"
BALLONLY = {NS + "CellQuery"}       # documented: only ball queries
OPTIONAL = {"r_min", "exclude_ii", "r_guess", "scale"}


def check(ctx):
    ctx.rule("A1: from_dict stores each key's value unchanged in the native field of that name, whenever the key is present")
    ctx.rule("A2: unknown keys, unknown modes and neighbors of another type raise; the mode names select the modes of those names")
    ctx.rule("A3: pair computations query with a fresh default dictionary or a copy of the caller's; only a missing exclude_ii is filled in, with (query_points is None)")
    ctx.rule("A4: default dictionaries are fresh, self-consistent and equal to the documented ones")
    ctx.rule("A5: native calls get the query arguments made from that dictionary (or blank ones with a neighbor list)")
    ctx.rule("B1: every engine raises or builds the documented iterator for each combination of mode and keys present, with exactly the given values")
    ctx.rule("B2: out-of-range values (r_max <= 0, r_max <= r_min, scale <= 1) raise")
    ctx.rule("B3: native functions hand query arguments on unchanged")
    L = link.Link(ctx)
    Q = Queries(ctx, L.F)
    ctx.need(len(Q.defaults), 7, "query argument fields")
    ctx.need(len(Q.engines), 4, "query engines")
    table(ctx, Q)
    ranges(ctx, Q)
    handed(ctx, L)
    keys(ctx, L, Q)
    pairs(ctx, L, Q)
    defaults(ctx, L, Q)
    result(ctx, L)


def short(c):
    return c.split("::")[-1]


# ---------------------------------------------------------------- native decision table
def expected(mode, nn, rm):
    if mode == "none":
        mode = "nearest" if nn else "ball" if rm else None
    if mode == "ball":
        return "ball" if rm and not nn else None
    if mode == "nearest":
        return "nearest" if nn else None
    return None


def at(F, fid):
    f = F.fns.get(fid) or {}
    return f.get("file", ""), f.get("l", 0)


def table(ctx, Q):
    F = Q.F
    n = 0
    P = lambda k: mk("param", k)
    for cls, fid in Q.engines:
        file, line = at(F, fid)
        for mode in MODES:
            for nn in (False, True):
                for rm in (False, True):
                    for opt in (True, False):
                        have = [k for k, b in (("num_neighbors", nn), ("r_max", rm)) if b] + (sorted(OPTIONAL) if opt else [])
                        E, s, v = Q.run(cls, fid, mode, have)
                        want = expected(mode, nn, rm)
                        what = "%s mode=%s%s%s" % (short(cls), mode, " num_neighbors" if nn else "", " r_max" if rm else "")
                        n += 1
                        dead = s is None or s.dead
                        its = Q.iters(E, s)
                        if want is None or (want == "nearest" and cls in BALLONLY):
                            ctx.ob(dead, "B1", what, "query arguments that must be rejected do not raise on every path", file, line)
                            continue
                        if dead or not its:
                            last = [e for e in E.events if e.kind == "throw"]
                            f, l = (last[-1].file, last[-1].line) if last else (file, line)
                            ctx.fail("B1", what, "valid query arguments never reach an iterator: every path raises", f, l)
                            continue
                        h = Q.held(E, s)
                        ctx.ob(h.get("mode") is lit("enum:" + NS + "QueryType::" + want), "B1", what + ": mode",
                               "the query mode becomes %s, not %s" % (show(h["mode"], 3) if h.get("mode") is not None else None, want), file, line)
                        for it in its:
                            fields(ctx, Q, E, s, it, what, want, rm, opt, file, line)
                        for k in sorted(h):
                            if k == "mode":
                                continue
                            ctx.ob(okvalue(Q, k, h[k], k in have, want, rm), "B1", "%s: %s kept for later iterators" % (what, k),
                                   "the iterator keeps %s = %s" % (k, show(h[k], 5)), file, line)
    ctx.need(n, 90, "query argument combinations")


def okvalue(Q, k, v, have, want, rm):
    """Is v what key k must become (given or absent)?"""
    P = lambda n: mk("param", n)
    if v is None:
        return True
    if k == "r_max" and not have:
        return v.op == "call" and "infinity" in str(v.a[0]) or (islit(v) and v.a[0] == float("inf")) or want != "nearest" and v is Q.defaults[k]
    if k == "r_guess":
        if v is (P(k) if have else Q.defaults[k]):
            return True
        if have:       # clipped to r_max
            return v.op == "call" and str(v.a[0]).split("::")[-1] == "min" and P(k) in walk1(v) or any(x is P(k) for x in walk(v))
        return True
    if k == "scale" and not have:
        return v is Q.defaults[k] or islit(v) and abs(v.a[0] - 1.1) < 1e-6
    if have:
        return v is P(k)
    return v is Q.defaults[k] or islit(v) and v.a[0] == Q.defaults[k].a[0]


def walk1(v):
    return [x for x in v.a if isinstance(x, T)]


def fields(ctx, Q, E, s, it, what, want, rm, opt, file, line):
    P = lambda n: mk("param", n)
    fs = Q.fieldsof(s, it)
    vals = set(fs.values())
    must = {"r_min": P("r_min") if opt else None, "exclude_ii": P("exclude_ii") if opt else None,
            "r_max": P("r_max") if rm else None}
    if want == "nearest":
        must["num_neighbors"] = P("num_neighbors")
    elif P("num_neighbors") in vals:
        ctx.fail("B1", what + ": ball iterator", "a ball query builds an iterator that counts neighbors (%s)" % short(it.a[1]), file, line)
    for k, v in sorted(must.items()):
        if v is not None:
            ctx.ob(any(x is v for x in vals), "B1", "%s: %s reaches %s" % (what, k, short(it.a[1])),
                   "no field of %s holds the given %s" % (short(it.a[1]), k), file, line)
    for n, v in sorted(fs.items()):
        k = n[2:] if n.startswith("m_") else n
        if k in Q.defaults and k != "mode":
            ctx.ob(okvalue(Q, k, v, (k in OPTIONAL and opt) or (k == "r_max" and rm) or k == "num_neighbors", want, rm), "B1",
                   "%s: %s.%s" % (what, short(it.a[1]), n), "%s.%s becomes %s" % (short(it.a[1]), n, show(v, 5)), file, line)


def atoms(g):
    """Atoms any of which triggers (g holds)."""
    if g.op == "op" and g.a[0] == "||":
        return [y for x in g.a[1:] for y in atoms(x)]
    return [g]


def triggers(E, test):
    for e in E.events:
        if e.kind != "throw" or not e.guards:
            continue
        g, pol = e.guards[-1]
        if pol:
            if any(test(x, True) for x in atoms(g)):
                return True
        else:
            if test(g, False) or g.op == "op" and g.a[0] == "&&" and any(test(x, False) for x in conj(g)):
                return True
    return False


def conj(g):
    if g.op == "op" and g.a[0] == "&&":
        return [y for x in g.a[1:] for y in conj(x)]
    return [g]


def le(a, b):
    """Test for 'raises when a <= b' (b a term or a number)."""
    def same(x, y):
        if isinstance(y, T):
            return x is y
        return islit(x) and isinstance(x.a[0], (int, float)) and x.a[0] == y

    def f(g, pol):
        if g.op != "op" or len(g.a) != 3:
            return False
        o, x, y = g.a
        if pol:
            return o == "<=" and same(x, a) and same(y, b)
        return o == "<" and same(x, b) and same(y, a)
    return f


def ranges(ctx, Q):
    P = lambda n: mk("param", n)
    for cls, fid in Q.engines:
        file, line = at(Q.F, fid)
        for want, have in (("ball", ["r_max"]), ("nearest", ["num_neighbors", "r_max"])):
            if want == "nearest" and cls in BALLONLY:
                continue
            E, s, v = Q.run(cls, fid, want, have + sorted(OPTIONAL))
            for txt, t in (("r_max <= 0", le(P("r_max"), 0)), ("r_max <= r_min", le(P("r_max"), P("r_min")))):
                ctx.ob(triggers(E, t), "B2", "%s %s: %s" % (short(cls), want, txt), "no path of a %s query raises for %s" % (want, txt), file, line)
            if want == "nearest":
                used = any(P("scale") in Q.fieldsof(s, it).values() for it in Q.iters(E, s))
                if used:
                    ctx.ob(triggers(E, le(P("scale"), 1)), "B2", "%s %s: scale <= 1" % (short(cls), want),
                           "no path of a nearest query raises for scale <= 1", file, line)


# ---------------------------------------------------------------- native hand-over
def handed(ctx, L):
    F = L.F
    n = 0
    qs = {strip(i) for i in F.fns if any("QueryArgs" in p["t"] and "Iterator" not in p["t"] for p in F.fns[i].get("ps") or [])}
    E0 = cxx.Engine(F)
    own = set()
    for i, f in F.fns.items():
        if f.get("cls") and (f["cls"] == NS + "NeighborQuery" or Qd(F, f["cls"])):
            own.add(i)
    for i in entries(F):
        f = F.fns[i]
        ps = [p for p in f.get("ps") or [] if "QueryArgs" in p["t"]]
        if not ps or i in own:
            continue
        E = cxx.Engine(F, opaque=OPAQUE | {NS + "NeighborQuery::query", NS + "NeighborQuery::querySingle"})
        E.run(i)
        ctx.visited(E)
        for e in E.events:
            if e.kind == "store" and e.place is not None and e.place.op == "fld" and any(qplace(e.place.a[0], p["n"]) for p in ps) and e.op not in ("decl", "bind"):
                ctx.fail("B3", "%s changes %s" % (owner_fn(e), e.place.a[1]), "query argument %s is changed before the search" % e.place.a[1], e.file, e.line)
            if e.kind == "call" and isinstance(e.value, T) and takes(F, (e.info or {}).get("f")):
                k = [j for j, p in enumerate(F.fns[e.info["f"]]["ps"]) if "QueryArgs" in p["t"]][0]
                vs = [x for x in e.value.a]
                if k >= len(vs):
                    continue
                v = vs[k]
                ok = any(same(v, p["n"]) for p in ps) or v.op == "ld" and v.a[0].op == "fld"
                n += 1
                ctx.ob(ok, "B3", "%s calls %s" % (owner_fn(e), simple(e.info["f"]).split("::")[-1]),
                       "the search gets %s instead of the caller's query arguments" % show(v, 4), e.file, e.line)
    ctx.need(n, 3, "native calls handing on query arguments")


def strip(i):
    return simple(i)


def Qd(F, c):
    from ..queries import bases
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x in (NS + "NeighborQuery", NS + "NeighborQueryIterator", NS + "NeighborQueryPerPointIterator"):
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += bases(F, x)
    return False


def takes(F, fid):
    f = F.fns.get(fid)
    return f is not None and any("QueryArgs" in p["t"] for p in f.get("ps") or [])


def qplace(p, name):
    return p.op == "pobj" and str(p.a[0]) == name or p.op == "var" and p.a[0].startswith("p:") and p.a[0].split(":")[2] == name


def same(v, name):
    v = unwrap(v)
    if v.op == "ptr":
        v = v.a[0]
    if v.op == "ld":
        v = v.a[0]
    return v.op in ("pobj", "param") and str(v.a[0]) == name or qplace(v, name) or v.op == "deref" and any(x.op == "param" and str(x.a[0]) == name for x in walk(v))


# ---------------------------------------------------------------- Python
def pos(ctx, c, n=None):
    return c.mod.path.replace(link_repo(), ""), (n or c.node).lineno


def link_repo():
    from ..facts import REPO
    return REPO + "/"


def own(g):
    return [(t, p) for t, p in g if t.op != "imp"]


def keys(ctx, L, Q):
    c = [k for k in L.P.classes() if k.q == QA][0]
    E = pyeval.Engine(L.P, opaque=PYO, natclass=L.nat)
    r = E.run(c, "from_dict")
    f, l = pos(ctx, c)
    o, ds = L.P.find(c, "from_dict")
    mp = mk("param", [a.arg for a in ds[0][1].args.args if a.arg not in ("cls", "self")][0])
    K = lambda k: mk("key", mp, k, mk("null"))
    native = set(L.B.classes["freud._locality.QueryArgs"].methods) - {"__init__"}
    ctx.ob(native == set(Q.defaults), "A1", "native QueryArgs fields", "bound fields %s differ from the native fields %s" % (sorted(native), sorted(Q.defaults)), f, l)
    for k in sorted(native):
        for m in L.B.classes["freud._locality.QueryArgs"].methods[k]:
            ctx.ob(getattr(m, "field", k) in (None, k), "A1", "native QueryArgs.%s" % k, "bound to field %s" % getattr(m, "field", None), f, l)
    sets = {}
    for e in E.events:
        if e.kind == "setattr" and isinstance(e.target, T) and e.target.op == "nat":
            sets.setdefault(e.place, []).append(e)
    for k in sorted(native - {"mode"}):
        es = sets.get(k, [])
        good = []
        for e in es:
            g = own(e.guards)
            ok = iskey(e.value, mp, k) and all(isnone(t, mp, k) and not p or raised(t, p, mp) for t, p in g)
            good.append(ok)
            ctx.ob(ok, "A1", "query argument %s" % k, "native %s gets %s when %s" % (k, show(e.value, 5), [(show(t, 4), p) for t, p in g]), e.file or f, e.line)
        ctx.ob(any(good), "A1", "query argument %s stored" % k, "the value given for '%s' never reaches the native query arguments" % k, f, l)
    # mode
    ms = sets.get("mode", [])
    for x in MODES:
        es = [e for e in ms if e.value.op == "native" and e.value.a[0].endswith("QueryType." + x)]
        ctx.ob(bool(es), "A2", "mode '%s'" % x, "no path selects native mode %s" % x, f, l)
        for e in es:
            lits = {y.a[0] for t, p in own(e.guards) if p for y in walk(t) if islit(y) and isinstance(y.a[0], str)}
            ctx.ob(lits == {x} or not lits and x == "none", "A2", "mode '%s' condition" % x, "native mode %s is selected for %s" % (x, sorted(lits)), e.file or f, e.line)
    raises = [e for e in E.events if e.kind == "raise"]
    neg = [{y.a[0] for t, p in own(e.guards) if not p for y in walk(t) if islit(y) and isinstance(y.a[0], str)} for e in raises]
    ctx.ob(any(set(MODES) <= s for s in neg), "A2", "unknown mode", "an unknown mode name does not raise", f, l)
    ctx.ob(any(any(p and t.op != "imp" and anykey(t, mp) for t, p in e.guards) for e in raises), "A2", "unknown key",
           "an unknown key in the dictionary does not raise", f, l)


def anykey(t, mp):
    """True for any leftover key: not a comparison with a number other than zero."""
    xs = list(walk(t))
    return any(x.op == "restkeys" and x.a[0] is mp for x in xs) and not any(islit(x) and isinstance(x.a[0], (int, float)) and x.a[0] for x in xs)


PYO = set(p08.OP)


def iskey(v, mp, k):
    return v.op == "key" and v.a[0] is mp and v.a[1] == k or v.op == "sub" and v.a[0] is mp and islit(v.a[1]) and v.a[1].a[0] == k


def isnone(t, mp, k):
    return t.op == "op" and t.a[0] == "is" and any(x.op == "null" for x in t.a[1:]) and any(iskey(x, mp, k) for x in t.a[1:] if isinstance(x, T))


def raised(t, p, mp):
    """A guard left by an earlier raise on unknown keys or the mode (its negation continues)."""
    return any(x.op == "restkeys" for x in walk(t)) or any(x.op == "key" and x.a[1] == "mode" for x in walk(t))


def leaves(t):
    if t.op == "upd":
        return leaves(t.a[0])
    if t.op == "ite":
        return [x for y in t.a[1:] for x in leaves(y)]
    return [t]


def base(t):
    while t.op == "upd":
        t = t.a[0]
    return t


def pairs(ctx, L, Q):
    P = L.P
    n = 0
    opq = set(p08.OP) | {FROM}
    for c in P.classes():
        if c.q == QA or any(k.q == QA for k in P.mro(c)):
            continue
        for name, o, kind, node in link.public_members(P, c):
            if o is not c and kind != "method":
                continue
            if not isinstance(node, ast.FunctionDef):
                continue
            E = pyeval.Engine(P, opaque=opq, natclass=L.nat)
            try:
                s, v = E.run(c, name)
            except RecursionError:
                continue
            calls = [e for e in E.events if e.kind == "call" and (FROM in str(e.target) or isquery(e))]
            if not calls and not any(e.kind == "ncall" for e in E.events):
                continue
            ps = [a.arg for a in node.args.args + node.args.kwonlyargs]
            f = o.mod.path.replace(link_repo(), "")
            raw = any(k.q == "freud.locality.NeighborQuery" for k in P.mro(c)) and "query_args" in ps
            muts = [e for e in E.events if e.kind in ("mut", "setitem", "aug", "delitem") and isinstance(e.target if e.kind == "mut" else e.target, T)]
            for e in calls:
                arg = [a for a in e.args if not (a.op == "cls")]
                if isquery(e):
                    arg = arg[1:]
                if not arg:
                    continue
                n += 1
                what = "%s.%s" % (c.q, name)
                for lf in leaves(arg[0]):
                    b = base(lf)
                    if b.op in ("null", "undef"):     # default_query_args raised: no query is made
                        continue
                    if raw:
                        ctx.ob(arg[0] is mk("param", "query_args"), "A3", what, "the caller's dictionary is replaced by %s" % show(lf, 4), e.file or f, e.line)
                        continue
                    fresh = b.op == "dict" or b.op == "copyof" and b.a[0].op == "param"
                    ctx.ob(fresh, "A3", what + " dictionary", "the query arguments are %s, neither a fresh default dictionary nor a copy of the caller's" % show(lf, 4), e.file or f, e.line)
                    if not fresh:
                        continue
                    fills(ctx, E, e, b, lf, ps, what, f)
            if calls:
                late = [e for e in E.events if e.kind in ("setattr", "aug") and isinstance(e.target, T) and made(e.target)]
                for e in late:
                    ctx.fail("A5", "%s.%s changes %s" % (c.q, name, e.place), "'%s' of the query arguments is set to %s after they were made from the dictionary" % (e.place, show(e.value, 4) if isinstance(e.value, T) else "another value"), e.file or f, e.line)
                if not late:
                    ctx.ob(True, "A5", "%s.%s leaves the query arguments alone" % (c.q, name), "", f, node.lineno)
                # anything that is neither None, a dict nor a neighbor list is refused
                if "neighbors" in ps and any(FROM in str(e.target) for e in calls) and any(k.name == "_PairCompute" for k in P.mro(c)):
                    rs = [e for e in E.events if e.kind == "raise" and refuses(e)]
                    ctx.ob(bool(rs), "A2", "%s.%s neighbors type" % (c.q, name), "a value of another type for 'neighbors' is not refused", f, node.lineno)
            natives(ctx, L, E, c, name, f, ps)
    ctx.need(n, 15, "pair computations building query arguments")


def made(t):
    """Query arguments made from a dictionary (or their native object)."""
    while t.op == "attr" and t.a[1] == "_cpp_obj":
        t = t.a[0]
    return any(x.op == "call" and isinstance(x.a[0], T) and x.a[0].op == "opq" and FROM in str(x.a[0].a[0]) for x in leaves(t))


def isquery(e):
    """nq.query(points, dictionary) on a query engine."""
    t = e.target
    return isinstance(t, T) and t.op == "attr" and t.a[1] == "query" and len(e.args or ()) == 2 and base(leaves(e.args[1])[0]).op in ("dict", "copyof", "param", "bi", "attr", "ite")


def refuses(e):
    pn = mk("param", "neighbors")
    neg = [t for t, p in e.guards if not p]
    pos_ = [t for t, p in e.guards if p]
    iscls = any(any("NeighborList" in str(x.a[0]) for x in walk(t) if x.op == "cls") and any(x is pn for x in walk(t)) for t in neg)
    isdict = any(any(x.op == "bi" and x.a[0] == "dict" or "dict" in str(x.a[:1]) for x in walk(t)) for t in neg)
    return iscls and isdict


def fills(ctx, E, call, b, lf, ps, what, f):
    """Every change made to the dictionary before it is used fills in a missing exclude_ii."""
    want = mk("op", "is", mk("param", "query_points"), mk("null")) if "query_points" in ps else lit(True)
    got = []
    for e in E.events:
        if e is call:
            break
        tgt = e.target if isinstance(e.target, T) else e.place if isinstance(e.place, T) else None
        if e.kind not in ("mut", "setitem", "aug", "delitem", "setattr") or tgt is None or not any(base(x) is b for x in leaves(tgt)):
            continue
        if e.kind == "mut" and e.place == "setdefault" and e.args and islit(e.args[0]):
            got.append((e.args[0].a[0], e.args[1] if len(e.args) > 1 else mk("null"), e, True))
        elif e.kind == "setitem":
            k = e.place if isinstance(e.place, T) else e.args[0] if e.args else None
            absent = any(not p and t.op == "op" and t.a[0] == "in" for t, p in e.guards)
            got.append((k.a[0] if k is not None and islit(k) else "?", e.value, e, absent))
        else:
            ctx.fail("A3", what + " changes query arguments", "%s %s changes the dictionary before it is used" % (e.kind, e.place), e.file or f, e.line)
    for k, v, e, cond in got:
        ok = k == "exclude_ii" and (v is want) and cond
        ctx.ob(ok, "A3", "%s sets %s" % (what, k), "'%s' is %s to %s; only a missing exclude_ii may be filled in, with %s" % (k, "defaulted" if cond else "forced", show(v, 4), show(want, 3)), e.file or f, e.line)
    if b.op == "dict" and any(k is None for k, v in pairsof(b)):
        # a literal that takes over the caller's keys
        before = True
        for k, v in pairsof(b):
            if k is None:
                before = False
                continue
            k = k.a[0] if isinstance(k, T) and islit(k) else k
            ctx.ob(before and k == "exclude_ii" and v is want, "A3", "%s sets %s" % (what, k), "'%s' is %s to %s; only a missing exclude_ii may be filled in, with %s" % (k, "defaulted" if before else "forced", show(v, 4), show(want, 3)), call.file or f, call.line)
    inside = b.op == "dict" and any((k.a[0] if isinstance(k, T) and islit(k) else k) == "exclude_ii" and v is want for k, v in pairsof(b))
    ctx.ob(any(k == "exclude_ii" for k, v, e, c in got) or inside, "A3", what + " exclude_ii default",
           "exclude_ii is not defaulted to (query_points is None) for %s" % show(b, 3), call.file or f, call.line)


def pairsof(d):
    for x in d.a:
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and len(y) == 2:
                    yield y


def natives(ctx, L, E, c, name, f, ps):
    """Native parameters of type QueryArgs get the arguments made from the dictionary."""
    for e in E.events:
        if e.kind != "ncall":
            continue
        for q, m in p07.targets(L, c, e):
            fn = L.F.fns.get(m.fnid) if m.fnid else None
            if fn is None:
                continue
            a = p07.bindargs(m, e)
            if not a:
                continue
            for p in fn.get("ps") or []:
                if "QueryArgs" not in p["t"] or p["n"] not in a:
                    continue
                for v in leaves(a[p["n"]]):
                    ok = v.op == "attr" and v.a[1] == "_cpp_obj" and (any(FROM in str(x.a[0]) for x in walk(v) if x.op == "opq") or v.a[0].op in ("attr", "new", "param")) \
                        or v.op == "nat" and v.a[0].endswith(".QueryArgs") or any(x.op == "opq" and FROM in str(x.a[0]) for x in walk(v))
                    ctx.ob(ok, "A5", "%s.%s -> %s(%s)" % (c.q, name, e.target.split(".")[-1], p["n"]), "native query arguments are %s" % show(v, 5), e.file or f, e.line)
            break


# ---------------------------------------------------------------- defaults
def defaults(ctx, L, Q):
    P = L.P
    n = 0
    for c in P.classes():
        o, ds = P.find(c, "default_query_args")
        if not o:
            continue
        E = pyeval.Engine(P, opaque=p08.OP, natclass=L.nat)
        s, v = E.run(c, "default_query_args")
        if v is None or v.op == "null":
            continue
        f, l = o.mod.path.replace(link_repo(), ""), ds[0][1].lineno
        n += 1
        for lf in leaves(v):
            if lf.op != "dict" and base(lf).op != "dict":
                if lf.op in ("undef",):
                    continue
                ctx.fail("A4", "%s.default_query_args" % c.q, "the defaults are %s, which calls share, not a fresh dictionary" % show(lf, 4), f, l)
                continue
            d = {(k.a[0] if isinstance(k, T) and islit(k) else k): x for k, x in pairsof(base(lf))}
            bad = set(map(str, d)) - set(Q.defaults)
            ctx.ob(not bad, "A4", "%s default keys" % c.q, "unknown keys %s" % sorted(bad), f, l)
            m = d.get("mode")
            if m is not None and islit(m):
                want = expected(m.a[0], "num_neighbors" in d, "r_max" in d)
                ctx.ob(want is not None, "A4", "%s default mode" % c.q, "the default arguments %s are not a valid query" % sorted(d), f, l)
            doc = docdict(ast.get_docstring(ds[0][1]) or "")
            if doc is not None:
                compare(ctx, L, E, c, d, doc, f, l)
    ctx.need(n, 5, "classes with default query arguments")


def docdict(text):
    import re
    m = re.search(r"`+(\{.*?\})`+", text, re.S)
    if not m:
        return None
    try:
        t = ast.parse(" ".join(m.group(1).split()), mode="eval").body
    except SyntaxError:
        return None
    return t if isinstance(t, ast.Dict) else None


def compare(ctx, L, E, c, d, doc, f, l):
    dk = {k.value for k in doc.keys if isinstance(k, ast.Constant)}
    ctx.ob(dk == set(d), "A4", "%s documented defaults" % c.q, "documented keys %s, actual %s" % (sorted(dk), sorted(d)), f, l)
    for k, x in zip(doc.keys, doc.values):
        if not isinstance(k, ast.Constant) or k.value not in d:
            continue
        w = docvalue(L, c, x)
        if w is None:
            continue
        ctx.ob(eq(w, d[k.value]), "A4", "%s default %s" % (c.q, k.value), "documented %s, actual %s" % (ast.unparse(x), show(d[k.value], 5)), f, l)


def docvalue(L, c, x):
    if isinstance(x, ast.Constant):
        return lit(x.value)
    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
        o, ds = L.P.find(c, x.attr)
        if o and ds[0][0] in ("property", "computed"):
            E = pyeval.Engine(L.P, opaque=p08.OP, natclass=L.nat)
            return E.run(c, x.attr)[1]
        return mk("attr", mk("self", c), x.attr)
    if isinstance(x, ast.BinOp):
        a, b = docvalue(L, c, x.left), docvalue(L, c, x.right)
        o = {ast.Add: "+", ast.Mult: "*", ast.Sub: "-", ast.Div: "/"}.get(type(x.op))
        if a is None or b is None or o is None:
            return None
        return mk("op", o, a, b)
    return None


def eq(a, b):
    if a is b:
        return True
    if islit(a) and islit(b):
        return a.a[0] == b.a[0]
    if a.op == b.op == "op" and a.a[0] == b.a[0] and len(a.a) == 3 and len(b.a) == 3:
        if eq(a.a[1], b.a[1]) and eq(a.a[2], b.a[2]):
            return True
        return a.a[0] in "+*" and eq(a.a[1], b.a[2]) and eq(a.a[2], b.a[1])
    return False


# ---------------------------------------------------------------- query results
def result(ctx, L):
    P = L.P
    cs = [k for k in P.classes() if k.q == "freud.locality.NeighborQueryResult"]
    if not cs:
        return
    c = cs[0]
    f = c.mod.path.replace(link_repo(), "")
    me = mk("self", c)
    for name in ("__iter__", "toNeighborList"):
        o, ds = P.find(c, name)
        if not o:
            continue
        E = pyeval.Engine(P, opaque=p08.OP, natclass=L.nat)
        E.run(c, name)
        node = ds[0][1]
        qs = [e for e in E.events if e.kind == "ncall" and e.target.split(".")[-1] == "query"]
        ctx.ob(bool(qs), "A5", "%s.%s" % (c.q, name), "no native query is made", f, node.lineno)
        for e in qs:
            ok = len(e.args) == 2 and e.args[0] is mk("attr", me, "_points") and e.args[1] is mk("attr", mk("attr", me, "_query_args"), "_cpp_obj")
            ctx.ob(ok, "A5", "%s.%s query" % (c.q, name), "the native query gets %s" % [show(a, 4) for a in e.args], e.file or f, e.line)
        if name == "toNeighborList":
            for e in E.events:
                if e.kind == "ncall" and e.target.split(".")[-1] == "toNeighborList":
                    p = [a.arg for a in node.args.args[1:]]
                    vals = list(e.args) + [v for _, v in e.kw or ()]
                    ctx.ob(len(vals) == 1 and p and vals[0] is mk("param", p[0]), "A5", "%s.toNeighborList(%s)" % (c.q, p and p[0]),
                           "the sort flag becomes %s" % [show(v, 3) for v in vals], e.file or f, e.line)
