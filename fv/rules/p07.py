"""Shape and length obligations of every array that crosses from Python into native code. Native side: every access to an
array parameter of a bound function is found by abstract evaluation of the function (through lambdas, parallel loops and
neighbor loops), and its index is typed with the numbering it comes from (points, query points, rows of another array).
Python side: for every call of the bound function the term of each array argument gives its length (from the shape it is
checked against, the array it is copied from, or the length it is created with) under every combination of the branch
conditions; the length must equal the extent the native code indexes it by. The checking function itself is analysed too."""
import re
from ..terms import T, mk, walk, root, show, islit
from ..shared import OPAQUE, simple
from .. import link, pyeval, cxx, spaces, pyarr
from ..pyfacts import PLOT

OP = link.PYOPAQUE | {pyarr.CONV, "freud.locality._PairCompute._resolve_neighbors"}
COPAQUE = OPAQUE | {"freud::locality::makeDefaultNlist"}


def check(ctx):
    ctx.rule("R0: the array checking function raises on a wrong number of dimensions and on any wrong dimension, and returns the array it checked")
    ctx.rule("R1: array parameters of bound functions carry their full shape; data viewed as 3- or 4-component elements comes from arrays with that last dimension")
    ctx.rule("R2: an array indexed natively by another extent than its own length has exactly that length at every call")
    ctx.rule("R3: a native object that keeps an array keeps that array's own length with it")
    L = link.Link(ctx)
    S = spaces.Spaces(L)
    conv(ctx, L)
    need = natives(ctx, L, S)
    calls(ctx, L, S, need)


# ------------------------------------------------------------------ the checking function
def conv(ctx, L):
    mod = L.P.mods["freud.util"]
    node = mod.funcs.get("_convert_array")
    if node is None:
        return
    E = pyeval.Engine(L.P, opaque=link.PYOPAQUE, natclass=L.nat)
    E.runfunc(mod, node, pyarr.CONV)
    f = "freud/util.py"
    rets = [e for e in E.events if e.kind == "return" and e.value is not None and not given(e.guards, "array", True)]
    ctx.ob(bool(rets), "R0", "_convert_array returns", "no return for a given array", f, node.lineno)
    for e in rets:
        v = e.value
        ok = any(x.op == "param" and x.a[0] == "array" for x in walk(v)) and \
            any(pyarr.fname(x) in ("numpy.require", "numpy.asarray", "numpy.ascontiguousarray", "numpy.array") for x in walk(v))
        ctx.ob(ok, "R0", "_convert_array converts", "returns %s, not the converted array" % show(v, 4), f, e.line)
    raises = [e for e in E.events if e.kind == "raise"]
    nd = [e for e in raises if any(isndim(g, p) for g, p in e.guards)]
    el = [e for e in raises if any(iselem(g, p) for g, p in e.guards)]
    ctx.ob(bool(nd), "R0", "_convert_array ndim", "no error when the number of dimensions differs from the expected shape's", f, node.lineno)
    ctx.ob(bool(el), "R0", "_convert_array shape", "no error when a dimension differs from the expected one", f, node.lineno)
    for e in nd + el:
        for g, p in e.guards:
            if isndim(g, p) or isndim(g, not p) or iselem(g, p) or allowed(g):
                continue
            ctx.fail("R0", "_convert_array condition", "the shape error depends on another condition: %s is %s" % (show(g, 4), p), f, e.line)


def given(guards, name, pol):
    return any(p == pol and g.op == "op" and g.a[0] == "is" and g.a[1].op == "param" and g.a[1].a[0] == name and g.a[2].op == "null" for g, p in guards)


def mentions(t, name):
    return any(x.op == "param" and x.a[0] == name for x in walk(t))


def cmp(g, p):
    """The operands of an inequality test, or None."""
    while g.op == "op" and g.a[0] == "not":
        g, p = g.a[1], not p
    if g.op == "op" and len(g.a) == 3 and ((g.a[0] == "==" and not p) or (g.a[0] == "!=" and p)):
        return g.a[1], g.a[2]
    return None


def isndim(g, p):
    c = cmp(g, p)
    if not c:
        return False

    def nd(x):
        return (x.op == "attr" and x.a[1] == "ndim" and mentions(x, "array")) or \
            (pyarr.fname(x) == "len" and x.a[1][0].op == "attr" and x.a[1][0].a[1] == "shape" and mentions(x, "array"))

    def ls(x):
        return pyarr.fname(x) == "len" and x.a[1][0].op == "param" and x.a[1][0].a[0] == "shape"
    return (nd(c[0]) and ls(c[1])) or (nd(c[1]) and ls(c[0]))


def iselem(g, p):
    for x in walk(g):
        for q in (True, False):
            c = cmp(x, q)
            if not c:
                continue
            if x is not g and x.op != "op":
                continue
            if x is g and q != p:
                continue
            a, b = c

            def want(y):
                return y.op in ("elt", "sub") and mentions(y, "shape") and not any(z.op == "attr" and z.a[1] == "shape" for z in walk(y))

            def have(y):
                return y.op in ("elt", "sub") and any(z.op == "attr" and z.a[1] == "shape" for z in walk(y)) and mentions(y, "array")
            if (want(a) and have(b)) or (want(b) and have(a)):
                y = a if have(a) else b
                if y.op == "sub" and islit(y.a[1]):
                    return False
                return True
    return False


def allowed(g):
    """Conditions the shape error may depend on: array or shape given, copies allowed, the dimension unconstrained."""
    if g.op == "imp":
        return all(allowed(x) for x in g.a)
    while g.op == "op" and g.a[0] == "not":
        g = g.a[1]
    if g.op == "op" and g.a[0] in ("and", "or"):
        return all(allowed(x) for x in g.a[1:])
    if mentions(g, "allow_copy"):
        return True
    if g.op == "op" and g.a[0] in ("is", "is not") and g.a[2].op in ("null", "call", "param"):
        return True
    if g.op == "op" and g.a[0] in ("==", "!=") and any(pyarr.fname(x) == "numpy.require" for x in walk(g)):
        return isndim(g, True) or isndim(g, False) or iselem(g, True) or iselem(g, False)
    return g.op == "param" and g.a[0] in ("allow_copy",)


# ------------------------------------------------------------------ native side
def natives(ctx, L, S):
    """native function id -> {parameter: {space tokens}} of accesses."""
    need = {}
    n = 0
    undecided = 0
    for q, c in sorted(L.B.classes.items()):
        for name, ms in c.methods.items():
            for m in ms:
                ps = [p for p in m.params or [] if "ndarray" in p[1]]
                if not ps or not m.fnid or m.fnid in need:
                    continue
                r = need[m.fnid] = {}
                E = cxx.Engine(L.F, opaque=COPAQUE, accesses=True)
                _, s, _ = L.nrun(m.fnid, c.cxx, engine=E)
                ctx.visited(E)
                for e, p, ix in spaces.accesses(E):
                    toks = S.of(E, ix[0])
                    if spaces.ANY in toks:
                        undecided += 1
                    eq = equal(S, E, e.guards)
                    for t in toks:
                        if t not in (spaces.ANY, "const") and frozenset((t, ("N", p))) not in eq:
                            r.setdefault(p, {}).setdefault(t, (e.file, e.line))
                    n += 1
                for lp, p, toks in spaces.walkers(E, S):
                    for t in toks:
                        if t not in (spaces.ANY, "const"):
                            r.setdefault(p, {}).setdefault(t, (E.loops[lp].get("file", ""), E.loops[lp].get("line", 0)))
                            n += 1
                # a pointer handed on together with a count
                for e in E.events:
                    if e.kind not in ("call", "callback") or e.value is None or e.value.op != "ilist":
                        continue
                    xs = e.value.a
                    for a, b in zip(xs, xs[1:]):
                        for p in spaces.dataparams(a):
                            for t in S.extent(E, b):
                                if isinstance(t, tuple) and t[0] in ("N", "param") or t in (spaces.P, spaces.Q):
                                    r.setdefault(p, {}).setdefault(t, (e.file, e.line))
                for p, t in ps:
                    dims = shape(t)
                    ctx.ob(bool(dims), "R1", "%s.%s %s" % (q, name, p), "array parameter '%s' of %s accepts any shape (%s)" % (p, simple(m.fnid), t), loc(L, m)[0], loc(L, m)[1])
                casts(ctx, L, m, q, name, ps)
                stored(ctx, L, S, E, m, q, name)
    ctx.cov["accesses"] = n
    ctx.cov["accesses_undecided"] = undecided
    ctx.need(n, 60, "native accesses to array parameters")
    return need


def equal(S, E, guards):
    """Extents the native code itself has compared and found equal on this path."""
    out = set()
    for g, pol in guards:
        for y, q in spaces.conds(g, pol):
            if y.op == "op" and len(y.a) == 3 and (y.a[0] == "==" and q or y.a[0] == "!=" and not q):
                for a in S.extent(E, y.a[1]):
                    for b in S.extent(E, y.a[2]):
                        out.add(frozenset((a, b)))
    return out


def loc(L, m):
    f = L.F.fns.get(m.fnid) or {}
    return f.get("file", ""), f.get("line", f.get("l", 0))


def shape(t):
    m = re.search(r"shape<([^<>]*)>", t)
    if not m:
        return None
    return [int(x) for x in m.group(1).split(",") if x.strip()]


SIZES = {"vec3": 3, "quat": 4, "vec2": 2}


def casts(ctx, L, m, q, name, ps):
    """reinterpret_cast of a parameter's data to a pointer to multi-component elements."""
    f = L.F.fns.get(m.fnid) or {}
    dims = {p: shape(t) or [] for p, t in ps}

    def rec(n):
        if isinstance(n, dict):
            if n.get("k") in ("cast", "rcast") or "cast" in str(n.get("c", "")) or n.get("k") == "reint":
                t = n.get("t") or ""
                k = re.match(r"(?:const )?(?:freud::util::)?(vec3|quat|vec2)<", t.strip())
                inner = n.get("e")
                if k and inner is not None and t.rstrip().endswith("*"):
                    for p in names(inner):
                        if p in dims:
                            ok = len(dims[p]) >= 2 and dims[p][-1] == SIZES[k.group(1)]
                            ctx.ob(ok, "R1", "%s.%s %s as %s" % (q, name, p, k.group(1)),
                                   "array parameter '%s' of shape %s is read as elements of %d components" % (p, dims[p], SIZES[k.group(1)]),
                                   f.get("file", ""), n.get("l", 0))
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)

    def names(n):
        out = set()
        if isinstance(n, dict):
            if n.get("k") == "ref" or n.get("k") == "var":
                out.add(n.get("n"))
            for v in n.values():
                out |= names(v)
        elif isinstance(n, list):
            for v in n:
                out |= names(v)
        return out
    rec(f.get("body"))


def stored(ctx, L, S, E, m, q, name):
    """Constructors that keep the pointer keep the same array's length."""
    ptr, cnt = {}, {}
    for e in E.events:
        if e.kind == "store" and e.place is not None and e.place.op == "fld" and isinstance(e.value, T):
            ps = spaces.dataparams(e.value)
            if ps:
                ptr.setdefault(e.place.a[0], set()).update(ps)
            if e.place.a[1] in S.npoints | {"m_n_query_points", "m_num_query_points"}:
                for t in S.extent(E, e.value):
                    if isinstance(t, tuple) and t[0] == "N":
                        cnt.setdefault(e.place.a[0], []).append((t[1], e))
    for o, xs in cnt.items():
        if o in ptr:
            for p, e in xs:
                ctx.ob(p in ptr[o], "R3", "%s.%s keeps %s" % (q, name, e.place.a[1]),
                       "keeps the data of %s with the length of %s" % ("/".join(sorted(map(str, ptr[o]))), p), e.file, e.line)


# ------------------------------------------------------------------ Python side
def calls(ctx, L, S, need):
    done = set()
    nc = 0
    for c in L.P.classes():
        for name, (o, ds) in sorted(L.P.members(c).items()):
            if name in PLOT:
                continue
            if o is not c and L.nat.get(c.q) is None:
                continue
            for k, d in ds:
                if k in ("attr", "setter"):
                    continue
                E = pyeval.Engine(L.P, opaque=OP, natclass=L.nat)
                E.run(c, name)
                ctx.visited(E)
                for e in E.events:
                    if e.kind != "ncall":
                        continue
                    for q, m in targets(L, c, e):
                        if m.fnid not in need:
                            continue
                        args = bindargs(m, e)
                        if args is None:
                            continue
                        nc += 1
                        oneCall(ctx, L, S, c, o, name, e, q, m, args, need[m.fnid], done)
    ctx.need(nc, 30, "calls passing arrays to native code")


def targets(L, c, e):
    q, m = e.target.rsplit(".", 1)
    if e.place is None:
        if e.target in L.B.funcs:
            yield e.target, L.B.funcs[e.target]
        elif e.target in L.B.classes:
            for mm in L.B.classes[e.target].methods.get("__init__", []):
                yield e.target, mm
        return
    if q not in L.B.classes:
        q = L.native_of(c) or q
    if q not in L.B.classes:      # abstract Python class: the native class of one of its subclasses
        for k in L.P.classes():
            if c in L.P.mro(k) and L.nat.get(k.q) and L.method(L.nat[k.q], m):
                q = L.nat[k.q]
                break
    if q in L.B.classes:
        for mm in L.method(q, m):
            yield q, mm


def bindargs(m, e):
    ps = [p[0] for p in m.params]
    kw = dict(e.kw or ())
    if len(e.args) + len(kw) > len(ps):
        return None
    if len(e.args) + len(kw) < len(ps) and m.params and not getattr(m, "defaults", None):
        return None
    args = dict(zip(ps, e.args))
    args.update(kw)
    return args


def oneCall(ctx, L, S, c, o, name, e, q, m, args, req, done):
    types = dict(m.params)
    nq = next((args[p] for p, t in m.params if "NeighborQuery" in t and p in args and "ndarray" not in t), None)
    if nq is not None and nq.op == "attr" and nq.a[1] == "_cpp_obj":
        nq = nq.a[0]
    if nq is None and "NeighborQuery" in (L.B.classes[q].cxx if q in L.B.classes else ""):
        nq = mk("self", c)
    qp = args.get("query_points")
    for p, toks in req.items():
        a = args.get(p)
        if a is None:
            continue
        for t, (f, l) in toks.items():
            want, what = None, None
            if t == spaces.P and nq is not None:
                want, what = ("rows", mk("attr", nq, "points")), "the points"
            elif t == spaces.Q:
                if qp is not None and isarr(types.get("query_points")):
                    want, what = ("rows", qp), "the query points"
                elif nq is not None:
                    want, what = ("rows", mk("attr", nq, "points")), "the points"
            elif isinstance(t, tuple) and t[0] == "N" and t[1] != p and t[1] in args:
                want, what = ("rows", args[t[1]]), "the argument " + t[1]
            elif isinstance(t, tuple) and t[0] == "param" and t[1] in args:
                want, what = args[t[1]], "the number " + t[1]
            if t == spaces.B:
                key = (o.q, name, e.target, p, t, a)
                if key in done:
                    continue
                done.add(key)
                fixed, eqs = pyarr.facts(e.guards)
                r = pyarr.Lens(fixed, eqs).rows(a)
                ctx.ob(bonds(L, S, c, r), "R2", "%s.%s %s" % (o.q, name, p), "array passed as '%s' of %s is indexed by the bonds (%s:%s) but its length %s is not checked to be the number of bonds" % (
                    p, e.target, f, l, show(r, 5)), "freud/%s.py" % o.mod.name.split(".")[-1], e.line)
                continue
            if want is None:
                continue
            key = (o.q, name, e.target, p, t, a, want)
            if key in done:
                continue
            done.add(key)
            bad = pyarr.unequal(a, want, e.guards)
            con = "%s.%s %s" % (o.q, name, p)
            if bad:
                why = " and ".join("%s%s" % ("" if v else "not ", show(x, 3)) for x, v in bad[0].items())
                ctx.fail("R2", con, "array passed as '%s' of %s is indexed by %s (%s:%s) but its length is %s, not checked to be %s%s" % (
                    p, e.target, what, f, l, show(bad[1], 5), show(bad[2], 5), (" when " + why) if why else ""), "freud/%s.py" % o.mod.name.split(".")[-1], e.line)
            else:
                ctx.ob(True, "R2", con, "", "", e.line)


def bonds(L, S, c, r):
    """Is r the number of bonds of the neighbor list the method belongs to?"""
    if r.op == "call" and isinstance(r.a[0], T) and r.a[0].op == "attr":
        for fid in L.fns_of(L.native_of(c) or "", r.a[0].a[1]):
            E = cxx.Engine(L.F, opaque=COPAQUE)
            _, _, v = L.nrun(fid, L.cls_of(L.native_of(c)), engine=E)
            if v is not None and spaces.B in S.extent(E, v):
                return True
    if r.op == "rows":
        x = r.a[0]
        return any(y.op == "self" for y in walk(x)) and not any(y.op == "param" for y in walk(x))
    return False


def isarr(t):
    return t is not None and "ndarray" in t
