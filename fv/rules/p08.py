"""Alias and effect analysis of everything the user passes in. Python: every public method, property and function is
evaluated abstractly; the values that may share memory or identity with a parameter (through views, slices, asarray-like
conversions, attributes, selection, storage on the object) are tracked, and item assignments, augmented assignments,
in-place methods, attribute assignments, `out=` arguments, mutable native array arguments and mutating methods applied to
them are violations, except for the documented `out` argument. Native: in every bound function no store or mutating call
reaches a const array argument or an object argument other than the one the method is called on."""
import ast
from ..terms import T, mk, walk, root, show, islit
from .. import cxx, pyeval, core
from ..link import Link, PYOPAQUE
from ..pyarr import CONV, fname, kwargs
from ..pyfacts import PLOT
from ..shared import OPAQUE, entries, simple, placename, owner_fn
from ..spaces import dataparams

OP = PYOPAQUE | {CONV}
# numpy functions whose result may be (a view of) an argument
VIEW = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "require", "reshape", "squeeze",
        "ravel", "transpose", "broadcast_to", "swapaxes", "expand_dims", "moveaxis", "split", "array_split", "diagonal", "flip", "real", "imag"}
VIEWM = {"reshape", "view", "ravel", "squeeze", "transpose", "swapaxes", "diagonal", "flatten_", "setdefault", "get", "pop", "items", "values", "keys", "__iter__"}
VIEWA = None   # any attribute of a parameter belongs to it
# numpy functions that write into their first argument
WRITE = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle"}
FRESHM = {"copy", "astype", "tolist", "flatten", "sum", "mean", "max", "min", "dot", "conj", "item"}
MUTK = {"store", "append", "insert", "resize", "clear", "assign", "erase", "pop_back", "push_front", "pop_front", "sort"}
COP = OPAQUE | {"freud::locality::makeDefaultNlist"}


class Alias:
    def __init__(self, own=None):
        self.own = own      # attribute of self -> value held after construction
        self.memo = {}

    def of(self, t, depth=0):
        """Names of the parameters t may share memory or identity with."""
        if not isinstance(t, T) or depth > 14:
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        r = frozenset(self.of1(t, depth + 1))
        self.memo[t] = r
        return r

    def of1(self, t, d):
        o = t.op
        if o == "param":
            return {str(t.a[0])}
        if o == "attr":
            if t.a[0].op == "self":
                v = self.own(t.a[1]) if self.own else None
                return {"(constructor) " + x if not x.startswith("(") else x for x in self.of(v, d)} if v is not None else ()
            if t.a[1] in ("shape", "size", "ndim", "dtype", "nbytes"):
                return ()
            return self.of(t.a[0], d)
        if o == "sub":
            return self.of(t.a[0], d) if isview(t.a[1]) else ()
        if o == "ite":
            return self.of(t.a[1], d) | self.of(t.a[2], d)
        if o in ("hv", "ho", "amb"):
            out = set()
            for x in t.a:
                if isinstance(x, T):
                    out |= self.of(x, d)
            return out
        if o == "upd":
            return self.of(t.a[0], d)
        if o in ("elem", "iter", "item", "unpack"):
            return self.of(t.a[0], d) if isinstance(t.a[0], T) else ()
        if o == "call":
            f = t.a[0]
            n = fname(t)
            args = t.a[1] if len(t.a) > 1 else ()
            if n == CONV:
                return self.of(args[0], d) if args else ()
            if n and n.startswith("numpy."):
                m = n.split(".")[-1]
                if m in VIEW:
                    src = args[:1] or tuple(v for k, v in kwargs(t).items() if k == "a")
                    return self.of(src[0], d) if src else ()
                if m == "array":
                    c = kwargs(t).get("copy")
                    return self.of(args[0], d) if args and c is not None and not (islit(c) and c.a[0] is True) else ()
                return ()
            if n in PYOPAQUE and args:
                # may hand back the very object it was given
                out = set()
                for x in args:
                    out |= self.of(x, d)
                return out
            if f.op == "attr":
                if f.a[1] == "astype":
                    c = kwargs(t).get("copy")
                    return self.of(f.a[0], d) if c is not None and islit(c) and c.a[0] is False else ()
                if f.a[1] in VIEWM:
                    return self.of(f.a[0], d)
            return ()
        if o == "boolop" or o == "or" or o == "op" and t.a[0] in ("or", "and"):
            out = set()
            for x in t.a:
                if isinstance(x, T):
                    out |= self.of(x, d)
            return out
        return ()


def isview(k):
    """Does indexing with k give a view (or an element of a container) rather than a copy?"""
    if k.op in ("slice",) or islit(k) or k.op == "null":
        return True
    if k.op == "tuple":
        return all(isview(x) for x in k.a[0])
    if k.op == "param" or k.op in ("hv", "lv", "elem", "loop"):
        return True
    return k.op == "ext"     # np.newaxis, Ellipsis


def check(ctx):
    ctx.rule("R1: Python code never changes in place anything that may be (part of) a parameter; conversions that may return their argument are not copies")
    ctx.rule("R2: arrays passed to native parameters that native code may write are freshly created (or the documented out argument)")
    ctx.rule("R3: methods that change an object are only called on self or on newly created objects")
    ctx.rule("R4: bound native functions write only to the object they are called on and to non-const array arguments")
    L = Link(ctx)
    mutn = native(ctx, L)
    python(ctx, L, mutn)


# ------------------------------------------------------------------ native side
def native(ctx, L):
    """Checks bound functions; returns the native methods that change their object: set of 'module.Class.method'."""
    caches = set()
    for name in ("getSegments", "getCounts"):
        for i in L.F.byname.get("freud::locality::NeighborList::" + name, []):
            E = cxx.Engine(L.F, opaque=COP)
            E.run(i)
            caches |= {fieldof(e.place) for e in E.events if e.kind in MUTK and e.place is not None}
    caches.discard(None)
    mut = set()
    n = 0
    for q, c in sorted(L.B.classes.items()):
        for name, ms in sorted(c.methods.items(), key=lambda x: str(x[0])):
            for m in ms:
                if not m.fnid or m.fnid not in L.F.fns:
                    continue
                n += 1
                if bound(ctx, L, q, c, name, m, caches) and name != "__init__":
                    mut.add("%s.%s" % (q, name))
    for q, m in sorted(L.B.funcs.items()):
        if m.fnid and m.fnid in L.F.fns:
            n += 1
            bound(ctx, L, q, None, "", m, caches)
    ctx.need(n, 150, "bound native functions")
    # functions reached only through virtual calls or other library functions: what they take by shared pointer to a
    # neighbor list or query, or through a pointer or reference to const, belongs to the caller
    k = 0
    for i in entries(L.F):
        f = L.F.fns[i]
        ps = {p["n"] for p in f.get("ps") or [] if "shared_ptr<freud::locality::Neighbor" in p["t"] or p["t"].startswith("const ") and p["t"].rstrip().endswith(("*", "&"))
              and "ndarray" not in p["t"] and "shared_ptr" not in p["t"]}
        if not ps or "::wrap::" in i:
            continue
        k += 1
        E = cxx.Engine(L.F, opaque=COP)
        E.run(i)
        ctx.visited(E)
        bad = False
        for e in E.events:
            if e.place is None or e.op in ("hv", "ho") or e.kind not in MUTK or fieldof(e.place) in caches:
                continue
            for p in origin(e.place) & ps:
                bad = True
                ctx.fail("R4", "%s argument %s" % (simple(i), p), "%s writes into what its argument %s refers to (%s)" % (simple(i), p, show(e.place, 4)), e.file, e.line)
        if not bad:
            ctx.ob(True, "R4", simple(i), "", f.get("file", ""), f.get("l", 0), sample=False)
    ctx.need(k, 40, "native functions taking arguments they must not change")
    return mut


def fieldof(p):
    while p.op in ("idx", "fld") and not (p.op == "fld" and not p.a[1].startswith("#")):
        p = p.a[0]
    if p.op == "deref" and p.a[0].op == "ld":
        return fieldof(p.a[0].a[0])
    return p.a[1] if p.op == "fld" else None


def origin(p, depth=0):
    """Parameters (names) or 'this' whose pointee contains place p."""
    if depth > 10:
        return set()
    r = root(p)
    if r.op in ("pobj",):
        return {str(r.a[0])}
    if r.op == "this":
        return {"this"}
    if r.op == "deref":
        return vorigin(r.a[0], depth + 1)
    return set()


def vorigin(v, depth):
    if depth > 10 or not isinstance(v, T):
        return set()
    if v.op == "param":
        return {str(v.a[0])}
    if v.op == "ptr":
        return origin(v.a[0], depth + 1)
    if v.op == "ld":
        return origin(v.a[0], depth + 1)
    if v.op in ("phi",):
        out = set()
        for x in v.a[1:]:
            out |= vorigin(x, depth + 1)
        return out
    if v.op in ("hv", "ho"):
        return origin(v.a[-1], depth + 1)
    if v.op == "cast":
        return vorigin(v.a[-1], depth + 1)
    if v.op == "op" and v.a[0] in ("+", "-"):
        return vorigin(v.a[1], depth + 1)
    if v.op == "get":
        return vorigin(v.a[0], depth + 1)
    if v.op == "call":
        n = simple(str(v.a[0]))
        if n.endswith("ndarray::data"):
            return vorigin(v.a[1], depth + 1) | ({str(v.a[1].a[0])} if v.a[1].op == "pobj" else set())
        if n.endswith("makeDefaultNlist"):
            return vorigin(v.a[2], depth + 1) | ({str(v.a[2].a[0])} if v.a[2].op == "pobj" else set())
        if n.split("::")[-1] in ("get", "operator*", "operator->", "static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast"):
            return vorigin(v.a[1], depth + 1)
    if v.op == "pobj":
        return {str(v.a[0])}
    return set()


def bound(ctx, L, q, c, name, m, caches):
    """One bound native function. Returns whether it changes its own object."""
    f = L.F.fns[m.fnid]
    E = cxx.Engine(L.F, opaque=COP)
    L.nrun(m.fnid, c.cxx if c else None, engine=E)
    ctx.visited(E)
    types = dict(m.params or [])
    me = {"this"}
    ps = [p["n"] for p in f.get("ps") or []]
    if ps and c is not None and len(ps) > len(m.params or []):
        me.add(ps[0])          # a free function bound as a method: its first parameter is the object
    own = False
    bad = set()
    for e in E.events:
        if e.place is None:
            continue
        if e.kind in MUTK or e.kind == "call" and (e.info or {}).get("obj") and not (e.info or {}).get("cm", True):
            if e.op in ("hv", "ho"):
                continue
            os = origin(e.place)
            if os & me and fieldof(e.place) not in caches and e.kind != "call":
                own = True
            for p in os - me:
                t = types.get(p, "")
                if "ndarray" in t and "const" not in t.split("ndarray", 1)[1].split(",")[0]:
                    continue
                if p not in types and p not in ps:
                    continue
                if fieldof(e.place) in caches or e.kind == "call" and not changes(L, e, caches):
                    continue
                if isvalue(f, p):
                    continue
                bad.add((p, e.file, e.line, show(e.place, 4)))
    con = "%s%s" % (q, "." + name if name else "")
    for p, file, line, pl in sorted(bad):
        ctx.fail("R4", "%s argument %s" % (con, p), "native code behind %s writes into its argument %s (%s)" % (con, p, pl), file, line)
    if not bad:
        ctx.ob(True, "R4", con, "", f.get("file", ""), f.get("l", 0), sample=False)
    return own


def isvalue(f, p):
    """Parameter passed by value (a copy of what the caller has)."""
    for x in f.get("ps") or []:
        if x["n"] == p:
            t = x["t"]
            return not t.endswith(("&", "*")) and "shared_ptr" not in t and "ndarray" not in t
    return False


def changes(L, e, caches):
    """May the (not inlined) member function called in e change its object?"""
    i = (e.info or {}).get("f")
    fn = L.F.fns.get(i)
    if not fn:
        return False
    E = cxx.Engine(L.F, opaque=COP)
    E.run(i)
    return any(x.kind in MUTK and x.place is not None and "this" in origin(x.place) and fieldof(x.place) not in caches for x in E.events)


# ------------------------------------------------------------------ Python side
def python(ctx, L, mutn):
    P = L.P
    n = 0
    cache = {}

    def owner(c):
        if c is None:
            return None
        if c.q not in cache:
            s = None
            if P.find(c, "__init__")[0] is not None:
                s = pyeval.Engine(P, opaque=OP, natclass=L.nat).run(c, "__init__")[0]
            cache[c.q] = s
        s = cache[c.q]
        return (lambda x: s.heap.get((mk("self", c), x))) if s is not None else None
    todo = []
    for m in P.mods.values():
        if m.name == "freud.plot":
            continue
        for fn, node in m.funcs.items():
            todo.append((m, None, fn, node, "%s.%s" % (m.name, fn), "def"))
        for c in m.classes.values():
            for name, ds in c.defs.items():
                if name in PLOT:
                    continue
                for k, d in ds:
                    if k != "attr":
                        todo.append((m, c, name, d, "%s.%s%s" % (c.q, name, ".setter" if k == "setter" else ""), k))
    evs = {}
    for m, c, name, node, q, k in todo:
        E = pyeval.Engine(P, opaque=OP, natclass=L.nat)
        if c is None:
            E.runfunc(m, node, q)
        elif k == "setter":
            ps = [x.arg for x in node.args.args]
            E.body(node, m, q, {ps[0]: mk("self", c), ps[1]: mk("param", ps[1])}, pyeval.State(), cls=c, dyn=c)
        else:
            E.run(c, name)
        ctx.fnset |= E.visited
        evs[q] = (m, c, name, node, E)
    # names of public methods that change the object they are called on
    mutm = {}
    for q, (m, c, name, node, E) in evs.items():
        if c is None or name.startswith("_") or q.endswith(".setter"):
            continue
        for e in E.events:
            me = mk("self", c)
            if e.kind == "ncall" and e.place is not None and e.place.op == "attr" and e.place.a[0] is me and nmut(L, mutn, c, e):
                mutm.setdefault(name, set()).add(c.q)
    shared = {k: v for k, v in mutm.items() if any(x.startswith(("freud.locality.NeighborList", "freud.box.Box")) or "Query" in x for x in v)}
    for q, (m, c, name, node, E) in evs.items():
        A = Alias(owner(c))
        n += 1
        bad = []
        arrays = arrayish(E, A)
        for e in E.events:
            if e.kind in ("setitem", "mut", "aug", "setattr"):
                if e.target is None or e.target.op == "self":
                    continue
                if e.kind == "aug" and (e.target.op == "param" and str(e.target.a[0]) not in arrays or e.target.op in ("lit",)):
                    continue
                al = allowed(A.of(e.target), node, e)
                for p in al:
                    what = {"setitem": "an element is assigned", "mut": "%s() changes it in place" % e.place, "aug": "augmented assignment changes it in place",
                            "setattr": "attribute %s is assigned" % e.place}[e.kind]
                    bad.append(("R1", p, what, e.line))
            elif e.kind == "call":
                t = e.value if isinstance(e.value, T) else None
                f = fname(t) if t is not None else None
                kw = dict(e.kw or ())
                if f and f.startswith("numpy."):
                    if "out" in kw:
                        for p in allowed(A.of(kw["out"]), node, e):
                            bad.append(("R1", p, "it is the out= argument of %s" % f, e.line))
                    if f.split(".")[-1] in WRITE and e.args:
                        for p in allowed(A.of(e.args[0]), node, e):
                            bad.append(("R1", p, "%s writes into it" % f, e.line))
                if t is not None and t.a[0].op == "attr" and t.a[0].a[1] in shared:
                    for p in allowed(A.of(t.a[0].a[0]), node, e):
                        if not p.startswith("self"):
                            bad.append(("R3", p, "%s() changes it" % t.a[0].a[1], e.line))
            elif e.kind == "ncall":
                if e.place is not None and e.place.op == "attr" and e.place.a[0].op != "self" and nmut(L, mutn, c, e):
                    for p in allowed(A.of(e.place.a[0]), node, e):
                        bad.append(("R3", p, "native %s changes it" % e.target, e.line))
                from .p07 import targets, bindargs
                for nq, mm in targets(L, c, e):
                    args = bindargs(mm, e)
                    for pn, t in mm.params or []:
                        if args and pn in args and "ndarray" in t and "const" not in t.split("ndarray", 1)[1].split(",")[0] and nwrites(L, nq, mm, pn):
                            for p in allowed(A.of(args[pn]), node, e):
                                bad.append(("R2", p, "it is passed as writable '%s' to %s" % (pn, e.target), e.line))
        for r, p, what, line in bad:
            ctx.fail(r, "%s %s" % (q, p), "argument %s is modified: %s" % (p, what), "freud/%s.py" % m.name.split(".")[-1], line)
        if not bad:
            ctx.ob(True, "R1", q, "", "freud/%s.py" % m.name.split(".")[-1], node.lineno)
    ctx.need(n, 200, "Python functions")


def allowed(al, node, e):
    return {p for p in al if p.split(" ")[-1].lstrip("*") not in ("out", "ax", "self", "cls")}


def arrayish(E, A):
    """Parameters that are used as arrays somewhere in the function."""
    out = set()
    for e in E.events:
        ts = list(e.args or ()) + [v for _, v in e.kw or ()] + ([e.value] if isinstance(e.value, T) else []) + ([e.target] if isinstance(e.target, T) else [])
        for t in ts:
            for x in walk(t):
                if x.op == "sub" and x.a[0].op == "param":
                    out.add(str(x.a[0].a[0]))
                elif x.op == "attr" and x.a[0].op == "param" and x.a[1] in ("shape", "size", "ndim", "dtype", "T"):
                    out.add(str(x.a[0].a[0]))
                elif x.op == "call" and len(x.a) > 1 and isinstance(x.a[1], tuple) and x.a[1] and isinstance(x.a[1][0], T) and x.a[1][0].op == "param":
                    f = fname(x)
                    if f and (f == CONV or f.startswith("numpy.") or f == "len"):
                        out.add(str(x.a[1][0].a[0]))
    return out


_nw = {}


def nwrites(L, q, m, p):
    """Does native code write into array parameter p?"""
    k = (m.fnid, p)
    if k not in _nw:
        E = cxx.Engine(L.F, opaque=COP)
        L.nrun(m.fnid, L.B.classes[q].cxx if q in L.B.classes else None, engine=E)
        _nw[k] = any(e.kind in MUTK and e.place is not None and e.op not in ("hv", "ho") and p in origin(e.place) for e in E.events)
    return _nw[k]


def nmut(L, mutn, c, e):
    q, m = e.target.rsplit(".", 1)
    if e.target in mutn:
        return True
    k = L.native_of(c) if c is not None else None
    for b in L.B.mro(q) if hasattr(L.B, "mro") and q in L.B.classes else []:
        if "%s.%s" % (b if isinstance(b, str) else b.q, m) in mutn:
            return True
    if q == "?":       # an object of unknown class: anything a neighbor list, box or query would change
        return any(x.rsplit(".", 1)[1] == m for x in mutn if any(w in x for w in ("NeighborList", "Box", "Query")) or x.rsplit(".", 1)[0] == k)
    return False
