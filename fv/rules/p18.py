"""Connection analysis across Python, bindings and native code. (1) Readback: each constructor is evaluated through
Python into the bound C++ constructor, and every property named like a constructor parameter is evaluated through its
accessor on the resulting state; the value read back has to be built from exactly that parameter. (2) At every call from
Python into native code, from a binding function into the library and between library functions, an argument that stands
for one parameter of the callee is not passed in the place of another one. (3) Every parameter of a public method, of a
binding function and of a bound native constructor is used. (4) Result properties, accessors and the fields they return
carry corresponding names: a property or accessor must not return what a sibling is named for. (5) Mode names are mapped
to the native enumerator of the same name."""
import difflib, re
from ..terms import T, mk, lit, walk, islit, show
from .. import pyeval, cxx
from ..link import Link, public_members, PYOPAQUE
from ..shared import OPAQUE, simple
from ..facts import strip_targs
from ..pyfacts import PLOT
from .p22 import sources


def canon(n):
    n = n.lower().lstrip("*_")
    n = re.sub(r"^(m_)", "", n)
    n = re.sub(r"_(data|ptr|array|arr)$", "", n)
    n = re.sub(r"^(num_|n_)", "", n)
    return n.replace("_", "")


def squash(n):
    n = re.sub(r"^(get|is|m_|_)", "", n)
    n = n.replace("_", "").lower()
    return n


def snames(t):
    """Python parameters a term is built from."""
    return {s[1].lstrip("*") for s in sources(t) if s[0] == "param"}


def reducing(x):
    """A call that gives a number about its argument, not the argument."""
    return isinstance(x.a[0], T) and x.a[0].op in ("bi", "ext") and str(x.a[0].a[0]).split(".")[-1] in ("len", "size", "shape", "ndim", "max", "min", "sum", "any", "all")


def leaves(v, op, n):
    """The alternatives a value selects between."""
    if v.op == op:
        out = []
        for x in v.a[1:]:
            if isinstance(x, T):
                out += leaves(x, op, n)
        return out
    if v.op == "call" and reducing(v):
        return [v]
    if v.op == "bi" or v.op == "call" and isinstance(v.a[0], T) and v.a[0].op in ("bi", "ext") and len(v.a[1]) == 1 and not v.a[2]:
        args = v.a[1] if v.op == "call" else v.a[0] if isinstance(v.a[0], tuple) else ()
        if len(args) == 1 and isinstance(args[0], T):
            return leaves(args[0], op, n)
    return [v]


def origin(x):
    """What one alternative of an argument is, when it is a single named thing: ('name', n), ('get', getter), ('elt', sequence, i)."""
    while True:
        if x.op == "bi" and isinstance(x.a[0], tuple) and len(x.a[0]) == 1 and isinstance(x.a[0][0], T):
            x = x.a[0][0]
        elif x.op == "call" and isinstance(x.a[0], T) and x.a[0].op in ("bi", "ext") and len(x.a[1]) == 1 and not x.a[2]:
            if reducing(x):
                return None
            x = x.a[1][0]
        else:
            break
    if x.op == "param":
        return ("name", x.a[0].lstrip("*"))
    if x.op == "attr" and x.a[0].op not in ("mod", "cls", "native", "ext"):
        return ("name", x.a[1])
    if x.op in ("sub", "key") and isinstance(x.a[1], T) and islit(x.a[1]):
        i = x.a[1].a[0]
        if isinstance(i, str):
            return ("name", i)
        if isinstance(i, int) and not isinstance(i, bool) and i >= 0:
            return ("elt", x.a[0], i)
    if x.op == "key" and isinstance(x.a[1], str):
        return ("name", x.a[1])
    if x.op == "call" and isinstance(x.a[0], T) and x.a[0].op == "attr" and not x.a[1] and not x.a[2]:
        return ("get", x.a[0].a[1])
    return None


def misplaced(pairs, getters=None):
    """pairs: (callee parameter, argument). Arguments that name another parameter of the callee, or elements of one
    sequence passed out of order."""
    out = []
    names = [canon(p) for p, _ in pairs]
    seq = {}
    for i, (p, v) in enumerate(pairs):
        for x in leaves(v, "ite", 2):
            o = origin(x)
            if o is None:
                continue
            if o[0] == "elt":
                for j, (pj, k) in enumerate(seq.get(o[1], [])):
                    if k > o[2] and pj != p:
                        out.append((p, "element %d of a sequence whose element %d is passed as %s" % (o[2], k, pj)))
                        break
                seq.setdefault(o[1], []).append((p, o[2]))
                continue
            ns = {o[1]} if o[0] == "name" else (getters or {}).get(o[1], set())
            cs = {canon(n) for n in ns}
            if any(y is not x and p in snames(y) for y in leaves(v, "ite", 2)):
                continue   # a default that stands in when the argument itself is left out
            if cs and canon(p) not in cs and len(cs) == 1 and next(iter(cs)) in names:
                # ignore a source also passed in its own place (a value that legitimately serves twice)
                k = names.index(next(iter(cs)))
                if not any(origin(y) == o for y in leaves(pairs[k][1], "ite", 2)):
                    out.append((p, o[1]))
    return out


def cnames(v, names):
    out = set()
    for x in walk(v):
        if x.op in ("param", "pobj") and str(x.a[0]) in names:
            out.add(str(x.a[0]))
    return out


def iscount(n):
    return bool(re.match(r"^(\*?n_|num_|n$)", n)) or n.endswith(("_size", "_count"))


def exchanged(args, params, avail, counts=None):
    """args: list of source-name sets; params: callee names; avail: names the caller could have passed.
    Returns [(i, source, parameter)] of arguments standing for another parameter."""
    P = [canon(p) for p in params]
    A = [{canon(s) for s in a} for a in args]
    av = {canon(a) for a in avail}
    out = []
    for i, (a, p) in enumerate(zip(A, P)):
        if len(a) != 1 or p in a or not p:
            continue
        s = next(iter(a))
        cnt = counts[i] if counts is not None else None
        if cnt is not None:
            # lengths only compare with lengths, data only with data
            if cnt != iscount(params[i]) or not any(canon(q) == s and iscount(q) == cnt for q in params):
                continue
        if s in P and P.count(s) >= 1 and p in av:
            out.append((i, s, params[i]))
    return out


# both sets of points play the same part: the result is a table of all pairs' distances
SYMMETRIC = {"freud::box::Box::computeAllDistances"}


def check(ctx):
    ctx.rule("R1: a property named like a constructor parameter reads back exactly that parameter, through the native constructor and accessor")
    ctx.rule("R2: no argument is passed in the place of another parameter (Python to native, binding function to library, library to library)")
    ctx.rule("R3: no parameter of a public method, binding function or bound constructor is dropped")
    ctx.rule("R4: properties, accessors and returned fields correspond by name among their siblings")
    ctx.rule("R5: mode names map to the enumerator of the same name")
    L = Link(ctx)
    readback(ctx, L)
    pycalls(ctx, L)
    wrappers(ctx, L)
    library(ctx, L)
    names(ctx, L)
    modes(ctx, L)


# ------------------------------------------------------------------ R1
def readback(ctx, L):
    n = 0
    for c in L.P.classes():
        if c.q not in L.ctor or L.ctor[c.q][1] is None or c.name == "NeighborQuery":
            continue
        Ei, si = L.ctor[c.q]
        ctx.fnset |= Ei.visited
        o, ds = L.P.find(c, "__init__")
        file = "freud/%s.py" % o.mod.name.split(".")[-1]
        params = [x.arg for x in ds[0][1].args.args[1:] + ds[0][1].args.kwonlyargs]
        nq = L.native_of(c)
        me = mk("self", c)
        s0 = si.copy()
        s0.guards = ()
        for p in params:
            oo, dd = L.P.find(c, p)
            if oo is None or dd[0][0] not in ("property", "computed"):
                v = si.heap.get((me, p))
                if v is not None:
                    n += 1
                    src = snames(v)
                    ctx.ob(not src or p in src and src <= {p}, "R1", "%s.%s" % (c.q, p), "attribute %s is set from %s" % (p, ", ".join(sorted(src))), file, ds[0][1].lineno)
                continue
            E = L.engine()
            s, v = E.run(c, p, s=s0.copy())
            ctx.fnset |= E.visited
            if v is None:
                continue
            line = dd[0][1].lineno
            pf = "freud/%s.py" % oo.mod.name.split(".")[-1]
            alts = {frozenset(snames(x)) for x in leaves(v, "ite", 2)}
            for e in E.events:
                if e.kind != "ncall" or e.place is None or e.place.op != "nat":
                    continue
                r = L.construct(e.place.a[0], len(e.place.a[1]) + len(e.place.a[2]))
                if r is None or nq not in L.B.classes:
                    continue
                Ec, sc, this, pn = r
                args = list(e.place.a[1]) + [x for _, x in e.place.a[2]]
                val = nvalue(L, nq, e.target.rsplit(".", 1)[1], sc, this)
                if val is None:
                    continue
                for x in leaves(val, "phi", 1):
                    used = cnames(x, pn)
                    got = {frozenset()}
                    for i, nm in enumerate(pn):
                        if nm in used and i < len(args) and len(got) < 64:
                            got = {g | snames(y) for g in got for y in leaves(args[i], "ite", 2)}
                    alts |= got
            alts.discard(frozenset())
            # values taken from members of the object the parameter was turned into
            if not alts:
                for x in walk(v):
                    if x.op == "attr" and x.a[0] is me and (me, x.a[1]) in si.heap:
                        alts |= {frozenset(snames(y)) for y in leaves(si.heap[(me, x.a[1])], "ite", 2)}
            alts = {a & frozenset(params) for a in alts} - {frozenset()}
            if not alts:
                continue
            n += 1
            dep = argdeps(L, si, p, params)
            ctx.ob(any(p in a and not a - {p} - dep for a in alts), "R1", "%s.%s" % (c.q, p),
                   "property %s reads back constructor parameter %s" % (p, "/".join(sorted({"+".join(sorted(a)) for a in alts}))), pf, line)
    ctx.need(n, 30, "readback properties")


def argdeps(L, si, p, params):
    """Parameters whose defaults are computed from p (or the other way round) in the constructor."""
    out = set()
    for (o, a), v in si.heap.items():
        if a == p or a == "_" + p:
            out |= snames(v)
    return out


def nvalue(L, nq, getter, s, this):
    for f in L.fns_of(nq, getter):
        E, s2, v = L.nrun(f, L.cls_of(nq), s=s.copy(), this=this)
        L.ctx.visited(E)
        if v is None:
            continue
        if v.op == "ptr":
            try:
                v = mk("op", "pair", v, E.load(s2 or s, v.a[0]))
            except Exception:
                pass
        return v
    for m in L.method(nq, getter):
        if m.field:
            E = cxx.Engine(L.F, opaque=OPAQUE)
            return E.load(s.copy(), mk("fld", this, m.field.split("::")[-1]))
    return None


# ------------------------------------------------------------------ R2, R3 in Python
def gettermap(ctx, L):
    """Python class -> {native getter: properties reading it}."""
    out = {}
    for c in L.P.classes():
        if c.q not in L.ctor or L.ctor[c.q][1] is None:
            continue
        m = {}
        for nm, ow, k, d in public_members(L.P, c):
            if k in ("property", "computed"):
                E = L.engine()
                s = L.ctor[c.q][1].copy()
                s.guards = ()
                E.run(c, nm, s=s)
                gs = {e.target.rsplit(".", 1)[1] for e in E.events if e.kind == "ncall" and e.place is not None and len(e.stack) == 1}
                if len(gs) == 1:
                    m.setdefault(next(iter(gs)), set()).add(nm)
        out[c.q] = m
    return out


def news(ctx, L, E, where, gm):
    """Objects built by a function: arguments against the parameters of the constructor."""
    n = 0
    for e in E.events:
        if e.kind != "new" or not isinstance(e.target, T) or e.target.op != "new":
            continue
        c = e.target.a[0]
        o, ds = L.P.find(c, "__init__")
        if o is None or ds[0][0] == "attr":
            continue
        ps = [x.arg for x in ds[0][1].args.args[1:]]
        pairs = list(zip(ps, e.args or ())) + [(k, v) for k, v in e.kw or () if isinstance(k, str)]
        n += 1
        bad = misplaced(pairs, gm.get(c.q))
        for p, s in bad:
            ctx.fail("R2", "%s builds %s with %s as %s" % (where, c.q, s, p), "%s receives %s" % (p, s), e.file, e.line)
        if not bad:
            ctx.ob(True, "R2", "%s -> %s" % (where, c.q), "", e.file, e.line)
    return n


def pycalls(ctx, L):
    n = nd = 0
    gm = gettermap(ctx, L)
    for m in L.P.mods.values():
        if m.name in ("freud.plot", "freud.parallel"):
            continue
        for fn, node in m.funcs.items():
            E = pyeval.Engine(L.P, opaque=L.opaque, natclass=L.nat)
            E.runfunc(m, node, "%s.%s" % (m.name, fn))
            news(ctx, L, E, "%s.%s" % (m.name, fn), gm)
    for c in L.P.classes():
        if c.mod.name in ("freud.parallel",):
            continue
        for name, (o, ds) in sorted(L.P.members(c).items()):
            if o is not c or name in PLOT:
                continue
            for k, d in ds:
                if k in ("attr", "setter") or (name.startswith("__") and name not in ("__init__", "__getitem__")):
                    continue
                if any("NotImplementedError" in ast_unparse(x) for x in d.body[-1:]):
                    continue
                E = L.engine()
                si = L.ctor.get(c.q, (None, None))[1]
                s = si.copy() if si is not None and name not in ("__init__",) and k not in ("classmethod", "staticmethod") else pyeval.State()
                s.guards = ()
                s, v = E.run(c, name, s=s)
                ctx.fnset |= E.visited
                file = "freud/%s.py" % o.mod.name.split(".")[-1]
                params = [x.arg for x in d.args.args[(0 if k == "staticmethod" else 1):] + d.args.kwonlyargs]
                seen = set()
                if v is not None:
                    seen |= {x.a[0] for x in walk(v) if x.op == "param"}
                news(ctx, L, E, "%s.%s" % (c.q, name), gm)
                for e in E.events:
                    for t in list(e.args or ()) + [x for _, x in e.kw or ()] + [e.value, e.target, e.place] + [g for g, _ in e.guards]:
                        if isinstance(t, T):
                            seen |= {x.a[0] for x in walk(t) if x.op == "param"}
                    if e.kind == "ncall":
                        n += ncall(ctx, L, c, e, name, params)
                if s is not None:
                    for t in s.heap.values():
                        seen |= {x.a[0] for x in walk(t) if x.op == "param"}
                    for g, _ in s.guards:
                        seen |= {x.a[0] for x in walk(g) if x.op == "param"}
                if not name.startswith("_") or name in ("__init__", "__getitem__"):
                    for p in params:
                        nd += 1
                        used = p in seen or any(isinstance(x, astmod.Name) and x.id == p and isinstance(x.ctx, astmod.Load) for b in d.body for x in astmod.walk(b))
                        ctx.ob(used, "R3", "%s.%s parameter %s" % (c.q, name, p), "parameter %s is never used" % p, file, d.lineno, sample=False)
    ctx.need(n, 60, "Python-to-native calls with known parameters")
    ctx.need(nd, 150, "Python parameters")


import ast as astmod


def ast_unparse(x):
    try:
        return astmod.unparse(x)
    except Exception:
        return ""


def ncall(ctx, L, c, e, name, params):
    q, m = e.target.rsplit(".", 1)
    names = None
    if e.place is None:
        r = L.construct(e.target, len(e.args) + len(e.kw))
        names = r[3] if r else None
    else:
        q = q if q in L.B.classes else L.native_of(c)
        if q in L.B.classes:
            for mm in L.method(q, m):
                ps = [p[0] for p in mm.params]
                if len(ps) == len(e.args) + len(e.kw):
                    names = ps
    if not names or len(names) < len(e.args):
        return 0
    args = [snames(a) for a in e.args]
    stack_params = set(params)
    for i, s, p in exchanged(args, names[:len(args)], stack_params):
        ctx.fail("R2", "%s.%s passes %s as %s to %s" % (c.q, name, s, p, e.target), "argument %d of %s is %s, but the native parameter there is %s" % (i, e.target, s, p), e.file, e.line)
    for p, s in misplaced(list(zip(names, e.args)) + [(k, v) for k, v in e.kw if isinstance(k, str)]):
        ctx.fail("R2", "%s.%s passes %s as %s to %s" % (c.q, name, s, p, e.target), "native parameter %s of %s receives %s" % (p, e.target, s), e.file, e.line)
    ctx.ob(True, "R2", "%s.%s -> %s" % (c.q, name, e.target), "", e.file, e.line)
    return 1


# ------------------------------------------------------------------ R2, R3 in the bindings
def wrappers(ctx, L):
    F = L.F
    n = 0
    done = set()
    for nc in L.B.classes.values():
        for nm, ms in nc.methods.items():
            for m in ms:
                f = F.fns.get(m.fnid) if m.fnid else None
                if f is None or m.fnid in done or f.get("cls") or not f.get("body"):
                    continue
                done.add(m.fnid)
                wrapper(ctx, F, m.fnid, f)
                n += 1
    for m in L.B.funcs.values():
        f = F.fns.get(m.fnid) if m.fnid else None
        if f is not None and m.fnid not in done and f.get("body"):
            done.add(m.fnid)
            wrapper(ctx, F, m.fnid, f)
            n += 1
    # bound constructors keep every parameter
    for q, nc in sorted(L.B.classes.items()):
        for m in nc.methods.get("__init__", []):
            if m.kind != "init" or not m.init:
                continue
            r = L.construct(q, len(m.init))
            if r is None:
                continue
            E, s, this, pn = r
            used = set()
            if s is not None:
                for v in s.mem.values():
                    if isinstance(v, T):
                        used |= cnames(v, pn)
            for e in E.events:
                if e.kind in ("store", "construct", "append", "alloc", "ctor", "call") and isinstance(e.value, T):
                    used |= cnames(e.value, pn)
            for p in pn:
                ctx.ob(p in used, "R3", "%s parameter %s" % (nc.cxx, p), "constructor parameter %s is never stored" % p, "", 0)
    ctx.need(n, 40, "binding functions")


def wrapper(ctx, F, fid, f):
    E = cxx.Engine(F, noinline=lambda fn: True)
    E.run(fid)
    ctx.visited(E)
    ps = [p["n"] for p in f.get("ps") or []]
    used = set()
    short = simple(fid)
    for e in E.events:
        for t in [e.value] + [g for g, _ in e.guards] + [e.place]:
            if isinstance(t, T):
                used |= cnames(t, ps)
        if e.kind in ("call", "ctor", "construct", "alloc") and e.info is not None and isinstance(e.info, dict):
            callee = F.fns.get(e.info.get("f"))
            if callee is None or not callee.get("ps"):
                continue
            vals = list(e.value.a) if isinstance(e.value, T) and e.value.op == "ilist" else []
            args = [cnames(v, ps) for v in vals]
            cs = [any(y.op == "op" and "shape" in str(y.a[0]) or y.op in ("size", "len") for y in walk(v)) for v in vals]
            for i, s, p in exchanged(args, [q["n"] for q in callee["ps"]][:len(args)], ps, cs):
                ctx.fail("R2", "%s passes %s as %s" % (short, s, p), "argument %d of %s is %s, but the parameter there is %s" % (i, callee["id"].split("(")[0], s, p), e.file, e.line)
            ctx.ob(True, "R2", "%s -> %s" % (short, callee["id"].split("(")[0]), "", e.file, e.line)
    txt = names_in(f.get("body"))
    for p in f.get("ps") or []:
        if not p["n"] or p["n"] == "self":
            continue
        ctx.ob(p["n"] in used or p["n"] in txt, "R3", "%s parameter %s" % (short, p["n"]), "parameter %s of the binding function is never used" % p["n"], f.get("file", ""), f.get("l", 0), sample=False)


def names_in(b):
    out = set()
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get("k") == "ref":
                out.add(x.get("n"))
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return out


# ------------------------------------------------------------------ R2 inside the library (on the resolved syntax tree)
def argname(x):
    while isinstance(x, dict) and x.get("k") in ("cast", "paren", "tmp", "bind", "clean"):
        x = x.get("e")
    if isinstance(x, dict) and x.get("k") == "un" and x.get("op") in ("&", "*"):
        return argname(x.get("e"))
    if isinstance(x, dict):
        if x.get("k") == "ref" and x.get("n"):
            return x["n"]
        if x.get("k") == "mem" and x.get("n"):
            return x["n"]
    return None


def library(ctx, L):
    F = L.F
    n = 0
    seen = set()
    for fid, f in F.fns.items():
        if f.get("implicit") or f.get("file", "").endswith(("VectorMath.h",)):
            continue
        st = [f.get("body"), f.get("inits")]
        avail = {p["n"] for p in f.get("ps") or []}
        while st:
            x = st.pop()
            if isinstance(x, list):
                st.extend(x)
                continue
            if not isinstance(x, dict):
                continue
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            if x.get("k") not in ("call", "ctor") or not x.get("f"):
                continue
            g = F.fns.get(x["f"])
            if g is None or not g.get("ps") or not g["id"].startswith("freud"):
                continue
            if simple(g["id"]) in SYMMETRIC or simple(g["id"]) == simple(fid):
                continue   # the order of the roles does not matter / recursion over a pack peels its first element
            a = x.get("a") or []
            if len(a) < 2:
                continue
            an = [argname(y) for y in a]
            key = (fid, x.get("l"), g["id"])
            if key in seen:
                continue
            seen.add(key)
            n += 1
            loc = {canon(y) for y in an if y} | {canon(y) for y in avail}
            for i, s, p in exchanged([{y} if y else set() for y in an], [q["n"] for q in g["ps"]][:len(an)], loc):
                P = [canon(q["n"]) for q in g["ps"]][:len(an)]
                A = [canon(y) if y else None for y in an]
                # a true exchange: the other argument is misplaced too, or the right one is available to the caller
                j = P.index(s)
                if A[j] == s and canon(p) not in {canon(y) for y in avail}:
                    continue
                ctx.fail("R2", "%s passes %s as %s to %s" % (simple(fid), s, p, g["id"].split("(")[0]),
                         "argument %d is %s, but the parameter there is %s" % (i, s, p), f.get("file", ""), x.get("l", 0))
            ctx.ob(True, "R2", "%s -> %s" % (simple(fid), g["id"].split("(")[0]), "", f.get("file", ""), x.get("l", 0), sample=False)
    ctx.need(n, 100, "library call sites with named arguments")
    n = 0
    for fid, f in F.fns.items():
        if f.get("implicit") or len(f.get("ps") or []) < 2:
            continue
        ps = {canon(p["n"]): p["n"] for p in f["ps"]}
        for fld, x, l in fieldstores(f):
            a = argname(x)
            if a is None or canon(a) not in ps or isinstance(x, dict) and not isparm(x):
                continue
            n += 1
            want = ps.get(canon(fld))
            ctx.ob(want is None or canon(want) == canon(a), "R2", "%s stores %s in %s" % (simple(fid), a, fld),
                   "field %s is set from parameter %s, although there is a parameter %s" % (fld, a, want), f.get("file", ""), l, sample=False)
    ctx.need(n, 60, "fields set from parameters")


def isparm(x):
    while isinstance(x, dict) and x.get("k") in ("cast", "paren", "tmp", "bind", "clean"):
        x = x.get("e")
    return isinstance(x, dict) and x.get("k") == "ref" and x.get("dk") == "parm"


def fieldstores(f):
    """(field of this, value expression, line) for plain initialisations and assignments."""
    for i in f.get("inits") or []:
        if i.get("written") and i.get("field"):
            yield i["field"], i.get("e"), i.get("l", 0)
    st = [f.get("body")]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(x)
        elif isinstance(x, dict):
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            if x.get("k") == "asg" and x.get("op") == "=" and isinstance(x.get("a"), dict) and x["a"].get("k") == "mem" and (x["a"].get("b") or {}).get("k") == "this":
                yield x["a"]["n"], x.get("b"), x.get("l", 0)


# ------------------------------------------------------------------ R4
def sim(a, b):
    a, b = squash(a), squash(b)
    if a == b:
        return 1.0
    return difflib.SequenceMatcher(None, a, b).ratio()


def better(name, own, siblings):
    """A sibling whose name fits what is returned much better than the name it is returned under."""
    m = sim(name, own)
    best, bs = m, None
    for s in siblings:
        r = sim(s, own)
        if r > best:
            best, bs = r, s
    if bs is not None and best >= 0.99 and m < 0.75 or (bs is not None and best >= 0.85 and best - m > 0.2):
        return bs
    return None


def names(ctx, L):
    n = 0
    for c in L.P.classes():
        if c.q not in L.ctor:
            continue
        si = L.ctor[c.q][1]
        file = lambda o: "freud/%s.py" % o.mod.name.split(".")[-1]
        members = list(public_members(L.P, c))
        got = {}
        for nm, ow, k, d in members:
            if k not in ("property", "computed"):
                continue
            E = L.engine()
            s = si.copy() if si is not None else pyeval.State()
            s.guards = ()
            E.run(c, nm, s=s)
            ctx.fnset |= E.visited
            gs = {e.target.rsplit(".", 1)[1] for e in E.events if e.kind == "ncall" and e.place is not None and len(e.stack) == 1}
            got[nm] = (ow, d, next(iter(gs)) if len(gs) == 1 else None)
        for nm, (ow, d, g) in got.items():
            if g is None:
                continue
            n += 1
            b = better(nm, g, [x for x in got if x != nm])
            same = b is not None and got[b][2] == g and sim(nm, g) >= 0.6
            ctx.ob(b is None or same, "R4", "%s.%s" % (c.q, nm), "property %s returns %s(), the result named for %s" % (nm, g, b), file(ow), d.lineno)
        sets = {}
        for nm, ow, k, d in members:
            if k != "setter":
                continue
            E = L.engine()
            s = si.copy() if si is not None else pyeval.State()
            s.guards = ()
            ps = [x.arg for x in d.args.args]
            E.body(d, ow.mod, "%s.%s.setter" % (c.q, nm), {ps[0]: mk("self", c), ps[1]: mk("param", ps[1])}, s, cls=ow, dyn=c)
            sets[nm] = (ow, d, {e.target.rsplit(".", 1)[1] for e in E.events if e.kind == "ncall" and e.place is not None and re.match("set", e.target.rsplit(".", 1)[1])})
        for nm, (ow, d, gs) in sets.items():
            for g in gs:
                n += 1
                own = re.sub("^set", "", g)
                b = better(nm, own, [x for x in sets if x != nm])
                same = b is not None and g in sets[b][2] and sim(nm, own) >= 0.6
                ctx.ob(b is None or same, "R4", "%s.%s setter" % (c.q, nm), "the setter of %s calls %s, named for %s" % (nm, g, b), file(ow), d.lineno)
    # accessor name against the C++ accessor it is bound to and the field that returns
    for q, nc in sorted(L.B.classes.items()):
        acc = {nm: ms for nm, ms in nc.methods.items() if nm and re.match("(get|is)[A-Z]", nm)}
        fields = {}
        for nm, ms in acc.items():
            for m in ms:
                fs = set()
                if m.fnid:
                    fs = {f for f in L.retfields(m.fnid, L.cls_of(q)) if not f.endswith("m_reduce")}
                fields.setdefault(nm, set()).update(fs)
        for nm, ms in acc.items():
            sib = [x for x in acc if x != nm]
            for m in ms:
                cxxn = (m.fn or "").split("(")[0].split("::")[-1]
                if re.match("(get|is)[A-Z]", cxxn):
                    n += 1
                    b = better(nm, cxxn, sib)
                    ctx.ob(b is None, "R4", "%s.%s binding" % (q, nm), "%s is bound to %s, the accessor named for %s" % (nm, cxxn, b), m.file or "", m.line or 0, sample=False)
            fs = fields[nm]
            if len(fs) != 1 or re.match("getN(um)?[A-Z]", nm):
                continue
            n += 1
            parts = next(iter(fs)).split(".")
            bs = [better(nm, p, sib) for p in parts]
            b = None if not all(bs) else bs[0]
            same = b is not None and fields.get(b) == fs and max(sim(nm, p) for p in parts) >= 0.6
            ctx.ob(b is None or same, "R4", "%s.%s returns %s" % (q, nm, ".".join(parts)), "accessor %s returns %s, the field named for %s" % (nm, ".".join(parts), b), ms[0].file or "", ms[0].line or 0, sample=False)
    ctx.need(n, 100, "named accessors")


# ------------------------------------------------------------------ R5
def enumname(t):
    if t.op in ("native",) and "." in t.a[0]:
        return t.a[0].rsplit(".", 1)[1]
    return None


def fits(s, e):
    a, b = s.replace("_", "").lower(), e.replace("_", "").lower()
    return a == b


def modes(ctx, L):
    n = 0
    enums = {}
    for q, m in L.B.enums.items():
        for k, v in m.items():
            nm = v.split("::")[-1] if isinstance(v, str) else str(v)
            n += 1
            alts = [x for x in m if x != k]
            others = [(m[x].split("::")[-1] if isinstance(m[x], str) else "") for x in alts]
            bad = not fits(k, nm) and any(fits(k, o) for o in others)
            ctx.ob(not bad, "R5", "%s.%s" % (q, k), "enumerator %s is bound to %s" % (k, nm), "", 0)
    for c in L.P.classes():
        for name, (o, ds) in L.P.members(c).items():
            if o is not c:
                continue
            for k, d in ds:
                if k == "attr":
                    E = L.engine()
                    v = E.clsattr(o, name, d, pyeval.State())
                    terms = [v]
                elif name in PLOT:
                    continue
                else:
                    E = L.engine()
                    si = L.ctor.get(c.q, (None, None))[1]
                    if k == "setter":
                        continue
                    s = si.copy() if si is not None and name != "__init__" and k not in ("classmethod", "staticmethod") else pyeval.State()
                    s.guards = ()
                    s2, v = E.run(c, name, s=s)
                    terms = [v] if v is not None else []
                    for e in E.events:
                        terms += [t for t in [e.value] + list(e.args or ()) if isinstance(t, T)]
                seen = set()
                for t in terms:
                    for x in walk(t, seen):
                        if x.op == "dict":
                            pairs = [(a, b) for a, b in x.a[-1] if a is not None and islit(a) and isinstance(a.a[0], str) and enumname(b)]
                            for a, b in pairs:
                                n += 1
                                others = [enumname(z) for y, z in pairs if y is not a]
                                bad = not fits(a.a[0], enumname(b)) and any(fits(a.a[0], y) for y in others)
                                ctx.ob(not bad, "R5", "%s.%s[%s]" % (c.q, name, a.a[0]), "mode %s is mapped to %s" % (a.a[0], enumname(b)), "freud/%s.py" % c.mod.name.split(".")[-1], 0)
                        if x.op == "ite" and x.a[0].op == "op" and x.a[0].a[0] == "==":
                            a, b = x.a[0].a[1:]
                            s_ = a if islit(a) else b if islit(b) else None
                            e1, e2 = enumname(x.a[1]), enumname(x.a[2]) if isinstance(x.a[2], T) else None
                            if s_ is not None and isinstance(s_.a[0], str) and e1:
                                n += 1
                                bad = not fits(s_.a[0], e1) and (e2 is None or fits(s_.a[0], e2) or not fits(s_.a[0], e1))
                                ctx.ob(not bad, "R5", "%s.%s %s" % (c.q, name, s_.a[0]), "mode %s is mapped to %s" % (s_.a[0], e1), "freud/%s.py" % c.mod.name.split(".")[-1], 0)
                            # native enumerator back to its name
                            en = enumname(a) or enumname(b)
                            if en and x.a[1].op == "lit" and isinstance(x.a[1].a[0], str):
                                n += 1
                                q, mem = (a if enumname(a) else b).a[0].rsplit(".", 1)
                                sib = [y for y in L.B.enums.get(q, {}) if y != en]
                                o2 = better(en, x.a[1].a[0], sib)
                                ctx.ob(o2 is None, "R5", "%s.%s name of %s" % (c.q, name, en), "enumerator %s is reported as %s" % (en, x.a[1].a[0]), "freud/%s.py" % c.mod.name.split(".")[-1], 0)
    ctx.need(n, 12, "mode names")
