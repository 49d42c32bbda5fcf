"""Ownership (borrow) analysis across the language boundary. Every native function bound to Python is evaluated and the
memory it leaves in the fields of its receiver or of the object it creates is examined: a pointer into the data of an
array argument, or to an object passed in, is a borrow that outlives the call. For every Python call site of such a
function the lender must be held for as long as the borrower: by an attribute of the object that stores the borrower, or
by a named variable or attribute when the borrower stays local and does not leave the function. The lender must also be an
array the binding takes without converting (otherwise it borrows from a temporary), attributes that hold lenders are
never rebound without renewing the borrower, and the native part of an object that lends memory never leaves the
lifetime of that object. Native code stores no pointer to one of its own local variables."""
import ast
from ..terms import T, mk, lit, islit, walk, root, show
from ..shared import placename
from ..link import Link
from .. import history
from .p04 import typeof
from .p08 import fname, kwargs, CONV

WIDE = {"float": ("float32", "single"), "double": ("float64", "double", "float"), "int": ("int32", "intc"), "unsigned int": ("uint32", "uintc")}


def dotted(n):
    return n.id if isinstance(n, ast.Name) else (dotted(n.value) or "?") + "." + n.attr if isinstance(n, ast.Attribute) else None


def borrows(ctx, L):
    """{(native class, bound name): [(parameter index or -1 for the receiver, holder, field, function)]}"""
    F = L.F
    out = {}
    n = 0
    for q, bc in sorted(L.B.classes.items()):
        cls = L.cls_of(q)
        for nm, ms in sorted(bc.methods.items(), key=lambda x: str(x[0])):
            for m in ms:
                made = None
                if nm == "__init__":
                    na = len(m.init or []) if m.kind == "init" else (len(F.fns[m.fnid].get("ps") or []) - 1 if m.fnid in F.fns else None)
                    r = L.construct(q, na) if na is not None else None
                    if not r:
                        continue
                    E, s, made, names = r
                    fn = m.fnid
                elif m.fnid in F.fns:
                    E, s, v = L.nrun(m.fnid, cls)
                    fn = m.fnid
                    ps = [p["n"] for p in F.fns[fn].get("ps") or []]
                    names = ps if F.fns[fn].get("cls") and not F.fns[fn].get("static") else ps[1:]
                else:
                    continue
                ctx.visited(E)
                if s is None:
                    continue
                n += 1
                for p, x in s.mem.items():
                    r = root(p)
                    if p.op != "fld" or r.op not in ("this", "obj", "deref") or not isinstance(x, T):
                        continue
                    local = x.op == "ptr" and root(x.a[0]).op in ("var", "tmp")
                    f = F.fns.get(fn) or {}
                    if x.op == "ptr":
                        ctx.ob(not local, "R5", "%s.%s %s" % (q, nm, placename(p)), "%s keeps a pointer to a local variable of the call" % placename(p), f.get("file"), f.get("l"))
                    k = lender(E, x, names, made)
                    if k is None and (r.op == "this" or r is made):
                        t = (typeof(F, cls, p) or "").replace("const ", "").strip()
                        if t.endswith("*") or "shared_ptr<" in t and t.split("shared_ptr<", 1)[1].rsplit(">", 1)[0].strip().endswith("NeighborQuery"):
                            k = origin(x, names)
                    if k is not None:
                        out.setdefault((q, nm), []).append((k, "result" if r.op == "obj" and (nm != "__init__") else "receiver", placename(p), fn))
    ctx.cov["native functions"] = n
    ctx.need(n, 80, "native functions")
    return out


def origin(x, names):
    """Index of the parameter an address comes from: the object passed in, or an address kept in it."""
    for k in range(30):
        if x.op in ("cast", "conv"):
            x = x.a[-1]
        elif x.op in ("param", "pobj"):
            n = str(x.a[0]).lstrip("*")
            return names.index(n) if n in names else None
        elif x.op == "ptr" or x.op == "ld":
            x = root(x.a[0])
        elif x.op == "deref":
            x = x.a[0]
        else:
            return None
    return None


def lender(E, x, names, made):
    """Index of the parameter x points into (-1: the receiver)."""
    def par(y):
        return names.index(str(y.a[0]).lstrip("*")) if y.op in ("pobj", "param") and str(y.a[0]).lstrip("*") in names else None
    while x.op in ("cast", "conv"):
        x = x.a[-1]
    if x.op == "op" and x.a[0] in ("+", "-"):
        for y in x.a[1:]:
            k = lender(E, y, names, made)
            if k is not None:
                return k
        return None
    if x.op == "phi":
        for y in x.a[1:]:
            k = lender(E, y, names, made)
            if k is not None:
                return k
        return None
    if x.op in ("param", "pobj"):
        return None
    if x.op == "ptr":
        r = root(x.a[0])
        if r.op == "this" and made is not r:
            return -1
        if r.op == "pobj":
            return par(r)
        if r.op == "deref":
            for y in walk(r.a[0]):
                if par(y) is not None:
                    return par(y)
        return None
    if x.op == "call" and "ndarray" in str(x.a[0]) and str(x.a[0]).endswith("data") or x.op == "call" and show(x, 3).startswith("nanobind::ndarray::data("):
        for y in walk(x):
            if par(y) is not None:
                return par(y)
    return None


def site(L, e, name):
    """The syntax node of a call event, its function and module."""
    for mod in L.P.mods.values():
        if not str(e.file).endswith("/".join(str(mod.path).split("/")[-2:])) and str(mod.path).split("/")[-1] != str(e.file).split("/")[-1]:
            continue
        for fn in ast.walk(mod.tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for c in ast.walk(fn):
                    if isinstance(c, ast.Call) and c.lineno <= e.line <= (c.end_lineno or c.lineno) and (
                            isinstance(c.func, ast.Attribute) and c.func.attr == name or isinstance(c.func, ast.Name) and c.func.id == name):
                        return c, fn, mod
    return None, None, None


def stable(x):
    """The expression names an object something else holds: a variable or attributes of one."""
    while isinstance(x, ast.Attribute):
        x = x.value
    return isinstance(x, ast.Name)


def unconverted(t, want, default):
    """True: the binding takes the array as it is; False: it may have to convert; None: unknown."""
    if not isinstance(t, T):
        return None
    if t.op == "ite":
        rs = [unconverted(x, want, default) for x in t.a[1:]]
        return False if False in rs else None if None in rs else True
    if t.op == "copyof":
        return unconverted(t.a[0], want, default)
    if t.op == "call":
        n = fname(t)
        kw = kwargs(t)
        args = t.a[1] if len(t.a) > 1 else ()
        dt = kw.get("dtype")
        name = show(dt, 3).split("(")[-1].rstrip(")").split(".")[-1] if dt is not None else None
        if n == CONV:
            name = name or (show(args[2], 3).split("(")[-1].rstrip(")").split(".")[-1] if len(args) > 2 else default)
            return name in want
        if n in ("numpy.ascontiguousarray", "numpy.require", "numpy.array"):
            if n == "numpy.array" and len(args) > 1:
                name = show(args[1], 3).split("(")[-1].rstrip(")").split(".")[-1]
            if name is None:
                return unconverted(args[0], want, default) if args else None
            return name in want
        if n in ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full"):
            return (name or "float64") in want
        if n in ("numpy.asarray", "numpy.atleast_2d", "numpy.asanyarray"):
            inner = unconverted(args[0], want, default) if args else None
            return inner if name is None or name in want else False
        if t.a[0].op == "attr" and t.a[0].a[1] == "copy":
            if kw.get("order") is not None or args:
                return None
            return unconverted(t.a[0].a[0], want, default)
        if t.a[0].op == "attr" and t.a[0].a[1] == "astype":
            name = name or (show(args[0], 3).split("(")[-1].rstrip(")").split(".")[-1] if args else None)
            return name in want and unconverted(t.a[0].a[0], want, default) is not False
    if t.op == "param":
        return False
    return None


def convdefault(L):
    for mod in L.P.mods.values():
        for fn in ast.walk(mod.tree):
            if isinstance(fn, ast.FunctionDef) and fn.name == "_convert_array":
                a = fn.args
                for x, v in zip(reversed(a.args), reversed(a.defaults)):
                    if x.arg == "dtype":
                        return ast.unparse(v).split(".")[-1]
    return None


def check(ctx):
    ctx.rule("R1: an array whose memory a native object borrows is held by an attribute of the Python object that holds the native object, or by a variable when both are local")
    ctx.rule("R2: a native object that borrows from local variables does not leave the function")
    ctx.rule("R3: a borrowed array has the element type and layout the binding takes without converting")
    ctx.rule("R4: attributes that hold lenders are not rebound without renewing the borrower")
    ctx.rule("R5: native code stores no pointer to a local variable in an object")
    ctx.rule("R6: the native part of an object that holds lent memory is not used beyond the lifetime of that object")
    L = Link(ctx)
    B = borrows(ctx, L)
    ctx.cov["borrowing functions"] = sorted("%s.%s" % k for k in B)
    lenders = {}            # Python class -> attributes
    sites = 0
    default = convdefault(L)
    names = {nm for q, nm in B if nm != "__init__"}
    seen = set()
    for c in L.P.classes():
        me = mk("self", c)
        Ei, si = L.ctor.get(c.q, (None, None))
        runs = []
        for m, ds in sorted(c.defs.items()):
            for k, d in ds:
                if not isinstance(d, ast.FunctionDef):
                    continue
                src = {x.attr for x in ast.walk(d) if isinstance(x, ast.Attribute)}
                if m == "__init__" and Ei is not None:
                    runs.append((m, Ei, si))
                elif src & names and k in ("method", "property", "computed"):
                    E = L.engine()
                    s0 = si.copy() if si else None
                    if s0 is not None:
                        s0.guards = ()
                    s, v = E.run(c, m, s=s0)
                    runs.append((m, E, s))
        for m, E, s in runs:
            ctx.fnset |= E.visited
            for e in E.events:
                if e.kind != "ncall":
                    continue
                q, n = (e.target, "__init__") if e.place is None else e.target.rsplit(".", 1)
                hits = [(kq, r) for (kq, kn), rs in B.items() for r in rs if kn == n and (kq == q or n != "__init__" and q not in L.B.classes)]
                if not hits or (e.file, e.line, n, c.q) in seen:
                    continue
                seen.add((e.file, e.line, n, c.q))
                sites += 1
                call, fn, mod = site(L, e, n if n != "__init__" else q.split(".")[-1])
                held = {a: v for (o, a), v in s.heap.items() if o is me} if s is not None else {}
                owner = [x for x in E.events if x.kind == "setattr" and x.target is me and x.value is e.value]
                if not owner:
                    x = next((x for x in E.events if x.kind == "setattr" and x.value is e.value), None)
                    if x is not None:
                        held = {a: v for (o, a), v in s.heap.items() if o is x.target}
                        owner = [x]
                for kq, (k, holder, field, fnid) in hits:
                    what = "%s.%s %s" % (c.q, m, n)
                    if k == -1:
                        ok = call is None or isinstance(call.func, ast.Attribute) and stable(call.func.value)
                        ctx.ob(ok, "R1", what + " receiver", "%s points to its receiver, a temporary" % field, e.file, e.line)
                        continue
                    A = e.args[k] if k < len(e.args) else None
                    X = call.args[k] if call is not None and k < len(call.args) else None
                    if A is None:
                        continue
                    if holder == "receiver" and n != "__init__":
                        ok = any(isinstance(v, T) and any(y is v for y in walk(A)) and a != "_cpp_obj" for a, v in held.items())
                        ctx.ob(ok, "R1", what, "%s keeps pointing into an argument of %s that no attribute of the object keeps alive" % (field, n), e.file, e.line)
                        continue
                    if owner:
                        att = [a for a, v in held.items() if v is A and a != owner[0].place]
                        ctx.ob(bool(att), "R1", what, "%s borrows the memory of an array that no attribute of the object holding it keeps alive" % field, e.file, e.line)
                        for a in att:
                            lenders.setdefault(c, set()).add(a)
                            lenders[c].add("(" + owner[0].place)
                    else:
                        ctx.ob(X is None or stable(X), "R1", what, "%s borrows the memory of a temporary array" % field, e.file, e.line)
                        if fn is not None and call is not None:
                            leaves(ctx, fn, call, what, field, e)
                        if isinstance(X, ast.Attribute) and isinstance(X.value, ast.Name) and X.value.id == "self":
                            held = {X.attr: 1}
                    want = element(L, fnid, k)
                    if want:
                        u = unconverted(A, WIDE[want], default)
                        ctx.ob(None if u is None else u, "R3", what + " type", "%s borrows from an array the binding may have to convert (it wants contiguous %s)" % (field, want), e.file, e.line)
    # R4
    n4 = 0
    keep = {}
    for c, at in lenders.items():
        for k in [c] + [x for x in L.P.mro(c)]:
            keep.setdefault(k.q, set()).update(at)
    alln = {a for at in keep.values() for a in at if not a.startswith("(")}
    objs = {a[1:] for at in keep.values() for a in at if a.startswith("(")}
    for mod in L.P.mods.values():
        for cd in ast.walk(mod.tree):
            if not isinstance(cd, ast.ClassDef):
                continue
            for fn in cd.body:
                if not isinstance(fn, ast.FunctionDef):
                    continue
                if not any(q.split(".")[-1] == cd.name for q in keep):
                    continue
                asg = [(t, x) for x in ast.walk(fn) if isinstance(x, (ast.Assign, ast.AnnAssign, ast.Delete)) for t in (x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]) for t in ast.walk(t)
                       if isinstance(t, ast.Attribute) and isinstance(t.ctx, (ast.Store, ast.Del)) and isinstance(t.value, ast.Name)]
                re = [(t, x) for t, x in asg if t.attr in alln]
                if not re:
                    continue
                n4 += 1
                renew = [x.lineno for t, x in asg if t.attr in objs]
                ctx.ob(bool(renew) and max(renew) > max(x.lineno for t, x in re), "R4", "%s.%s.%s" % (mod.name, cd.name, fn.name),
                       "%s is rebound while the native object still borrows from it" % ", ".join(sorted({t.attr for t, x in re})), str(mod.path), re[0][1].lineno)
    # ... nor from outside, through a variable that holds a lender
    kn = {q.split(".")[-1] for q in keep}
    for mod in L.P.mods.values():
        for fn in ast.walk(mod.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            vs = {x.targets[0].id for x in ast.walk(fn) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call)
                  and (dotted(x.value.func) or "?").split(".")[-1] in kn | {"from_system", "_make_default_nq"}}
            for t in ast.walk(fn) if vs else ():
                if isinstance(t, ast.Attribute) and isinstance(t.ctx, (ast.Store, ast.Del)) and t.attr in alln and isinstance(t.value, ast.Name) and t.value.id in vs:
                    ctx.ob(False, "R4", "%s.%s" % (mod.name, fn.name), "%s.%s is rebound while the native object still borrows from it" % (t.value.id, t.attr), str(mod.path), t.lineno)
    escape(ctx, L, {q.split(".")[-1] for q in keep})
    ctx.cov["call sites"] = sites
    ctx.cov["lenders"] = {c.q: sorted(a for a in at if not a.startswith("(")) for c, at in lenders.items()}
    ctx.need(len(B), 3, "borrowing native functions")
    ctx.need(sites, 4, "call sites")


def element(L, fnid, k):
    """Element type of the k-th Python argument's ndarray type."""
    f = L.F.fns.get(fnid)
    if not f:
        return None
    ps = [p for p in f.get("ps") or []]
    nd = [p for p in ps if "ndarray<" in p["t"] or "nb_array<" in p["t"]]
    off = 0 if f.get("cls") and not f.get("static") else 1
    if k + off >= len(ps):
        return None
    t = ps[k + off]["t"]
    if "ndarray<" not in t and "nb_array<" not in t:
        return None
    a = t.split("<", 1)[1].split(",")[0].replace("const", "").strip()
    return a if a in WIDE else None


def leaves(ctx, fn, call, what, field, e):
    """A local borrower must not leave the function."""
    var = {t.id for x in ast.walk(fn) if isinstance(x, ast.Assign) and x.value is call for t in x.targets if isinstance(t, ast.Name)}
    bad = None
    for x in ast.walk(fn):
        v = None
        if isinstance(x, (ast.Return, ast.Yield)):
            v = x.value
        elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) for t in x.targets):
            v = x.value
        if v is None:
            continue
        parts = v.elts if isinstance(v, (ast.Tuple, ast.List)) else [v]
        if any(y is call or isinstance(y, ast.Name) and y.id in var for y in parts):
            bad = x
    ctx.ob(bad is None, "R2", what + " leaves", "the native object in which %s borrows from a local variable leaves the function" % field, e.file, bad.lineno if bad is not None else e.line)


def escape(ctx, L, classes):
    """R6: X._cpp_obj with X a temporary or a local lending object, used beyond X's lifetime."""
    n = 0

    def makes(v):
        if not isinstance(v, ast.Call):
            return False
        f = v.func
        if isinstance(f, ast.Attribute) and f.attr == "from_system":
            f = f.value
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        return nm in classes
    for mod in L.P.mods.values():
        for fn in ast.walk(mod.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            loc = {t.id for x in ast.walk(fn) if isinstance(x, ast.Assign) and makes(x.value) for t in x.targets if isinstance(t, ast.Name)}
            held = {x.value.id for x in ast.walk(fn) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and any(isinstance(t, ast.Attribute) for t in x.targets)}
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and x.attr == "_cpp_obj":
                    n += 1
                    if makes(x.value):
                        ctx.ob(False, "R6", "%s.%s" % (mod.name, fn.name), "the native part of a temporary that holds lent memory is used after the temporary is gone", str(mod.path), x.lineno)
                v = x.value if isinstance(x, (ast.Return, ast.Yield)) else x.value if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) for t in x.targets) else None
                if v is None:
                    continue
                for y in (v.elts if isinstance(v, (ast.Tuple, ast.List)) else [v]):
                    if isinstance(y, ast.Attribute) and y.attr == "_cpp_obj" and isinstance(y.value, ast.Name) and y.value.id in loc and y.value.id not in held:
                        ctx.ob(False, "R6", "%s.%s" % (mod.name, fn.name), "the native part of %s leaves the function that holds it" % y.value.id, str(mod.path), x.lineno)
            ctx.ob(True, "R6", "%s.%s" % (mod.name, fn.name), "", str(mod.path), fn.lineno)
    ctx.cov["native part uses"] = n
