"""Availability typestate over the Python layer and its native objects. For every class with a compute method the
analysis evaluates compute abstractly, follows it into the bound native functions and collects the native fields and
Python attributes it writes (the results). Every public property is then evaluated: if the value it returns, or anything
it calls, reads a native field written by compute (through the bound accessor's C++ body) or a Python attribute assigned
by compute, the read must be protected by the computed-check. The check itself (the wrapper made by _computed_property,
the flag set by __getattribute__'s compute wrapper) is evaluated too: the wrapped property runs only when the flag is set,
the flag becomes true only after compute has returned normally, starts false, and nothing else sets it."""
from ..terms import T, mk, walk, show, islit, lit
from .. import pyeval, link
from ..link import Link, storedfields, public_members, overlap
from ..pyfacts import PLOT


def flagname(ctx, L):
    """Flag attribute tested by the wrapper that _computed_property makes."""
    base = None
    for c in L.P.classes():
        if "_computed_property" in c.defs:
            base = c
    if base is None:
        ctx.fail("R2", "_computed_property", "no class defines the computed-property decorator", "freud/util.py", 0)
        return None, None
    k, node = base.defs["_computed_property"][0]
    E = L.engine()
    prop = mk("param", "prop")
    s, v = E.run(base, "_computed_property", args={"prop": prop})
    lam = next((x for x in walk(v) if x.op == "lam"), None) if v is not None else None
    if lam is None:
        ctx.fail("R2", "freud.util._Compute._computed_property", "the decorator returns no wrapper function", "freud/util.py", node.lineno)
        return base, None
    me = mk("param", "#obj")
    n0 = len(E.events)
    st = s or pyeval.State()
    st.guards = ()
    E.stack.append(("wrapper", base.mod, base, base))
    E.call(lam, [me], [], st, node)
    E.stack.pop()
    calls = [e for e in E.events[n0:] if e.kind == "call" and e.target is prop]
    raises = [e for e in E.events[n0:] if e.kind == "raise"]
    flag = None
    for e in calls:
        for g, p in e.guards:
            for x in walk(g):
                if x.op == "attr" and x.a[0] is me:
                    flag = x
        good = flag is not None and any(g is flag and p for g, p in e.guards)
        ctx.ob(good, "R2", "freud.util._Compute._computed_property wrapper", "the property is evaluated although the computed flag may be unset",
               "freud/util.py", e.line)
    ctx.ob(bool(calls), "R2", "freud.util._Compute._computed_property calls the property", "the wrapper never evaluates the property", "freud/util.py", node.lineno)
    ctx.ob(any(x.op == "bi" and x.a[0] == "AttributeError" for e in raises for x in walk(e.value)), "R2", "freud.util._Compute._computed_property raises AttributeError",
           "the wrapper does not raise AttributeError when the flag is unset", "freud/util.py", node.lineno)
    ctx.fnset |= E.visited
    return base, flag.a[1] if flag is not None else None


def wrapper(ctx, L, base, flag):
    """The flag is set by the compute wrapper after compute returned."""
    o = base
    if "__getattribute__" not in base.defs:
        ctx.fail("R3", base.q, "no __getattribute__ marks the object as computed", "freud/util.py", 0)
        return
    node = base.defs["__getattribute__"][0][1]
    E = L.engine()
    s, v = E.run(base, "__getattribute__", args={node.args.args[1].arg: lit("compute")})
    lam = v if v is not None and v.op == "lam" else next((x for x in walk(v) if x.op == "lam"), None)
    if lam is None:
        ctx.fail("R3", base.q + ".__getattribute__", "looking up compute returns no wrapper", "freud/util.py", node.lineno)
        return
    st = s or pyeval.State()
    st.guards = ()
    n0 = len(E.events)
    E.stack.append(("wrapper", base.mod, base, base))
    E.call(lam, [mk("star", mk("param", "*args"))], [("**", mk("param", "**kw"))], st, node)
    E.stack.pop()
    evs = E.events[n0:]
    calls = [e for e in evs if e.kind == "call" and e.target.op not in ("bi",) and "wraps" not in show(e.target, 3)]
    sets = [e for e in evs if e.kind == "setattr" and e.place == flag]
    true = [e for e in sets if not (islit(e.value) and not e.value.a[0])]
    ctx.ob(bool(true), "R3", "compute wrapper sets the flag", "the compute wrapper never marks the object as computed", "freud/util.py", node.lineno)
    for e in true:
        before = [c for c in calls if c.n < e.n]
        ctx.ob(bool(before) and not e.exc, "R3", "compute wrapper order", "the flag is set although compute may not have returned normally",
               "freud/util.py", e.line)
        ctx.ob(islit(e.value) and bool(e.value.a[0]) and not [g for g, p in e.guards if g.op != "exc"], "R3", "compute wrapper sets the flag on every successful call",
               "the flag is set only under a further condition", "freud/util.py", e.line)
        ctx.ob(not any(c.caught and c.n < e.n for c in calls), "R3", "compute wrapper catches nothing", "an exception from compute is caught before the flag is set",
               "freud/util.py", e.line)
    ctx.fnset |= E.visited


def protected(L, E, e, top, flag):
    if top == "computed":
        return True
    if any(g.op == "attr" and g.a[1] == flag and p for g, p in e.guards):
        return True
    comp = {c.stack + (1,) for c in E.events if c.kind == "computed"}
    names = set()
    for c in E.events:
        if c.kind == "computed" and c.n < e.n:
            names.add(c.place)
    for f in e.stack:
        nm = f.rsplit(".", 1)[-1]
        if nm in names:
            return True
    return False


def check(ctx):
    ctx.rule("R1: every read of something compute writes (native field through a bound accessor, or Python attribute) in a public property is behind the computed check")
    ctx.rule("R2: the computed check raises AttributeError unless the flag is set, before evaluating the property")
    ctx.rule("R3: the flag is set exactly when compute returns normally; it starts unset and nothing else sets it")
    L = Link(ctx)
    base, flag = flagname(ctx, L)
    if flag is None:
        flag = "_called_compute"
    if base is not None:
        wrapper(ctx, L, base, flag)
    nres = 0
    ncls = 0
    settings, late = set(), []
    for c in L.P.classes():
        o, ds = L.P.find(c, "compute")
        if not o or not any(k == "method" for k, _ in ds):
            continue
        if "abstract" in " ".join(_d for _d in map(str, [])):
            continue
        Ei, si = L.ctor.get(c.q, (None, None))
        params = ctorparams(L, c)
        file = "freud/%s.py" % c.mod.name.split(".")[-1]
        ncls += 1
        # what compute writes
        E = L.engine()
        s, v = E.run(c, "compute", s=si.copy() if si else None)
        ctx.fnset |= E.visited
        st, known = set(), False
        for e in E.events:
            if e.kind == "ncall" and e.place is not None and cppof(c, e, si):
                q, n = e.target.rsplit(".", 1)
                q = q if q in L.B.classes else L.native_of(c)
                if q in L.B.classes:
                    known = True
                    for f in L.fns_of(q, n):
                        st |= storedfields(L, f, L.cls_of(q))
        me = mk("self", c)
        attrs = {e.place for e in E.events if e.kind == "setattr" and e.target is me}
        fl = [e for e in E.events if e.kind == "setattr" and e.place == flag]
        for e in fl:
            later = [x for x in E.events[e.n + 1:] if x.kind in ("ncall", "raise", "call")]
            ctx.ob(islit(e.value) and not e.value.a[0] or not later, "R3", "%s.compute sets the flag" % c.q,
                   "compute itself marks the object as computed before it has finished", file, e.line)
        # the flag starts unset
        if si is not None:
            f0 = si.heap.get((me, flag))
            ctx.ob(f0 is None or (islit(f0) and not f0.a[0]), "R3", "%s starts uncomputed" % c.q, "a new object is already marked as computed", file, o.node.lineno)
        ka, da = L.P.find(c, flag)
        ctx.ob(ka is None or (da[0][0] == "attr" and getattr(da[0][1], "value", 1) in (False, None)), "R3", "%s class-level flag" % c.q, "the flag is set at class level", file, 0, sample=False)
        attrs.discard(flag)
        if L.P.find(c, "_computed_property")[0] is None:
            # not an analysis object with the availability protocol: properties raise by themselves
            pass
        for n, ow, k, d in public_members(L.P, c):
            if k not in ("property", "computed", "method") or n in ("compute", "__init__", "__repr__", "__str__", "__eq__"):
                continue
            if k == "method" and (len(d.args.args) > 1 or n.startswith("_") or n in ("reset",)):
                continue
            E = L.engine()
            s = si.copy() if si else pyeval.State()
            s.guards = ()
            for a in attrs:
                s.heap.pop((me, a), None)
            s2, v = E.run(c, n, s=s)
            ctx.fnset |= E.visited
            reads = []
            for e in E.events:
                if L.nused(e, c) and cppof(c, e, si):
                    q, nn = L.nused(e, c)
                    if q in L.B.classes:
                        fs = set()
                        for f in L.fns_of(q, nn):
                            fs |= L.retfields(f, L.cls_of(q))
                        hit = overlap(fs, st)
                        if not hit:
                            settings.add(nn)
                        if hit and n not in params:
                            reads.append((e, "native result %s" % "/".join(sorted(hit))))
                    elif not known and n not in params and k != "method":
                        # native class not built here: decided by the accessor's role in the classes that are
                        late.append((e, nn, k, E, "%s.%s" % (c.q, n)))
                for a in attrs:
                    t = mk("attr", me, a)
                    if a not in params and (e.kind == "return" or e.kind == "ncall" or e.kind == "call") and any(x is t for y in [e.value] + list(e.args or ()) if isinstance(y, T) for x in walk(y)):
                        reads.append((e, "attribute %s" % a))
                if e.kind == "setattr" and e.place == flag and e.target is me and not (islit(e.value) and not e.value.a[0]):
                    ctx.fail("R3", "%s.%s sets the flag" % (c.q, n), "the computed flag is set outside compute", file, e.line)
            for e, what in reads:
                nres += 1
                ctx.ob(protected(L, E, e, k, flag), "R1", "%s.%s reads %s" % (c.q, n, what),
                       "result property is readable before compute has succeeded (reads %s)" % what, e.file, e.line)
    for e, nn, k, E, name in late:
        if nn in settings:
            continue
        nres += 1
        ctx.ob(protected(L, E, e, k, flag), "R1", "%s reads native value %s" % (name, nn),
               "result property is readable before compute has succeeded (calls %s)" % nn, e.file, e.line)
    ctx.cov["result_reads"] = nres
    ctx.need(ncls, 25, "compute classes")
    ctx.need(nres, 60, "result reads in public properties")


def ctorparams(L, c):
    o, ds = L.P.find(c, "__init__")
    if not o:
        return set()
    a = ds[0][1].args
    return {x.arg for x in a.args[1:] + a.kwonlyargs}


def cppof(c, e, si):
    """The native call is made on the object's own native object."""
    me = mk("self", c)
    p = e.place
    if p is None:
        return False
    if p.op == "attr" and p.a[0] is me:
        return True
    if si is not None:
        for (o, a), v in si.heap.items():
            if o is me and v is p and p.op == "nat":
                return True
    return False

