"""Effect analysis: no function of the library writes to state that outlives the call and is not reachable from its
arguments or a newly created object. C++: every function is evaluated abstractly; a store, container mutation or
mutating call whose target is a namespace-scope variable, a static data member, a thread_local or a function-level
static is a violation, and so is a static local whose initial value depends on the parameters or the object of the call
that happens to run first. Python: every method, property and function is evaluated abstractly; assignments through
`global`, to module or class attributes, in-place changes of module-level or class-level objects and of mutable default
arguments, memoising decorators on methods, and use of NumPy's global random state are violations. The thread-count
setting of freud.parallel is the one documented exception."""
import ast
from ..terms import T, mk, walk, root, show, islit, lit
from ..shared import entries, placename, OPAQUE, owner_fn
from .. import cxx, pyeval
from ..pyfacts import decos, PLOT
from ..link import PYOPAQUE

MUTK = {"store", "append", "insert", "resize", "clear", "assign", "erase", "pop_back", "push_front", "pop_front", "sort", "alloc"}
RNG = {"rand", "randn", "random", "random_sample", "randint", "choice", "shuffle", "permutation", "normal", "uniform", "seed", "standard_normal"}


def check(ctx):
    ctx.rule("R1 (C++): no store, container mutation or mutating call on namespace-scope, static-member, thread_local or static-local variables")
    ctx.rule("R2 (C++): a static local's initial value is independent of the parameters and object of the call")
    ctx.rule("R3 (Python): no assignment through global/nonlocal, to module or class attributes, or into module-level or class-level objects")
    ctx.rule("R4 (Python): mutable default arguments are neither changed, stored nor returned")
    ctx.rule("R5 (Python): no memoising decorator, no use of NumPy's global random state")
    cpp(ctx)
    python(ctx)


def statics(p):
    r = root(p)
    while r.op == "deref":
        v = r.a[0]
        if v.op == "ld":
            r = root(v.a[0])
        elif v.op == "ptr":
            r = root(v.a[0])
        else:
            break
    return r if r.op in ("glob", "slocal") else None


def dep(v):
    """Depends on the call's parameters or object."""
    return any(x.op in ("param", "this", "pobj", "var") or (x.op == "ld" and x.a[0].op in ("this",)) for x in walk(v))


def cpp(ctx):
    F = ctx.cxx()
    n = 0
    for i in entries(F):
        f = F.fns[i]
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(i)
        ctx.visited(E)
        bad = 0
        for e in E.events:
            if e.kind == "static":
                # an empty or constant initial value depends on nothing
                if e.value is not None:
                    ctx.ob(not dep(e.value), "R2", "%s static %s" % (owner_fn(e), placename(e.place)),
                           "static local '%s' keeps the value computed from the first call: %s" % (placename(e.place), show(e.value, 4)), e.file, e.line)
                continue
            if e.place is None or (e.kind not in MUTK and e.kind != "call"):
                continue
            r = statics(e.place)
            if r is None:
                continue
            if e.kind == "call" and (e.info or {}).get("cm"):
                continue
            if e.kind == "call" and not (e.info or {}).get("obj"):
                continue
            if "parallel/" in (e.file or "") or "tbb_thread_control" in show(r):
                ctx.ob(True, "R1", owner_fn(e), "", e.file, e.line)
                continue
            if isconst(F, r):
                continue
            bad += 1
            ctx.fail("R1", "%s writes %s" % (owner_fn(e), placename(r)), "%s of shared state '%s'" % (e.kind, show(e.place, 5)), e.file, e.line)
        n += 1
        if not bad:
            ctx.ob(True, "R1", f["id"].split("(")[0], "", f.get("file", ""), f.get("l", 0), sample=False)
    ctx.need(n, 150, "C++ functions")


def isconst(F, r):
    return False


def globalobj(t, own=None):
    """The module-level, class-level or default-argument object a term denotes (by identity), or None. own(name) gives
    what an attribute of self holds after construction, or the class-level object it falls back to."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "glob":
            return "module-level object %s.%s" % (x.a[0].name if hasattr(x.a[0], "name") else x.a[0], x.a[1])
        if x.op in ("list", "dict", "set") and isinstance(x.a[0], str) and ":" in x.a[0]:
            return desc(x.a[0])
        if x.op == "shared":
            return desc(x.a[0])
        if x.op in ("upd", "sub", "hv", "ho", "amb"):
            st.extend(y for y in x.a if isinstance(y, T)) if x.op in ("hv", "ho", "amb") else st.append(x.a[0])
        elif x.op == "ite":
            st.extend([x.a[1], x.a[2]])
        elif x.op == "attr" and x.a[0].op in ("cls", "mod", "ext"):
            return "attribute %s" % show(x, 3)
        elif x.op == "attr" and x.a[0].op == "self" and own is not None:
            y = own(x.a[1])
            if isinstance(y, str):
                return y
            if y is not None:
                st.append(y)
        elif x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("setdefault", "get"):
            st.append(x.a[0].a[0])
    return None


def desc(tag):
    k, _, n = tag.partition(":")
    return {"clsattr": "class-level object %s", "default": "default argument %s"}.get(k, "%s") % n


def mutable(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or \
        (isinstance(d, ast.Call) and not (isinstance(d.func, ast.Name) and d.func.id in ("tuple", "frozenset", "float", "int", "str")))


def python(ctx):
    P = ctx.py()
    n = 0
    todo = []
    cache = {}

    def owner(c):
        """Attribute name -> what it holds after construction, or the class-level mutable object it resolves to."""
        if c is None:
            return None
        if c.q not in cache:
            s = None
            if P.find(c, "__init__")[0] is not None:
                s = pyeval.Engine(P, opaque=PYOPAQUE).run(c, "__init__")[0]
            cache[c.q] = s

        def own(x):
            s = cache[c.q]
            v = s.heap.get((mk("self", c), x)) if s is not None else None
            if v is not None:
                return v
            k, ds = P.find(c, x)
            if k is not None and ds[0][0] == "attr" and mutable(ds[0][1]):
                return "class-level object %s.%s" % (k.q, x)
            return None
        return own
    for m in P.mods.values():
        if m.name == "freud.plot":
            continue
        for fn, node in m.funcs.items():
            todo.append((m, None, fn, node, "%s.%s" % (m.name, fn)))
        for c in m.classes.values():
            for name, ds in c.defs.items():
                if name in PLOT:
                    continue
                for k, d in ds:
                    todo.append((m, c, name, d, "%s.%s%s" % (c.q, name, ".setter" if k == "setter" else "")))
    for m, c, name, node, q in todo:
        n += 1
        bad = []
        for d in decos(node):
            if any(d.split("(")[0].endswith(w) for w in ("lru_cache", "functools.cache", "cached_property")) or d.split("(")[0] == "cache":
                if not d.endswith("cached_property"):
                    bad.append(("R5", "decorator %s keeps results across objects" % d, node.lineno))
        own = owner(c)
        E = pyeval.Engine(P, opaque=PYOPAQUE)
        a = node.args
        pos = a.posonlyargs + a.args
        args = {}
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if mutable(d):
                args[p.arg] = mk("list", "default:%s.%s" % (name, p.arg), (mk("param", p.arg),))
        if c is None:
            E.runfunc(m, node, q, args=args)
        elif q.endswith(".setter"):
            ps = [x.arg for x in node.args.args]
            E.body(node, m, q, {ps[0]: mk("self", c), ps[1]: mk("param", ps[1])}, pyeval.State(), cls=c, dyn=c)
        else:
            E.run(c, name, args=args)
        ctx.fnset |= E.visited
        for e in E.events:
            if e.kind == "global":
                if m.name != "freud.parallel":
                    bad.append(("R3", "assignment to global %s" % e.place, e.line))
            elif e.kind == "setattr":
                if e.target.op in ("cls", "mod", "ext", "native") or (e.target.op == "call" and "type" in show(e.target.a[0], 2) and len(e.target.a[1]) == 1) \
                        or (e.target.op == "attr" and e.target.a[1] == "__class__"):
                    if not e.fn.startswith("freud.parallel"):
                        bad.append(("R3", "assignment to attribute %s of %s" % (e.place, show(e.target, 3)), e.line))
                else:
                    g = globalobj(e.target, own)
                    if g:
                        bad.append(("R3", "assignment into %s" % g, e.line))
                v = e.value
                if v is not None and v.op == "list" and isinstance(v.a[0], str) and v.a[0].startswith("default:"):
                    bad.append(("R4", "%s stored in attribute %s" % (desc(v.a[0]), e.place), e.line))
            elif e.kind in ("setitem", "aug", "mut"):
                g = globalobj(e.target, own)
                if e.kind == "aug" and g and e.target.op in ("glob", "lit"):
                    g = None if e.target.op == "lit" else g
                if g and not e.fn.startswith("freud.parallel"):
                    bad.append(("R4" if g.startswith("default") else "R3", "in-place change of %s" % g, e.line))
            elif e.kind == "return" and e.value is not None and e.value.op == "list" and isinstance(e.value.a[0], str) and e.value.a[0].startswith("default:"):
                bad.append(("R4", "%s returned" % desc(e.value.a[0]), e.line))
            elif e.kind == "call" and e.target is not None and e.target.op == "ext":
                d = e.target.a[0].split(".")
                if len(d) >= 3 and d[-2] == "random" and d[-1] in RNG:
                    bad.append(("R5", "%s uses the global random state" % e.target.a[0], e.line))
        for r, msg, line in bad:
            ctx.fail(r, "%s: %s" % (q, msg), msg, "freud/%s.py" % m.name.split(".")[-1], line)
        if not bad:
            ctx.ob(True, "R3", q, "", "freud/%s.py" % m.name.split(".")[-1], node.lineno)
    ctx.need(n, 200, "Python functions")
