"""Ownership analysis of returned results. For every class with a compute method the analysis determines which objects a
user can hold: the shared arrays and lists that accessors used by public members hand out, and the Python attributes that
properties return without copying. It then evaluates the native functions a fresh computation runs (reset and accumulate,
or compute) followed by each accessor, on one abstract object: no store, accumulation, resize or sort may reach memory
that one of these shared pointers held before the sequence began; results go to memory allocated within the sequence.
Accessors must hand out shared ownership or a copy. Every array view made of native memory must name as its owner the
object the memory belongs to. On the Python side, compute and the properties do not change in place an object that a
property may have returned before."""
import re
from ..terms import T, mk, lit, islit, walk, root, show, subst
from ..shared import placename, simple
from ..link import Link, public_members, selfpath
from .. import history, pyeval
from ..bind import find
from . import p03, p06, p08

WRITES = ("store", "acc", "append", "insert", "resize", "clear", "assign", "erase", "pop_back", "sort")


def alternatives(t):
    """Values a pointer term may stand for."""
    out, todo, seen = [], [t], set()
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == "phi":
            todo.extend(t.a[1:])
        elif t.op in ("hv", "ho", "amb", "upd"):
            todo.extend(x for x in t.a if isinstance(x, T))
        else:
            out.append(t)
    return out


def held(v):
    """Paths of the fields whose pointee (or contents) a returned value gives access to."""
    out = set()
    for t in alternatives(v):
        if t.op == "ld" and root(t.a[0]).op == "this":
            out.add(selfpath(t.a[0]))
        elif t.op == "ptr":
            p = t.a[0]
            while p.op in ("fld", "idx"):
                p = p.a[0]
            if p.op == "deref":
                out |= held(p.a[0])
            elif p.op == "this":
                # a reference to a member: the pointer it holds is copied
                out.add(selfpath(t.a[0]))
    return {x for x in out if x}


def entry(p):
    """Fields of the receiver through whose pointee of before the sequence a place is reached."""
    out, todo, seen = set(), [p], set()
    while todo:
        p = todo.pop()
        while p.op in ("fld", "idx"):
            p = p.a[0]
        if p.op != "deref" or p in seen:
            continue
        seen.add(p)
        for t in alternatives(p.a[0]):
            if t.op == "ld":
                if root(t.a[0]).op == "this":
                    w = selfpath(t.a[0])
                    if w:
                        out.add(w)
                else:
                    todo.append(t.a[0])
            elif t.op == "ptr":
                todo.append(t.a[0])
    return out


def check(ctx):
    ctx.rule("R1: a fresh computation (reset and accumulate, or compute, then any accessor) writes to no array that an accessor handed out before")
    ctx.rule("R2: accessors used by public members hand out shared ownership or copies, never pointers or references into the object")
    ctx.rule("R3: every array view of native memory is owned by the object the memory belongs to")
    ctx.rule("R4 (Python): compute and properties change no object in place that a property may have returned")
    L = Link(ctx)
    F = L.F
    nc = nx = 0
    used = {}
    for c in history.computes(L):
        file = "freud/%s.py" % c.mod.name.split(".")[-1]
        python(ctx, L, c, file)
        steps, cls, q = history.steps(L, c, True)
        if not steps:
            continue
        nc += 1
        acc = p03.accessors(L, c, cls)
        exposed = {}
        for g, (i, n) in sorted(acc.items()):
            used[(q, g)] = (c, n)
            R = history.Run(L, cls)
            s, v = R.call(i, g)
            ctx.visited(R.E)
            if v is not None:
                for w in held(v):
                    exposed.setdefault(w, n)
        nx += len(exposed)
        R = history.Run(L, cls)
        for n, i in steps:
            R.call(i, n)
        ctx.visited(R.E)
        writes(ctx, c, R, 0, exposed, steps)
        base, nev = dict(R.mem), len(R.E.events)
        for g, (i, n) in sorted(acc.items()):
            R.mem = dict(base)
            R.call(i, g)
            writes(ctx, c, R, nev, exposed, steps + [(g, i)])
            del R.E.events[nev:]
        for w in sorted(exposed):
            ctx.ob(True, "R1", "%s %s" % (c.q, w), "", file, 0)
    handed(ctx, L, used)
    owners(ctx, L)
    ctx.cov["classes"] = nc
    ctx.cov["handed_out"] = nx
    ctx.need(nc, 15, "compute classes with native code")
    ctx.need(nx, 25, "results handed out")


def writes(ctx, c, R, start, exposed, steps):
    for e in R.E.events[start:]:
        if e.kind not in WRITES or e.place is None:
            continue
        hit = entry(e.place) & set(exposed)
        if e.kind == "store" and e.place.op not in ("fld", "idx", "deref"):
            continue
        for w in sorted(hit):
            ctx.ob(False, "R1", "%s %s" % (c.q, w),
                   "%s writes into the memory of an earlier result (%s, field %s)" % ("+".join(n for n, _ in steps), exposed[w], w), e.file, e.line)


def handed(ctx, L, used):
    """Return types and return-value policies of the accessors."""
    F = L.F
    for (q, g), (c, n) in sorted(used.items()):
        for m in L.method(q, g):
            f = F.fns.get(m.fnid) or {}
            rt = re.sub(r"\s*\([^()]*\)\s*(const)?\s*(noexcept)?\s*$", "", str(m.ret or m.rt or "")).strip()
            if "shared_ptr" in rt:
                pol = None
                ctx.ob(True, "R2", "%s.%s" % (q, g), "", m.file, m.line)
                continue
            pol = None
            for x in m.extras:
                y = find(x, lambda z: z.get("k") == "ref" and "rv_policy::" in str(z.get("qn") or ""))
                pol = pol or (y and str(y.get("qn") or y.get("n")))
            bad = None
            if pol and ("reference" in pol or "take_ownership" in pol) and rt.endswith(("&", "*")) and any(x in rt for x in ("ManagedArray", "NeighborList", "vector")):
                bad = "is bound with %s" % pol.split("::")[-1]
            elif rt.endswith("*") and "char" not in rt:
                bad = "is a plain pointer"
            ctx.ob(not bad, "R2", "%s.%s" % (q, g), "the result of %s.%s %s: it does not own the memory it refers to" % (c.q, n, bad), m.file, m.line)


def owners(ctx, L):
    n = 0
    seen = set()
    for q in sorted(L.B.classes):
        for name, ms in sorted(L.B.classes[q].methods.items(), key=str):
            for m in ms:
                f = L.F.fns.get(m.fnid) if m.fnid else None
                if f is None or "ndarray" not in str(m.ret or m.rt).split("(")[0] or m.fnid in seen:
                    continue
                seen.add(m.fnid)
                E, s, v = L.nrun(m.fnid)
                ctx.visited(E)
                for e in E.events:
                    if e.kind != "ctor" or not isinstance(e.info, dict) or not str(e.info.get("cls")).startswith("nanobind::ndarray"):
                        continue
                    a = list(e.value.a) if isinstance(e.value, T) else []
                    a = [x for x in a if isinstance(x, T)]
                    if len(a) < 2:
                        continue
                    n += 1
                    src = {x for x in walk(a[0]) if x.op in ("pobj", "param")}
                    own = set()
                    for x in a[2:4] if len(a) > 3 and a[2].op == "ptr" else a[2:4]:
                        own |= {y for y in walk(x) if y.op in ("pobj", "param")}
                    caps = any("capsule" in show(x, 4) for x in a[2:4])
                    ctx.ob(bool(src & own) or caps, "R3", simple(m.fnid), "the array does not keep the object alive that its memory belongs to", e.file, e.line)
    ctx.cov["array_views"] = n
    ctx.need(n, 8, "array views of native memory")


def python(ctx, L, c, file):
    me = mk("self", c)
    Ei, si = L.ctor.get(c.q, (None, None))
    o, ds = L.P.find(c, "compute")
    pa = [a.arg for a in ds[0][1].args.args]

    def start(drop):
        s = si.copy() if si else pyeval.State()
        s.guards = ()
        for a in drop:
            s.heap.pop((me, a), None)
        return s
    attrs = {a for (x, a) in (si.heap if si else {}) if x is me}
    E = L.engine()
    E.run(c, "compute", s=start(()), args={"reset": lit(True)} if "reset" in pa else None)
    ctx.fnset |= E.visited
    attrs |= {e.place for e in E.events if e.kind == "setattr" and e.target is me}
    attrs.discard("_cpp_obj")
    names = {mk("attr", me, a): mk("param", "@" + a) for a in attrs}
    runs = []
    shared = {}
    for n, ow, k, d in public_members(L.P, c):
        if k not in ("property", "computed", "method") or n in ("compute", "__init__", "reset"):
            continue
        if k == "method" and len(d.args.args) > 1:
            continue
        G = L.engine()
        s, v = G.run(c, n, s=start(attrs))
        ctx.fnset |= G.visited
        runs.append((n, G))
        if v is not None:
            al = p08.Alias()
            # an array changed in place is still the same array
            same = {pyeval.mkop(e.place, e.target, e.value): e.target for e in G.events if e.kind == "aug" and isinstance(e.target, T) and isinstance(e.value, T)}
            todo = [v]
            while todo:
                t = subst(todo.pop(), same)
                if t.op in ("tuple", "list"):
                    todo.extend(x for x in walk(t) if x is not t and x.op not in ("tuple", "list"))
                for x in al.of(subst(t, names)):
                    if x.startswith("@"):
                        shared.setdefault(x[1:], n)
    E = L.engine()
    E.run(c, "compute", s=start(attrs), args={"reset": lit(True)} if "reset" in pa else None)
    ctx.fnset |= E.visited
    for nm, G in [("compute", E)] + runs:
        hits = {}
        al = p08.Alias()
        for e in G.events:
            if e.kind not in ("mut", "setitem", "aug"):
                continue
            t = e.target
            if not isinstance(t, T):
                continue
            for x in al.of(subst(t, names)):
                if x.startswith("@") and x[1:] in shared:
                    if e.kind == "aug" and numeric(L, c, si, me, x[1:]):
                        continue
                    hits.setdefault(x[1:], e)
        for a, n in sorted(shared.items()):
            e = hits.get(a)
            ctx.ob(e is None, "R4", "%s.%s: %s" % (c.q, nm, a), "%s changes in place the object that %s may have returned (%s)" % (nm, n, a),
                   e.file if e else file, e.line if e else 0)


def numeric(L, c, si, me, a):
    v = si.heap.get((me, a)) if si else None
    return v is not None and islit(v) and isinstance(v.a[0], (int, float)) and not isinstance(v.a[0], bool)
