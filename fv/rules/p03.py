"""History-dependence analysis. For every class with a compute method the analysis takes the sequence of native functions
the Python method runs (with reset where that option exists), evaluates them one after the other on the same abstract
object, and then evaluates every accessor a public property uses. A backward slice of each result collects everything
from before the sequence it depends on: fields of the object, contents of arrays it already held, and copies kept by
other threads. None of these may be something compute, accumulate, reset or an accessor writes; copies kept by threads
must have been cleared completely (every copy, before accumulating). A condition whose other outcome raises is no
dependence (the statement allows an error). The Python side is sliced the same way: arguments given to native functions
and attributes compute assigns must not depend on attributes that compute or a property assigned earlier, and every cache
a property fills is renewed by compute."""
from ..terms import T, mk, lit, islit, walk, root, show
from ..shared import placename, simple
from ..link import Link, storedfields, public_members, overlap, selfpath
from .. import history, pyeval
from . import p06


def accessors(L, c, cls):
    """{accessor name: (function, public member)} of the native functions public members call."""
    F = L.F
    out = {}
    for n, ow, k, d in public_members(L.P, c):
        if k not in ("property", "computed", "method") or n in ("compute", "__init__", "__eq__", "__mul__", "__getitem__", "reset"):
            continue
        if k == "method" and len(d.args.args) > 1:
            continue
        for q, g, e in history.pycalls(L, c, None, n)[0]:
            if q in L.B.classes:
                for f in L.fns_of(q, g)[:1]:
                    out.setdefault(g, (history.override(F, cls, f), n))
    return out


def clean(x):
    return x.replace("*", "").replace("tls ", "").replace("this.", "")


def cleared(R, upto, X):
    """Every copy of the thread-local container at place X is renewed by the first `upto` events, unconditionally."""
    E = R.E
    for e in E.events[:upto]:
        if [g for g, p in e.guards if not history.loopguard(E, g)]:
            continue
        if e.kind == "store" and e.op == "clear" and e.place.op == "tls" and e.place.a[0] is X:
            return True
        if e.kind == "store" and e.place is not None and (e.place is X or e.place in history.ancestors_of(X)):
            return True
        if e.kind == "store" and isinstance(e.value, T) and e.loops:
            # a loop from begin to end of the container, assigning each copy (or all its contents)
            if e.place.op == "idx" or not zero(e.value):
                continue
            if any(full(E, l, X) for l in e.loops) and whole(E, e.place, X):
                return True
    return False


def zero(v):
    return (islit(v) and not v.a[0]) or v.op in ("ctor", "construct", "fresh") or (v.op == "upd" and not any(x.op in ("ld", "hv") for x in walk(v)))


def full(E, l, X):
    inf = E.loops.get(l, {})
    b = mk("etsit", X, "begin")
    for lv, (lo, how, L) in (E.lvs or {}).items():
        if L == l and lo is b:
            c = inf.get("cond")
            return c is not None and any(x is mk("etsit", X, "end") for x in walk(c)) and not inf.get("brk")
    r = inf.get("range")
    return r is not None and any(x is X for x in walk(r))


def whole(E, p, X):
    """The stored place is the whole content of one copy: no element index below the copy."""
    while p.op in ("fld", "deref", "ld", "idx"):
        if p.op == "idx":
            return False
        p = p.a[0]
    return True


def sticky(R, w, init):
    """The old value of field w is used only under a condition that had the same value in every earlier successful call:
    the sequence raises when it differs from the value recorded by the previous call."""
    E = R.E
    fin = None
    for p, v in R.mem.items():
        if root(p) is R.this and selfpath(p) == w.split(".")[0] or selfpath(p) == w:
            fin = v
    if fin is None:
        return False
    conds = [x.a[0] for x in walk(fin) if x.op == "phi" and any(y.op == "ld" and selfpath(y.a[0]) and overlap({selfpath(y.a[0])}, {w}) for a in x.a[1:] if isinstance(a, T) for y in walk(a))]
    if not conds:
        return False
    sides = [mk("ld", p) for p in R.mem if root(p) is R.this]
    for e in E.events:
        if e.kind != "throw":
            continue
        eqs, flags = [], []
        for g, pol in e.guards:
            for t, q in history.atoms(g, pol):
                if t.op == "op" and t.a[0] in ("==", "!=") and (t.a[0] == "==") != q:
                    eqs.append((t.a[1], t.a[2]))
                elif t.op == "ld" and q:
                    flags.append(t)
        ok = [f for f in flags if islit(R.mem.get(f.a[0], f)) and R.mem[f.a[0]].a[0] is True and init.get(selfpath(f.a[0])) is False]
        if flags and not ok:
            continue
        for a, b in eqs:
            for x, y in ((a, b), (b, a)):
                if all(c is x or strip(c) is strip(x) for c in conds) and recorded(R, x, y):
                    return True
    return False


def strip(t):
    while t.op == "op" and t.a[0] == "!" and len(t.a) == 2:
        t = t.a[1]
    return t


def recorded(R, x, y):
    """y is x evaluated on what this sequence records for the next call."""
    def norm(t):
        if not isinstance(t, T):
            return tuple(norm(z) for z in t) if isinstance(t, tuple) else t
        if t.op in ("ld", "fld", "this", "deref", "pobj", "param", "ptr"):
            p = t.a[0] if t.op == "ld" else t
            if t.op == "ld" or p.op == "fld":
                v = R.mem.get(p)
                if v is not None and root(p) is R.this:
                    return norm(v) if v.op != "ld" or root(v.a[0]) is not R.this else v
                if root(p) is R.this:
                    q = p
                    while q.op == "fld":
                        v = R.mem.get(q)
                        if v is not None and v.op == "ld":
                            k = []
                            z = p
                            while z is not q:
                                k.append(z.a[1])
                                z = z.a[0]
                            z = v.a[0]
                            for n in reversed(k):
                                z = mk("fld", z, n)
                            return ("place", z)
                        q = q.a[0]
            if t.op != "ld":
                return ("place", t)
            return ("place", t.a[0])
        return (t.op,) + tuple(norm(z) for z in t.a)
    return norm(x) == norm(y)


def results(ctx, L, c, cls, steps, acc, r1="R1", r2="R2"):
    F = L.F
    nr = 0
    R = history.Run(L, cls)
    M = set()
    for n, i in steps:
        R.call(i, n)
        M |= storedfields(L, i, cls)
    for n, i in history.steps(L, c, False)[0]:
        M |= storedfields(L, i, cls)
    acc = acc or accessors(L, c, cls)
    for g, (i, n) in acc.items():
        M |= storedfields(L, i, cls)
    ctx.visited(R.E)
    init = history.initial(L, cls)
    base, nev = dict(R.mem), len(R.E.events)
    upto = next((a for (nm, a, b, v), (n, i) in zip(R.marks, steps) if n != "reset"), 0)
    if any(n == "reset" for n, i in steps):
        upto = max(b for nm, a, b, v in R.marks if nm == "reset") if R.marks[0][0] == "reset" else 0
    else:
        upto = nev
    for g, (i, n) in sorted(acc.items()):
        R.mem = dict(base)
        s2, v = R.call(i, g)
        ctx.visited(R.E)
        f = F.fns[i]
        if v is not None:
            Pa = history.Past(R)
            Pa.visit(v)
            nr += 1
            bad = []
            for w, t in sorted(Pa.reads.items()):
                if w.startswith("tls "):
                    continue
                if overlap({clean(w)}, M):
                    if not sticky(R, clean(w), init):
                        bad.append((w, t))
            ctx.ob(not bad, r1, "%s.%s" % (c.q, g),
                   "%s after %s depends on what an earlier computation left in %s" % (n, "+".join(x for x, _ in steps), ", ".join(w for w, _ in bad)),
                   f["file"], f["l"])
            for X in sorted(Pa.tls, key=show):
                if root(X).op not in ("this", "deref"):
                    continue
                ctx.ob(cleared(R, upto, X), r2, "%s.%s %s" % (c.q, g, placename(X)),
                       "%s is made from the threads' copies in %s, which %s does not clear completely" % (n, placename(X), "reset" if steps[0][0] == "reset" else steps[0][0]),
                       f["file"], f["l"])
        del R.E.events[nev:]
    return nr


def check(ctx):
    ctx.rule("R1: no result of [reset,] compute depends on a field or array content that an earlier compute, reset or accessor may have written")
    ctx.rule("R2: thread-local accumulators a result is made from are cleared completely (every thread's copy) before accumulating")
    ctx.rule("R3 (Python): arguments given to native functions and attributes assigned by compute do not depend on attributes assigned by an earlier compute or by a property")
    ctx.rule("R4 (Python): compute renews every attribute in which a property caches a value")
    L = Link(ctx)
    F = L.F
    nc = nr = 0
    for c in history.computes(L):
        file = "freud/%s.py" % c.mod.name.split(".")[-1]
        python(ctx, L, c, file)
        steps, cls, q = history.steps(L, c, True)
        if not steps:
            continue
        nc += 1
        nr += results(ctx, L, c, cls, steps, None)
    ctx.cov["classes"] = nc
    ctx.cov["results"] = nr
    ctx.need(nc, 15, "compute classes with native code")
    ctx.need(nr, 60, "results")


class quiet:
    """A context that records what was analysed and judges nothing."""

    def __init__(self, ctx):
        self.fnset = ctx.fnset

    def __getattr__(self, n):
        return lambda *a, **k: None


def caches(ctx, L, c, reset, rule):
    """Every cache a property fills is renewed by compute. Returns (si, mutated attributes, caches, flag)."""
    me = mk("self", c)
    Ei, si = L.ctor.get(c.q, (None, None))
    o, ds = L.P.find(c, "compute")
    E = L.engine()
    pa = [a.arg for a in ds[0][1].args.args]
    s, v = E.run(c, "compute", s=si.copy() if si else None, args={"reset": lit(reset)} if "reset" in pa else None)
    ctx.fnset |= E.visited
    mut = {e.place for e in E.events if e.kind == "setattr" and e.target is me}
    cache = {}
    for n, ow, k, d in public_members(L.P, c):
        if k not in ("property", "computed", "method") or n in ("compute", "__init__", "reset"):
            continue
        if k == "method" and len(d.args.args) > 1:
            continue
        G = L.engine()
        s0 = si.copy() if si else pyeval.State()
        s0.guards = ()
        for a in mut:
            s0.heap.pop((me, a), None)
        G.run(c, n, s=s0)
        ctx.fnset |= G.visited
        for e in G.events:
            if e.kind == "setattr" and e.target is me:
                cache.setdefault(e.place, (n, e))
    flag = p06.flagname(quiet(ctx), L)[1] or "_called_compute"
    always = {}
    thr = history.throws(E, "raise")
    for x in E.events:
        if x.kind == "setattr" and x.target is me and not history.conditions(thr, x.guards):
            always[x.place] = x.value
    for a, (n, e) in sorted(cache.items()):
        if a == flag or islit(e.value) or not e.guards:
            continue
        # recomputed by the property because compute invalidates it
        ok = False
        for g, p in e.guards:
            for t, q in history.atoms(g, p):
                if t.op == "attr" and t.a[0] is me and t.a[1] in always and islit(always[t.a[1]]) and bool(always[t.a[1]].a[0]) == q:
                    ok = True
                if t.op == "op" and t.a[0] in ("is", "==") and q:
                    x = next((y for y in t.a[1:] if isinstance(y, T) and y.op == "attr" and y.a[0] is me), None)
                    y = next((y for y in t.a[1:] if isinstance(y, T) and y is not x), None)
                    if x is not None and always.get(x.a[1]) is y:
                        ok = True
        ctx.ob(ok, rule, "%s.%s caches %s" % (c.q, n, a), "%s keeps a value in %s that compute does not renew" % (n, a), e.file, e.line)
    return si, pa, mut, cache, flag


def python(ctx, L, c, file):
    me = mk("self", c)
    si, pa, mut, cache, flag = caches(ctx, L, c, True, "R4")
    mut |= set(cache)
    mut.discard(flag)
    # second evaluation: the attributes compute and the properties assign hold unknown values
    s1 = si.copy() if si else pyeval.State()
    s1.guards = ()
    for a in mut | {flag}:
        s1.heap.pop((me, a), None)
    E = L.engine()
    s, v = E.run(c, "compute", s=s1, args={"reset": lit(True)} if "reset" in pa else None)
    ctx.fnset |= E.visited
    old = {mk("attr", me, a): a for a in mut | {flag}}

    def uses(t):
        return sorted({old[x] for x in walk(t) if x in old}) if isinstance(t, T) else []
    thr = history.throws(E, "raise")
    n = 0
    for e in E.events:
        vs = []
        if e.kind == "ncall":
            vs = [x for x in e.args if isinstance(x, T)] + [x[1] for x in e.kw if isinstance(x, tuple) and isinstance(x[1], T)]
            what = "argument of %s" % e.target
        elif e.kind == "setattr" and e.target is me:
            vs = [e.value]
            what = "attribute %s" % e.place
        if not vs and e.kind != "ncall":
            continue
        n += 1
        bad = sorted({u for x in vs for u in uses(x)})
        cond = sorted({u for g in history.conditions(thr, e.guards) for u in uses(g)})
        if cond and not bad and e.kind == "setattr" and len([x for x in E.events if x.kind == "setattr" and x.target is me and x.place == e.place]) == 1 \
                and not any(x.op in ("param", "pobj") and str(x.a[0]).lstrip("*") in pa or x in old for x in walk(e.value)):
            # filled once with a value that depends on the constructor's arguments only
            cond = []
        ctx.ob(not bad and not cond, "R3", "%s.compute %s" % (c.q, what),
               "%s %s what an earlier computation left in %s" % (what, "depends on" if bad else "happens depending on", ", ".join(bad or cond)), e.file, e.line)
    return n
