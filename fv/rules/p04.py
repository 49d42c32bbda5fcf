"""Typestate analysis of accumulation. For every class whose compute takes reset, the native functions compute runs are
evaluated on an object in an unknown state, so that earlier contributions are symbols. Accumulating must keep them: every
value that reset clears and accumulate updates has a new value that contains the old one, the frame counter grows by
exactly one, and no accumulator is cleared. Reading must not change what a later read returns: with the reduction flag
evaluated symbolically, every getter performs the same writes after accumulate+read+accumulate as after
accumulate+accumulate, getters write no accumulator, rebuild each array from zero, and return an array that has been
rebuilt. Reset discards everything (the backward slice of P03 on these classes). Averaged results have degree zero, and
plain counts degree one, in a joint homogeneity inference that gives the accumulators and the frame counter degree one. In
Python, the attributes compute initialises on reset are followed the same way."""
import ast
from ..terms import T, mk, lit, islit, walk, root, show
from ..shared import placename
from ..link import Link, public_members, overlap, selfpath, norm
from .. import history, pyeval
from . import p03

WRITES = ("store", "acc", "append", "insert", "resize", "sort")
CLEAR = ("reset", "clear", "fill", "assign")
ANY = "any"


def within(p, q):
    return p is q or q in history.ancestors_of(p)


def copies(E, p):
    """The thread-local container a place lies in (a copy of), if any."""
    for k in range(12):
        r = root(p)
        if r.op in ("tls", "etsit"):
            return r.a[0]
        if r.op != "deref":
            return None
        x = r.a[0]
        while x.op == "op" and len(x.a) > 1:
            x = x.a[1]
        if x.op == "ld":
            p = x.a[0]
        elif x.op == "ptr":
            p = x.a[0]
        elif x.op == "etsit":
            return x.a[0]
        elif x.op == "lv":
            inf = (E.lvs or {}).get(x)
            if inf and inf[0].op == "etsit":
                return inf[0].a[0]
            return None
        else:
            return None
    return None


def resetting(L):
    for c in history.computes(L):
        o, ds = L.P.find(c, "compute")
        pa = [a.arg for a in ds[0][1].args.args + ds[0][1].args.kwonlyargs]
        if "reset" in pa:
            yield c, o, ds[0][1]


def default(d, name):
    a = d.args
    for x, v in list(zip(reversed(a.args), reversed(a.defaults))) + [(x, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v]:
        if x.arg == name:
            return v
    return None


def typeof(F, cls, p):
    """Class of the object at a place below an object of class cls, where the declared types tell."""
    if p.op == "this":
        return cls
    if p.op == "obj":
        return str(p.a[1])
    if p.op == "ld":
        t = typeof(F, cls, p.a[0])
        if t and "shared_ptr<" in t:
            return t.split("shared_ptr<", 1)[1].rsplit(">", 1)[0].strip()
        return t.rstrip("*& ") if t else None
    if p.op == "deref":
        return typeof(F, cls, p.a[0])
    if p.op == "fld":
        t = typeof(F, cls, p.a[0])
        todo = [t] if t else []
        while todo:
            x = norm(todo.pop(0).replace("const ", ""))
            r = F.recs.get(x)
            if not r:
                continue
            for f in r.get("fields") or []:
                if f["n"] == p.a[1]:
                    return f["t"].replace("const ", "").strip()
            todo += [b if isinstance(b, str) else b.get("t") or b.get("n") for b in r.get("bases") or []]
    return None


class Degree:
    """Degree of a term in (contributions of accumulated frames): accumulators and the updated frame counter have degree one."""

    def __init__(self, E, counters, mem):
        self.E, self.counters, self.mem = E, counters, mem
        self.memo = {}
        self.active = set()

    def join(self, xs):
        out = ANY
        for x in xs:
            if x is None:
                return None
            if x == ANY:
                continue
            if out != ANY and out != x:
                return None if out is None else "mixed"
            out = x
        return out

    def __call__(self, t):
        if not isinstance(t, T):
            return 0
        if t in self.memo:
            return self.memo[t]
        if t in self.active:
            return ANY
        self.active.add(t)
        r = self.of(t)
        self.active.discard(t)
        if not self.active:
            self.memo[t] = r
        return r

    def content(self, p):
        """Degree of what the events so far stored at a place."""
        r = root(p)
        if copies(self.E, p):
            return 1
        vs = []
        for e in self.E.events:
            if e.kind in WRITES and e.place is not None and root(e.place) is r and isinstance(e.value, T) and (within(e.place, p) or within(p, e.place) or e.place.op == "idx" and p.op == "idx" and e.place.a[0] is p.a[0]):
                vs.append(self(e.value))
        if vs:
            return self.join(vs)
        return 0 if r.op in ("this", "deref", "obj", "pobj", "param") else None

    def of(self, t):
        o = t.op
        if t in self.counters:
            return 1
        if islit(t):
            return ANY if t.a[0] == 0 else 0
        if o == "ld":
            return self.content(t.a[0])
        if o in ("hv", "ho"):
            if copies(self.E, t.a[1]):
                return 1
            up = self.E.loops.get(t.a[0], {}).get("upd", {})
            vs = []
            for q, xs in up.items():
                if within(q, t.a[1]) or within(t.a[1], q) or q.op == "idx" and t.a[1].op == "idx" and q.a[0] is t.a[1].a[0]:
                    vs += [self(x) for x in xs]
            if not vs:
                return self.content(t.a[1])
            return self.join(vs)
        if o == "op":
            k, xs = t.a[0], t.a[1:]
            if k in ("+", "-", "min", "max"):
                return self.join([self(x) for x in xs])
            if k == "*":
                ds = [self(x) for x in xs]
                if None in ds or "mixed" in ds:
                    return None if None in ds else "mixed"
                return ANY if ANY in ds else sum(ds)
            if k == "/":
                ds = [self(x) for x in xs]
                if None in ds or "mixed" in ds:
                    return None if None in ds else "mixed"
                return ANY if ANY in ds else ds[0] - sum(ds[1:])
            if k in ("toint", "tofloat", "cast"):
                return self(xs[0])
        if o == "upd":
            return self.join([self(x) for x in t.a if isinstance(x, T)])
        if o == "undef":
            return ANY
        if o == "phi":
            return self.join([self(x) for x in t.a[1:]])
        if o in ("cast", "conv", "static_cast"):
            return self(t.a[-1])
        if o in ("ilist", "tuple", "construct", "ctor", "fresh"):
            return self.join([self(x) for x in t.a if isinstance(x, T)])
        ds = [self(x) for x in t.a if isinstance(x, T)]
        ds += [self(x) for y in t.a if isinstance(y, tuple) for x in y if isinstance(x, T)]
        return 0 if all(d in (0, ANY) for d in ds) else None


def writes(R, i):
    out = set()
    for e in R.events(i):
        if e.kind in WRITES and e.place is not None and root(e.place).op not in ("var", "tmp", "param"):
            cond = [g for g, p in e.guards if not history.loopguard(R.E, g)]
            out.add((placename(e.place), bool(cond)))
    return out


def native(ctx, L, c):
    F = L.F
    on, cls, q = history.steps(L, c, True)
    off, cls2, q2 = history.steps(L, c, False)
    if not on and not off:
        return False
    cls = cls or cls2
    extra = on[:len(on) - len(off)]
    line = L.P.find(c, "compute")[1][0][1].lineno
    file = "freud/%s.py" % L.P.find(c, "compute")[0].mod.name.split(".")[-1]
    ctx.ob(bool(extra) and on[len(extra):] == off, "R1", c.q + ".compute",
           "with reset=True the native calls %s are not a reset followed by the calls made with reset=False (%s)" % (", ".join(n for n, _ in on), ", ".join(n for n, _ in off)), file, line)
    if not extra or on[len(extra):] != off:
        return True
    cs, E, s = history.pycalls(L, c, True)
    thr = history.throws(E, "raise")
    names = {n for n, _ in extra}
    Ei, si = L.ctor.get(c.q, (None, None))
    given = set(si.guards) if si else set()
    ctx.ob(any(n in names and not history.conditions(thr, [g for g in e.guards if g not in given]) for q, n, e in cs), "R1", c.q + ".compute reset",
           "with reset=True the native reset happens only under a condition", file, line)
    # what reset clears
    Z = history.Run(L, cls)
    for n, i in extra:
        Z.call(i, n)
    ctx.visited(Z.E)
    zero = {}
    for k in range(len(Z.marks)):
        for e in Z.events(k):
            if e.kind in WRITES and e.place is not None:
                r = root(e.place)
                if r.op == "this" and selfpath(e.place):
                    zero[selfpath(e.place)] = e.value
    # accumulate on an unknown state
    A = history.Run(L, cls)
    for n, i in off:
        A.call(i, n)
    ctx.visited(A.E)
    counters, cnames = set(), set()
    accplaces = set()
    nc = 0
    ath = history.throws(A.E, "throw")
    for k in range(len(A.marks)):
        for e in A.events(k):
            if e.kind not in WRITES or e.place is None:
                continue
            r = root(e.place)
            X = copies(A.E, e.place)
            fn = F.fns[off[k][1]]
            if X is not None:
                nc += 1
                accplaces.add(X)
                old = isinstance(e.value, T) and any((x.op in ("ld", "hv", "ho")) and copies(A.E, x.a[-1]) is X for x in walk(e.value))
                ok = e.op not in CLEAR and (old or e.op in ("+=", "-=", "++") or e.kind in ("append", "insert"))
                ctx.ob(ok, "R4", "%s.%s %s" % (c.q, A.marks[k][0], placename(e.place)),
                       "%s overwrites what earlier frames accumulated in %s" % (A.marks[k][0], placename(e.place)), e.file or fn["file"], e.line or fn["l"])
            elif r.op == "this" and selfpath(e.place):
                w = selfpath(e.place)
                hit = [z for z in zero if overlap({z}, {w})]
                if not hit:
                    continue
                z = zero[hit[0]]
                fin = A.mem.get(e.place)
                if islit(z) and isinstance(z.a[0], bool):
                    continue        # a flag
                nc += 1
                v = fin if fin is not None else e.value
                old = mk("ld", e.place)
                reads = isinstance(v, T) and any(x is old or x.op in ("hv", "ho") and x.a[-1] is e.place for x in walk(v))
                ctx.ob(reads, "R4", "%s.%s %s" % (c.q, A.marks[k][0], w),
                       "%s replaces %s without regard to its earlier value" % (A.marks[k][0], w), e.file or fn["file"], e.line or fn["l"])
                if not reads:
                    continue
                leaves = {x for x in walk(v) if x.op in ("ld", "hv", "ho", "lv", "param", "pobj", "call", "lit")}
                if islit(z) and z.a[0] == 0 and counter(v, old):
                    one = v.op == "op" and v.a[0] == "+" and {v.a[1], v.a[2]} == {old, lit(1)} if len(v.a) == 3 else False
                    ctx.ob(one, "R4", "%s.%s %s" % (c.q, A.marks[k][0], w),
                           "the frame counter %s does not grow by exactly one in every %s" % (w, A.marks[k][0]), e.file or fn["file"], e.line or fn["l"])
                    if one:
                        counters.add(v)
                        cnames.add(w)
    # every accumulator (accumulated into by some getter's source) is cleared by reset: the slice of P03
    acc = p03.accessors(L, c, cls)
    reading(ctx, L, c, cls, off, acc, counters, accplaces, zero)
    ctx.cov["contributions"] = ctx.cov.get("contributions", 0) + nc
    p03.results(ctx, L, c, cls, on, acc, "R5", "R5")
    return True


def counter(v, old):
    """A value built from the old value and constants only."""
    return all(x is old or x.op in ("lit", "op", "phi", "hv", "ho") or islit(x) or x.op in ("fld", "this") for x in walk(v) if isinstance(x, T)) \
        and not any(x.op == "op" and x.a[0] in ("min", "max") for x in walk(v))


def BOOL(L, cls, p):
    return (p,) if typeof(L.F, cls, p) == "bool" else ()


def reading(ctx, L, c, cls, off, acc, counters, accplaces, zero):
    F = L.F
    # getters once after accumulate on an unknown state
    first = {}
    for g, (i, n) in sorted(acc.items()):
        R = history.Run(L, cls)
        for m, j in off:
            R.call(j, m)
        s2, v = R.call(i, g)
        ctx.visited(R.E)
        first[g] = (R, v, writes(R, -1))
    built = {}
    for g, (R, v, W) in first.items():
        for e in R.events(-1):
            if e.kind in WRITES and e.place is not None and root(e.place).op in ("deref", "obj") and e.place.op != "fld":
                built.setdefault(placename(root(e.place)), g)
    fields = set()
    for g, (R, v, W) in first.items():
        fields |= {selfpath(e.place) for e in R.events(-1) if e.kind in WRITES and e.place is not None and root(e.place).op == "this" and selfpath(e.place)}
    nres = 0
    for g, (R, v, W) in sorted(first.items()):
        f = F.fns[acc[g][0]]
        n = acc[g][1]
        evs = [e for e in R.events(-1) if e.kind in WRITES and e.place is not None]
        # R2b: getters leave the accumulators alone
        for e in evs:
            r = root(e.place)
            w = selfpath(e.place) if r.op == "this" else None
            cum = w and any(overlap({w}, {z}) and not (islit(zv) and isinstance(zv.a[0], bool)) for z, zv in zero.items()) and any(
                x.kind in WRITES and x.place is not None and root(x.place).op == "this" and selfpath(x.place) and overlap({selfpath(x.place)}, {w}) for k in range(len(R.marks) - 1) for x in R.events(k))
            X = copies(R.E, e.place)
            if X is not None or w:
                ctx.ob(not (X in accplaces) and not cum, "R2", "%s.%s %s" % (c.q, g, placename(e.place)),
                       "reading %s changes the accumulated data in %s" % (n, placename(e.place)), e.file or f["file"], e.line or f["l"])
        # R2c: what a getter adds up starts from zero
        seen = set()
        for e in evs:
            r = root(e.place)
            if copies(R.E, e.place) is not None:
                continue
            if r.op not in ("deref", "obj", "this") or r.op == "this" and not e.loops:
                continue
            own = isinstance(e.value, T) and any(x.op in ("ld", "hv", "ho") and root(x.a[-1]) is r and (r.op != "this" or overlap({selfpath(x.a[-1]) or ""}, {selfpath(e.place) or ""})) for x in walk(e.value))
            if own:
                ctx.ob(r in seen or r.op == "obj", "R2", "%s.%s %s" % (c.q, g, placename(e.place)),
                       "reading %s adds to what an earlier read left in %s" % (n, placename(e.place)), e.file or f["file"], e.line or f["l"])
            else:
                seen.add(r)
        # R2d: after accumulating, whether a result is rebuilt does not hang on a flag that earlier reads have cleared
        for e in evs:
            if root(e.place).op not in ("deref", "obj"):
                continue
            bad = [x for x, pol in e.guards for y in walk(x) if y.op == "ld" and root(y.a[0]).op == "this" and selfpath(y.a[0]) in fields
                   and y.a[0] in BOOL(L, cls, y.a[0])]
            ctx.ob(not bad, "R2", "%s.%s fresh %s" % (c.q, g, placename(e.place)),
                   "after a computation, reading %s rebuilds %s only if %s was left set earlier" % (n, placename(e.place), show(bad[0]) if bad else ""), e.file or f["file"], e.line or f["l"])
        # R3: the returned array is the rebuilt one
        a = v.a[0] if isinstance(v, T) and v.op == "ptr" else mk("deref", v) if isinstance(v, T) and v.op == "ld" else None
        if a is not None and a.op in ("deref", "obj"):
            nres += 1
            nm = placename(root(a))
            ctx.ob(nm not in built or any(root(e.place) is root(a) for e in evs), "R3", "%s.%s" % (c.q, g),
                   "%s returns %s, which other results rebuild from the accumulated data, without rebuilding it" % (n, nm), f["file"], f["l"])
            if a.op == "deref" and a.a[0].op == "ld":
                p = a.a[0].a[0]
                now = R.mem.get(p)
                ctx.ob(now is None or now is a.a[0] or now is v, "R3", "%s.%s stale" % (c.q, g), "%s returns the array that reading it has just replaced" % n, f["file"], f["l"])
        # R6: degrees
        degrees(ctx, L, c, cls, g, R, evs, counters, f)
    ctx.cov["results"] = ctx.cov.get("results", 0) + nres
    # R2: a read between two computations changes nothing
    for g1 in sorted(acc):
        R = history.Run(L, cls)
        for m, j in off:
            R.call(j, m)
        R.call(acc[g1][0], g1)
        if not [e for e in R.events(-1) if e.kind in WRITES and e.place is not None and root(e.place).op not in ("var", "tmp", "param")]:
            continue
        for m, j in off:
            R.call(j, m)
        base, nev = dict(R.mem), len(R.E.events)
        for g2, (i, n2) in sorted(acc.items()):
            R.mem = dict(base)
            R.call(i, g2)
            W, W0 = writes(R, -1), first[g2][2]
            miss = {p for p, k in W0 if not k} - {p for p, k in W if not k}
            miss = {p for p in miss if not p.startswith("new ")} or ({p for p in miss} if len([1 for p, k in W if not k]) < len([1 for p, k in W0 if not k]) else set())
            ctx.ob(not miss, "R2", "%s.%s after %s" % (c.q, g2, g1),
                   "after reading %s, a further computation is not reflected in %s (%s is not rebuilt)" % (acc[g1][1], n2, ", ".join(sorted(miss))), F.fns[i]["file"], F.fns[i]["l"])
            del R.E.events[nev:]
    return


def degrees(ctx, L, c, cls, g, R, evs, counters, f):
    D = Degree(R.E, counters, R.mem)
    last = {}
    for e in evs:
        if root(e.place).op in ("deref", "obj") and copies(R.E, e.place) is None and isinstance(e.value, T) and e.op not in CLEAR and not islit(e.value):
            last[root(e.place)] = e
    for r, e in last.items():
        t = typeof(L.F, cls, r)
        if not t or "ManagedArray<" not in t:
            continue
        counts = any(k in t for k in ("int", "size_t", "long"))
        d = D(e.value)
        if d is None or d == ANY:
            ctx.cov["undecided degrees"] = ctx.cov.get("undecided degrees", 0) + 1
            continue
        # a value that does not come from the accumulators at all
        ctx.ob(d == (1 if counts else 0), "R6", "%s.%s %s" % (c.q, g, placename(r)),
               "%s grows with the number of accumulated frames to the power %s (expected %d)" % (placename(r), d, 1 if counts else 0), e.file or f["file"], e.line or f["l"])
        ctx.cov["degrees"] = ctx.cov.get("degrees", 0) + 1


def python(ctx, L, c):
    me = mk("self", c)
    o, ds = L.P.find(c, "compute")
    d = ds[0][1]
    file = "freud/%s.py" % o.mod.name.split(".")[-1]
    dv = default(d, "reset")
    ctx.ob(isinstance(dv, ast.Constant) and dv.value is True, "R1", c.q + ".compute default", "reset does not default to True", file, d.lineno)
    Ei, si = L.ctor.get(c.q, (None, None))
    s0 = si.copy() if si else pyeval.State()
    s0.guards = ()
    res = {}
    E = L.engine()
    s, v = E.run(c, "compute", s=s0.copy(), args={"reset": lit(True)})
    ctx.fnset |= E.visited
    mut = {e.place for e in E.events if e.kind == "setattr" and e.target is me}
    flag = p03.p06.flagname(p03.quiet(ctx), L)[1] or "_called_compute"
    u = s0.copy()
    for a in mut | {flag}:
        u.heap.pop((me, a), None)
    for r in (True, False):
        E = L.engine()
        s, v = E.run(c, "compute", s=u.copy(), args={"reset": lit(r)})
        ctx.fnset |= E.visited
        res[r] = (E, s)

    def old(a):
        return mk("attr", me, a)

    def events(r, a):
        E, s = res[r]
        return [e for e in E.events if e.kind == "setattr" and e.target is me and e.place == a or e.kind in ("mut", "aug", "setitem") and isinstance(e.target, T) and e.target is old(a)]
    E0, s0f = res[False]
    E1, s1f = res[True]
    A = set()
    for a in sorted(mut):
        on = [e for e in E1.events if e.kind == "setattr" and e.target is me and e.place == a]
        off = [e for e in E0.events if e.kind == "setattr" and e.target is me and e.place == a]
        if len(on) > len(off):
            A.add(a)
    # attributes compute keeps from call to call without resetting them
    for a in sorted(mut):
        x = s1f.heap.get((me, a))
        if a in A:
            continue
        y = s0f.heap.get((me, a))
        if x is not None and y is not None and any(t is old(a) for t in walk(y)) and y.op == "op" and y.a[0] in ("+", "-", "*", "or", "and"):
            ctx.ob(False, "R7", "%s.compute %s" % (c.q, a), "%s accumulates over calls but is not reset" % a, file, d.lineno)
    thr = history.throws(E1, "raise")
    n = 0
    divisors = set()
    for nme, ow, k, dd in public_members(L.P, c):
        if k == "computed":
            G = L.engine()
            sg, v = G.run(c, nme, s=u.copy())
            for x in walk(v) if isinstance(v, T) else ():
                if x.op == "op" and x.a[0] == "/":
                    divisors |= {a for a in A for y in x.a[2:] if y is old(a)}
    for a in sorted(A):
        n += 1
        on = [e for e in E1.events if e.kind == "setattr" and e.target is me and e.place == a]
        ctx.ob(not history.conditions(thr, on[0].guards) and not any(x is old(a) for x in walk(on[0].value)), "R7", "%s.compute resets %s" % (c.q, a),
               "with reset=True %s is renewed only under a condition or from its old value" % a, on[0].file, on[0].line)
        fin = s0f.heap.get((me, a))
        evs = events(False, a)
        ok = bool(evs) and (fin is None or any(x is old(a) for x in walk(fin)))
        for e in evs:
            if e.kind == "setattr" and isinstance(e.value, T) and not any(x is old(a) or x.op == "phi" for x in walk(e.value)):
                ok = False
        at = evs[0] if evs else on[0]
        ctx.ob(ok, "R7", "%s.compute accumulates %s" % (c.q, a),
               "with reset=False compute %s %s" % ("replaces" if evs else "adds nothing to", a), at.file, at.line)
        if fin is not None and on[0].value is lit(0) and ok and (number(fin, old(a)) or a in divisors):
            one = fin.op == "op" and fin.a[0] == "+" and set(fin.a[1:]) == {old(a), lit(1)}
            ctx.ob(one, "R7", "%s.compute counts %s" % (c.q, a), "the frame counter %s does not grow by exactly one per call" % a, at.file, at.line)
    # properties
    sums = {a for a in A if s0f.heap.get((me, a)) is not None and s0f.heap[(me, a)].op == "op" and s0f.heap[(me, a)].a[0] == "+"}
    counters = {a for a in sums if number(s0f.heap[(me, a)], old(a)) or a in divisors}
    sums -= counters
    for nme, ow, k, dd in public_members(L.P, c):
        if k not in ("property", "computed", "method") or nme in ("compute", "__init__"):
            continue
        if k == "method" and len(dd.args.args) > 1:
            continue
        G = L.engine()
        sg, v = G.run(c, nme, s=u.copy())
        ctx.fnset |= G.visited
        for e in G.events:
            hit = e.kind == "setattr" and e.target is me and e.place in A and e.place or e.kind in ("mut", "aug", "setitem") and isinstance(e.target, T) and next((a for a in A if e.target is old(a)), None)
            if e.kind in ("setattr", "mut", "aug", "setitem"):
                ctx.ob(not hit, "R7", "%s.%s" % (c.q, nme), "reading %s changes the accumulated %s" % (nme, hit), e.file, e.line)
        if k == "computed" and isinstance(v, T) and counters:
            for a in sorted(sums):
                if any(x is old(a) for x in walk(v)):
                    n += 1
                    ctx.ob(pydeg(v, {old(x) for x in sums | counters}) in (0, None, ANY), "R6", "%s.%s" % (c.q, nme),
                           "%s is not divided by the number of accumulated frames exactly once" % nme, file, dd.lineno)
    # caches, also when nothing is reset
    p03.caches(ctx, L, c, False, "R7")
    return n


def number(v, old):
    return all(x is old or islit(x) or x.op in ("op", "ite", "attr", "self") for x in walk(v) if isinstance(x, T))


def pydeg(t, ones):
    if not isinstance(t, T):
        return 0
    if t in ones:
        return 1
    if islit(t):
        return ANY if t.a[0] == 0 else 0
    if t.op == "op":
        ds = [pydeg(x, ones) for x in t.a[1:]]
        if None in ds:
            return None
        if t.a[0] == "*":
            return ANY if ANY in ds else sum(ds)
        if t.a[0] == "/":
            return ANY if ds[0] == ANY else ds[0] - sum(x for x in ds[1:] if x != ANY)
        if t.a[0] in ("+", "-"):
            ds = [x for x in ds if x != ANY]
            return ds[0] if ds and all(x == ds[0] for x in ds) else (ANY if not ds else None)
    if not any(x in ones for x in walk(t)):
        return 0
    # numpy conversions of one argument keep the degree
    if t.op == "call" and isinstance(t.a[0], T) and t.a[0].op in ("ext", "attr", "bi"):
        args = [x for y in t.a if isinstance(y, tuple) for x in y if isinstance(x, T)]
        has = [x for x in args if any(z in ones for z in walk(x))]
        if len(has) == 1:
            name = str(t.a[0].a[-1])
            if any(k in name for k in ("asarray", "copy", "array")):
                return pydeg(has[0], ones)
    return None


def check(ctx):
    ctx.rule("R1: reset defaults to True, runs the native reset unconditionally before accumulating, and reset=False runs the same calls without it")
    ctx.rule("R2: reading a result between two computations changes neither the accumulated data nor what a later read rebuilds; what a read adds up starts from zero")
    ctx.rule("R3: every returned array that is made from accumulated data is rebuilt by the getter that returns it")
    ctx.rule("R4: accumulate keeps earlier contributions: new values contain the old ones, nothing is cleared, the frame counter grows by exactly one")
    ctx.rule("R5: after reset nothing accumulated earlier reaches a result")
    ctx.rule("R6: averaged results have degree 0, counts degree 1, where accumulators and the frame counter have degree 1")
    ctx.rule("R7 (Python): attributes initialised on reset are accumulated otherwise, counted once per call, not changed by reading; caches are renewed by every compute")
    L = Link(ctx)
    nn = n = 0
    for c, o, d in resetting(L):
        n += 1
        python(ctx, L, c)
        nn += bool(native(ctx, L, c))
    ctx.cov["classes"] = n
    ctx.cov["native classes"] = nn
    ctx.need(n, 8, "classes that accumulate")
    ctx.need(nn, 4, "native classes that accumulate")
    ctx.need(ctx.cov.get("contributions", 0), 3, "accumulated contributions")
