"""P02: results do not depend on the number of threads nor on how loops are split into ranges.

Every store, append or resize of memory that outlives the body of a parallel region is a sink; what its value, its place and the conditions it
happens under depend on is traced through loops and calls.
R1 Nothing that reaches a sink depends on where a range begins or ends (apart from the loop over the range, which runs from its begin to its
   end in steps of one and is not left early), on a variable carried from one iteration of a range to the next (bond cursors, which are set
   from the first index of the range, excepted), or on what other iterations have stored.
R2 Thread-local memory is only accumulated into (sums, products, appended items) and what it holds does not reach a sink inside a region;
   memory shared by iterations (locked or atomic) is only accumulated into, too.
R3 What is gathered from thread-local containers is sorted before its items are stored, by a comparison that decides between any two bonds that
   differ in query point or point.
   Loops that combine the copies of all threads visit every copy, and only accumulate.
R5 The row a range of query points starts at (find_first_index) is the first one of the range: the bisection only moves its left end to
   rows below the range and its right end to rows that are not, and its last step adds one exactly when the first row is below the range.
R4 No result depends on clocks, thread identities or counts, results of atomic updates, or random numbers without a seed; ranges of parallel
   loops do not depend on the number of threads.
"""
import ast
from .. import cxx
from ..region import Region
from ..shared import OPAQUE, entries, evfn, owner_fn, placename, simple
from ..terms import T, mk, islit, walk, root, ancestors, show
from . import p01, p14

SINK = ("store", "acc", "append", "insert", "resize")
CLOCK = ("random_device", "rand", "time", "clock", "now", "current_thread_index", "get_id", "max_concurrency", "hardware_concurrency",
         "max_allowed_parallelism", "active_value", "default_concurrency")
COMM = ("+=", "-=", "*=", "/=", "|=", "&=", "^=", "++", "--", "+=c", "max", "min")


def check(ctx):
    F = ctx.cxx(None, False)
    nsink = ngath = nregion = ncomb = 0
    seen = set()
    for i in entries(F):
        f = F.fns[i]
        E = cxx.Engine(F, opaque=OPAQUE)
        E.run(i, cxx.S({}, ()), mk("this", f["cls"]) if f.get("cls") and not f.get("static") else None)
        a, b = sinks(ctx, E, seen)
        nsink += a
        nregion += b
        ngath += gather(ctx, F, E, seen)
        shape(ctx, F, E, seen)
        ncomb += combine(ctx, E, seen)
        if a:
            ctx.visited(E)
    orders(ctx, F)
    lookup(ctx, F)
    random(ctx)
    ctx.need(nregion, 15, "parallel regions that store results")
    ctx.need(ncomb, 2, "loops that combine the copies of all threads")
    ctx.need(ngath, 3, "stores of gathered items")


def lookup(ctx, F):
    NL = "freud::locality::NeighborList"

    def bond(t):
        return t.op == "ld" and t.a[0].op == "idx" and len(t.a[0].a) == 3 and islit(t.a[0].a[2]) and t.a[0].a[2].a[0] == 0

    def below(t, v, p):
        """Does this condition say that a row's query point is below v (True), or that it is not (False)? And which row."""
        if t.op == "op" and t.a[0] == "!":
            return below(t.a[1], v, not p)
        if t.op != "op" or t.a[0] not in ("<", "<=", ">", ">=") or len(t.a) != 3:
            return None
        o, a, b = t.a
        if o in (">", ">="):
            o, a, b = {">": "<", ">=": "<="}[o], b, a
        if not p:
            o, a, b = {"<": "<=", "<=": "<"}[o], b, a
        if bond(a) and b is v:
            return a.a[0].a[1], True, o == "<"
        if a is v and bond(b):
            return b.a[0].a[1], False, o == "<="
        return None
    n = 0
    for i, f in sorted(F.fns.items()):
        if f.get("cls") != NL or not f.get("body"):
            continue
        me = f["name"] if "name" in f else simple(i)
        if simple(i).endswith("::bisection_search") and len(f.get("ps") or []) == 3:
            E = cxx.Engine(F, opaque=OPAQUE)
            E.run(i, cxx.S({}, ()), mk("this", NL))
            v, lo, hi = (mk("param", p["n"]) for p in f["ps"])
            for e in E.events:
                if e.kind != "call" or not isinstance(e.value, T) or not str(e.op).endswith("bisection_search") and "bisection_search" not in str(e.target):
                    continue
                a = e.value.a
                if len(a) != 3:
                    continue
                n += 1
                facts = [x for x in (below(t, v, p) for t, p in e.guards) if x]
                okl = a[1] is lo or any(r is a[1] and b and s for r, b, s in facts)
                okh = a[2] is hi or any(r is a[2] and not b and s for r, b, s in facts)
                ctx.ob(bool(okl and okh and a[0] is v) if facts or a[0] is not v else None, "R5", "bisection_search step", "an end of the search moves past the first row of the range", e.file, e.line)
            ctx.visited(E)
        elif simple(i).endswith("::find_first_index"):
            E = cxx.Engine(F, opaque=OPAQUE)
            s, r = E.run(i, cxx.S({}, ()), mk("this", NL))
            v = mk("param", f["ps"][0]["n"])
            ctx.visited(E)
            for x in walk(r) if isinstance(r, T) else ():
                if x.op == "op" and x.a[0] == "+" and len(x.a) == 3 and any(y.op == "call" and "bisection_search" in str(y.a[0]) for y in x.a[1:]):
                    one = [y for y in x.a[1:] if y.op in ("phi", "ite")]
                    if len(one) != 1 or not all(islit(z) for z in one[0].a[1:]):
                        continue
                    n += 1
                    g, a, b = one[0].a
                    yes = below(g, v, True)
                    no = below(g, v, False)
                    up = (a.a[0], b.a[0])
                    ok = yes and no and islit(yes[0]) and yes[0].a[0] == 0 and yes[2] and no[2] and up == ((1, 0) if yes[1] else (0, 1))
                    ctx.ob(bool(ok), "R5", "find_first_index", "the row found is not the first one of the range", f.get("file"), f.get("l"))
    ctx.cov["row lookups"] = n


def once(seen, *k):
    if k in seen:
        return False
    seen.add(k)
    return True


# ---------------------------------------------------------------- regions
def partition(E, L):
    """Is L a loop over the range a thread was given?"""
    i = E.loops.get(L, {})
    c = i.get("cond")
    return any(isinstance(x[1], T) and has(x[1], "pb") for x in i.get("ind", {}).values()) or (c is not None and has(c, "pe"))


def has(t, op):
    return any(x.op == op for x in walk(t))


def concurrent(E, p):
    """Objects that are changed by many threads at once by design (the order of the changes does not show in what they hold)."""
    if getattr(E, "conc", None) is None:
        E.conc = {e.place for e in E.events if e.kind == "store" and e.place is not None and isinstance(e.value, T) and e.value.op == "call"
                  and str(e.value.a[0]).startswith("mod:") and any(c in str(e.value.a[0]) for c in p01.CONCURRENT)}
    return p in E.conc


WHAT = {"range": "where the range of a thread begins or ends", "step": "the size of the ranges", "carried": "a previous iteration of the same range",
        "others": "what other iterations have stored", "tls": "what the same thread has computed before",
        "atomic": "the order in which threads update a counter", "clock": "the time, the threads or unseeded randomness"}


class Dep:
    """What a term depends on that the partitioning of the work decides."""

    def __init__(self, E, ev, tls):
        self.E, self.ev, self.tls, self.par = E, ev, tls, ev.par
        self.seen, self.why = set(), {}

    def owned(self, t):
        return any(p01.owned(self.E, x, q) for x in walk(t) for q in self.par)

    def visit(self, t):
        if not isinstance(t, T) or t in self.seen:
            return
        self.seen.add(t)
        E, o = self.E, t.op
        if o in ("pb", "pe"):
            self.why.setdefault("range", t)
            return
        if o == "lv":
            inf = (E.lvs or {}).get(t)
            if inf and inf[0].op == "pb":
                if not unit(inf[1]):
                    self.why.setdefault("step", t)
            elif inf:
                self.visit(inf[0])
            return
        if o in ("hv", "ho"):
            L, p = t.a[0], t.a[1]
            i = E.loops.get(L, {})
            if i.get("kind") == "par":
                if o == "hv" and L in self.ev.loops and not self.owned(p) and not concurrent(E, p):
                    self.why.setdefault("others", t)
                return self.kids(p)
            if partition(E, L):
                if any(p01.cursor(E, t, q, 0) for q in self.par) or concurrent(E, p):
                    return
                if self.owned(p):
                    return self.kids(p)
                if (o == "ho" or t is not self.own) and self.summed(L, p):
                    return
                self.why.setdefault("carried", t)
                return
            up = i.get("upd", {})
            for q, xs in up.items():
                if q is p or q in list(ancestors(p)) or p in list(ancestors(q)):
                    for x in xs:
                        self.visit(x)
            if o == "ho" and i.get("cond") is not None:
                self.visit(i["cond"])
            return
        if o == "sel" and t.a[0].op in ("hv", "ho") and any(self.owned(x) for x in t.a[1:] if isinstance(x, T)):
            return [self.visit(x) for x in t.a[1:]]
        if o == "ld" and root(t.a[0]).op == "tls" and self.changed(t.a[0]) and t.a[0] is not self.ev.place:
            self.why.setdefault("tls", t)
        if o == "ptr" and root(t.a[0]) in self.local:
            # what the memory pointed to has been filled with
            for x in self.local[root(t.a[0])]:
                self.visit(x)
        if o == "call":
            n = str(t.a[0]).split("::")[-1]
            if str(t.a[0]).startswith("new:"):
                n = n.split("new:")[-1]
            if n.startswith("atomic."):
                self.why.setdefault("atomic", t)
            if n in CLOCK or "random_device" in str(t.a[0]):
                self.why.setdefault("clock", t)
        self.kids(t)

    own = None
    local = {}

    def summed(self, L, p):
        """After the loop over the range: a sum that is added to something that only collects sums."""
        if not accumulates(self.ev):
            return False
        u = self.E.loops[L].get("upd", {}).get(p)
        if not u or not islit(u[0]) or u[0].a[0] not in (0, 0.0):
            return False
        return addends(u[1], lambda x: x.op == "hv" and x.a[0] == L and x.a[1] is p)

    def changed(self, p):
        return any(q in self.tls for q in [p] + list(ancestors(p))) or any(p in list(ancestors(q)) for q in self.tls)

    def kids(self, t):
        for x in t.a:
            self.sub(x)

    def sub(self, x):
        if isinstance(x, T):
            self.visit(x)
        elif isinstance(x, tuple):
            for y in x:
                self.sub(y)


def addends(t, base):
    """base + something (on every path)."""
    if base(t):
        return True
    if t.op == "phi":
        return addends(t.a[1], base) and addends(t.a[2], base)
    return t.op == "op" and t.a[0] == "+" and (addends(t.a[1], base) and not any(base(x) for x in walk(t.a[2])) or addends(t.a[2], base) and not any(base(x) for x in walk(t.a[1])))


def unit(how):
    return how == "++" or how == "+=c"


def accumulates(e):
    return e.kind == "acc" or e.op in COMM


def sinks(ctx, E, seen):
    evs = [e for e in E.events if e.par and e.kind in SINK and e.place is not None and isinstance(e.value, T)]
    local = {e.place for e in E.events if e.kind == "decl" and e.par} | {e.place for e in E.events if e.kind == "alloc" and e.par}
    tls = {e.place for e in evs if root(e.place).op == "tls"}
    fill = {}
    for e in evs:
        if root(e.place) in local and e.place is not root(e.place):
            fill.setdefault(root(e.place), []).append(e.value)
    n, regions = 0, set()
    for e in E.events:
        if e.par and e.kind == "static" and not str((e.info or {}).get("t", "")).startswith("const"):
            nm = "%s: %s" % (owner_fn(e), placename(e.place))
            if once(seen, nm, "static"):
                ctx.ob(False, "R2", nm, "a variable of the body of a parallel loop outlives its iterations", e.file, e.line)
        if e.par and e.kind == "decl" and engine(e.value):
            nm = "%s: %s" % (owner_fn(e), placename(e.place))
            ok = any(partition(E, L) for L in e.loops) or any(root(x).op == "pi" for x in [e.value])
            if once(seen, nm, "engine", ok):
                ctx.ob(ok, "R4", nm, "one random number generator serves all iterations of a range", e.file, e.line)
    for e in evs:
        r = root(e.place)
        if r.op == "tmp" or r in local:
            continue
        n += 1
        regions.add(e.par)
        fn, nm = owner_fn(e), placename(e.place)
        name = "%s: %s" % (fn, nm)
        why = {}
        index = [x for a in [e.place] + list(ancestors(e.place)) if a.op == "idx" for x in a.a[1:]]
        for ts in ([e.value], index, [g for g, p in e.guards if not bound(E, g)]):
            D = Dep(E, e, tls)
            D.local = fill
            if concurrent(E, e.place) or accumulates(e):
                D.own = True
            for t in ts:
                for x in ownterms(E, e, t):
                    D.visit(x)
            for w, t in D.why.items():
                why.setdefault(w, t)
        if concurrent(E, e.place):
            why.pop("carried", None)
            why.pop("others", None)
        if once(seen, name, e.line, tuple(sorted(why))):
            rule = "R2" if "tls" in why else "R4" if {"clock", "atomic"} & set(why) else "R1"
            ctx.ob(not why, rule, name, "depends on " + " and on ".join(WHAT[w] for w in sorted(why)), e.file, e.line)
        if r.op == "tls" and e.kind == "store":
            ok = accumulates(e) or addends(e.value, lambda x: x.op in ("ld", "hv") and x.a[-1] is e.place)
            ctx.ob(ok, "R2", name, "thread-local memory is overwritten: what is left depends on which thread came last", e.file, e.line)
        elif e.kind == "store" and r.op != "tls" and not accumulates(e) and not concurrent(E, e.place) and not any(D.owned(x) for x in walk(e.place)):
            # shared by iterations: the last one to store would win
            vary = any(D.owned(x) for x in [e.value])
            ctx.ob(not (vary and not mine(e)), "R2", name, "iterations overwrite each other's value", e.file, e.line)
    return n, len(regions)


def engine(v):
    return isinstance(v, T) and v.op == "call" and str(v.a[0]).startswith("new:") and ("_engine" in str(v.a[0]) or "random_device" in str(v.a[0]))


def mine(e):
    """Does the value, or the decision to store it, compare with what is there already?"""
    return any(x.op in ("ld", "hv") and x.a[-1] is e.place for t in [e.value] + [g for g, p in e.guards] for x in walk(t))


def ownterms(E, e, t):
    """The parts of an accumulation apart from the place itself."""
    if t is e.value and accumulates(e) and t.op == "op" and len(t.a) == 3:
        a, b = t.a[1], t.a[2]
        if a.op in ("ld", "hv", "sel", "ho"):
            if any(x is e.place or x in list(ancestors(e.place)) for x in walk(a)):
                return [b]
    return [t]


def bound(E, g):
    """The condition of a loop over the range."""
    if not has(g, "pe"):
        return False
    for L, i in E.loops.items():
        c = i.get("cond")
        if c is not None and (c is g or any(x is g for x, _ in p01.conds(c)) or g.op == "op" and g.a[0] == "!" and g.a[1] is c):
            return all(whole(E, x) for x in walk(g) if x.op == "op" and has(x, "pe") and x.a[0] in ("<", "<=", "==", "!="))
    return False


def whole(E, c):
    """The loop runs until exactly the end of the range."""
    o, a, b = c.a[0], c.a[1], c.a[2]
    if b.op == "pe":
        return o in ("<", "!=", "==")
    if a.op == "pe":
        return o in ("!=", "==", "<=")
    return False


# ---------------------------------------------------------------- loops over ranges
def shape(ctx, F, E, seen):
    for L, i in E.loops.items():
        n = i.get("node")
        if not partition(E, L):
            if i.get("range") is not None and isinstance(i["range"], T) and str(L).startswith("par:"):
                r = i["range"]
                bad = [x for b in (r.a[1:3] if r.op == "call" else [r]) if isinstance(b, T) for x in walk(b) if x.op == "call" and str(x.a[0]).split("::")[-1] in CLOCK]
                if once(seen, "range", L.rsplit(":", 1)[0], bool(bad)):
                    ctx.ob(not bad, "R4", "range of %s" % L.split(":")[1].split("/")[-1], "the range of a parallel loop depends on the number of threads", None, None)
            continue
        if n is None or i.get("cond") is None:
            continue
        where = "%s:%s" % (i.get("file"), i.get("line"))
        early = leaves(n.get("body") or {}, False)
        if once(seen, "early", where, early):
            ctx.ob(not early, "R1", "loop over a range at %s" % i.get("file"), "the loop over the range of a thread is left early, skipping the rest of its range", i.get("file"), i.get("line"))


def combine(ctx, E, seen):
    """Loops over the copies of all threads."""
    n = 0
    copies = None
    decl = {e.place for e in E.events if e.kind == "decl" and e.loops}
    for L, i in list(E.loops.items()):
        its = [x for x in i.get("ind", {}).values() if isinstance(x[1], T) and has(x[1], "etsit")]
        its = [(lv, lo, how) for lv, lo, how in its if any(y.op == "etsit" for y in walk(lo))]
        r = i.get("range")
        if not its and i.get("kind") == "rfor" and isinstance(r, T):
            if copies is None:
                copies = {x.a[0] for e in E.events for t in [e.place, e.value] if isinstance(t, T) for x in walk(t) if x.op == "tls"}
            if r not in copies:
                continue
        elif not its:
            continue
        n += 1
        nm = "copies of all threads in %s" % i.get("file")
        ok = True
        for lv, lo, how in its:
            c = i.get("cond")
            ok = ok and lo.op == "etsit" and lo.a[-1] == "begin" and unit(how)
            if c is not None:
                neg, pol = c, True
                while neg.op == "op" and neg.a[0] == "!":
                    neg, pol = neg.a[1], not pol
                full = neg.op == "op" and (neg.a[0] == "==" and not pol or neg.a[0] in ("!=", "<") and pol) and lv in neg.a and any(getattr(x, "op", "") == "etsit" and x.a[-1] == "end" for x in neg.a)
                ok = ok and full
        early = leaves((i.get("node") or {}).get("body") or {}, False)
        if once(seen, "combine", L.rsplit(":", 1)[0], ok, early):
            ctx.ob(ok and not early, "R3", nm, "the copies of some threads are left out", i.get("file"), i.get("line"))
        for e in E.events:
            if e.kind == "store" and L in e.loops and root(e.place).op not in ("tmp", "tls") and root(e.place) not in decl and e.place not in i.get("ind", {}) and isinstance(e.value, T):
                per = not islit(e.value) and not any(y.op == "lv" and y.a[0] == L or y.op == "tls" for y in walk(e.place))
                ok = accumulates(e) or mine(e) or not per
                if once(seen, "combine", L.rsplit(":", 1)[0], placename(e.place), ok):
                    ctx.ob(ok, "R3", nm, "the copy of one thread replaces those of others", e.file, e.line)
    return n


def leaves(n, inner):
    """A break out of this loop, or a return, in the body of a loop."""
    if isinstance(n, list):
        return any(leaves(x, inner) for x in n)
    if not isinstance(n, dict):
        return False
    k = n.get("k")
    if k == "lambda":
        return False
    if k in ("break", "brk"):
        return not inner
    if k in ("return", "ret"):
        return True
    if k in ("for", "while", "do", "rfor", "forr", "switch", "foreach"):
        inner = True
    return any(leaves(x, inner) for x in n.values() if isinstance(x, (dict, list)))


# ---------------------------------------------------------------- gathered items
def unsorted(t, out, gath=()):
    """Items of gathered containers that are not sorted."""
    if t.op == "call" and t.a[0] == "sorted":
        return
    if t.op == "ptr" and root(t.a[0]) in gath or t.op in ("ld", "ho") and root(t.a[-1]) in gath:
        out.append(t)
        return
    if t.op == "get" and str(t.a[-1]) in ("#size", "size"):
        return
    if t.op == "call" and t.a[0] == "flattened":
        out.append(t)
        return
    for x in t.a:
        if isinstance(x, T):
            unsorted(x, out, gath)


def gather(ctx, F, E, seen):
    n = 0
    gath = {e.place for e in E.events if e.kind == "decl" and isinstance(e.value, T) and e.value.op == "call" and e.value.a[0] == "flattened"}
    for e in E.events:
        if e.kind not in SINK or e.place is None or not isinstance(e.value, T):
            continue
        srt = [x for x in walk(e.value) if p14.issorted(x) and any(y.op == "call" and y.a[0] == "flattened" or y.op == "ptr" and root(y.a[0]) in gath for y in walk(x))]
        if srt:
            n += 1
        if root(e.place).op in ("var", "tmp") and not srt:
            continue
        out = []
        unsorted(e.value, out, gath)
        items = [x for x in walk(e.value) if x.op == "sel"] if out else []
        bad = bool(out) and bool(items)
        nm = "%s: %s" % (p14.top(e), placename(e.place))
        if (srt or bad) and once(seen, "gather", nm, e.line, bad):
            ctx.ob(not bad, "R3", nm, "items gathered from threads are stored in the order the threads delivered them", e.file, e.line)
        for x in srt:
            c = x.a[2] if len(x.a) > 2 else None
            fid = c.a[0][-1] if c is not None and c.op == "clo" and isinstance(c.a[0], tuple) else None
            f = F.fns.get(fid) if fid else None
            if f is not None and once(seen, "cmp", nm, fid):
                ok = total(ctx, F, fid, f)
                ctx.ob(ok, "R3", nm + ": order", "the comparison does not decide between bonds that differ in query point or point", e.file, e.line)
            elif c is None or c.op not in ("clo", "fnref"):
                if once(seen, "cmp", nm, "default"):
                    ctx.ob(False if bondlike(e) else None, "R3", nm + ": order", "bonds are sorted by their distance only", e.file, e.line)
    return n


def bondlike(e):
    return True


FIELDS = ("query_point_idx", "point_idx", "distance", "weight")


class Tie(Region):
    """Two bonds that differ in one field only."""

    def __init__(self, a, b, fld, less):
        Region.__init__(self, {})
        self.v = {}
        for n in FIELDS:
            self.v[mk("ld", mk("fld", a, n))] = 0
            self.v[mk("ld", mk("fld", b, n))] = 0 if n != fld else 1 if less else -1

    def compare(self, t):
        o, x, y = t.a
        if x in self.v and y in self.v and str(x.a[0].a[1]) == str(y.a[0].a[1]):
            a, b = self.v[x], self.v[y]
            return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}.get(o)
        return None


def total(ctx, F, i, f):
    ps = f.get("ps") or []
    if len(ps) != 2 or not all("NeighborBond" in str(p["t"]) and "vector" not in str(p["t"]) for p in ps):
        return None
    a, b = mk("pobj", ps[0]["n"]), mk("pobj", ps[1]["n"])
    E = cxx.Engine(F, opaque=OPAQUE)
    s, v = E.run(i, cxx.S({}, ()), None, {ps[0]["n"]: mk("ptr", a), ps[1]["n"]: mk("ptr", b)} if "&" in str(ps[0]["t"]) else {})
    if not isinstance(v, T):
        return None
    ctx.visited(E)
    for n in FIELDS[:2]:
        r = [p14.decided(v, Tie(a, b, n, less)) for less in (True, False)]
        if None in r:
            return None
        if r[0] == r[1]:
            return False
    return True


def orders(ctx, F):
    n = 0
    for i, f in sorted(F.fns.items()):
        ps = f.get("ps") or []
        if not f.get("body") or f.get("cls") or f.get("lam") or "(lambda at" in i or len(ps) != 2:
            continue
        if not all("NeighborBond" in str(p["t"]) and "vector" not in str(p["t"]) for p in ps):
            continue
        r = total(ctx, F, i, f)
        if r is None:
            continue
        n += 1
        ctx.ob(r, "R3", simple(i) + ": complete order", "bonds that differ in query point or point may compare as equal", f.get("file"), f.get("line"))
    ctx.need(n, 1, "comparisons of bonds")


# ---------------------------------------------------------------- randomness
SEEDED = ("RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "Random")


def random(ctx):
    """Python: random numbers come from generators with a seed; the clock is not consulted."""
    P = ctx.py()
    for name, m in sorted(P.mods.items()):
        if name == "freud.plot":
            continue
        up = {x: y for y in ast.walk(m.tree) for x in ast.iter_child_nodes(y)}
        for c in ast.walk(m.tree):
            if not isinstance(c, (ast.Attribute, ast.Name)) or isinstance(up.get(c), ast.Attribute):
                continue
            r = P.resolve_expr(m, c)
            d = r[1] if isinstance(r, tuple) and r[0] == "ext" else ""
            mod, fn = d.rsplit(".", 1) if "." in d else ("", d)
            if mod in ("numpy.random", "random", "secrets", "time", "uuid") or d in ("os.urandom", "datetime.datetime.now", "numpy.random", "random"):
                call = up.get(c) if isinstance(up.get(c), ast.Call) and up[c].func is c else None
                given = [a for a in list(call.args) + [k.value for k in call.keywords] if not (isinstance(a, ast.Constant) and a.value is None)] if call else []
                ok = mod in ("numpy.random", "random") and fn in SEEDED and (bool(given) or call is None) or call is not None and unasked(P, m, call)
                ctx.ob(ok, "R4", "%s: %s" % (name, fn), "a result depends on unseeded randomness or the time", "freud/" + name.split(".")[-1] + ".py", c.lineno)


def unasked(P, m, c, depth=0):
    """Only reached when no seed was given."""
    up = {}
    for n in ast.walk(m.tree):
        for x in ast.iter_child_nodes(n):
            up[x] = n
    x = c
    while x in up:
        y = up[x]
        if isinstance(y, (ast.If, ast.IfExp)) and x is not y.test:
            for t in ast.walk(y.test):
                if isinstance(t, ast.Compare) and any(isinstance(k, ast.Constant) and k.value is None for k in t.comparators):
                    return True
        if isinstance(y, (ast.FunctionDef, ast.Lambda)):
            if isinstance(y, ast.Lambda) or not y.name.startswith("_") or y.name.startswith("__") or depth > 3:
                return False
            calls = [(k, v) for k in P.mods.values() for v in ast.walk(k.tree) if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == y.name]
            return bool(calls) and all(unasked(P, k, v, depth + 1) for k, v in calls)
        x = y
    return False
