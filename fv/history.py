"""Sequences of operations on one native object: what a result may depend on from before the sequence."""
from . import cxx, pyeval
from .facts import strip_targs
from .link import Link, norm, selfpath
from .shared import OPAQUE, placename
from .terms import T, mk, lit, islit, walk, root, ancestors, show


def pycalls(L, c, reset=None, method="compute"):
    """Native calls a Python method makes on the object's own native object, in order: [(native class, name, event)]."""
    from .rules import p06
    Ei, si = L.ctor.get(c.q, (None, None))
    E = L.engine()
    s, v = E.run(c, method, s=si.copy() if si else None, args={"reset": lit(reset)} if reset is not None else None)
    L.ctx.fnset |= E.visited
    out = []
    for e in E.events:
        if L.nused(e, c) and p06.cppof(c, e, si):
            out.append(L.nused(e, c) + (e,))
    return out, E, s


class Run:
    """A sequence of native functions evaluated on the same object."""

    def __init__(self, L, cls):
        self.L, self.cls = L, cls
        self.E = cxx.Engine(L.F, opaque=OPAQUE, inline_box=False)
        self.this = mk("this", cls)
        self.mem = {}
        self.marks = []         # (name, first event, last event, value)
        self.n = 0

    def call(self, fnid, name=None, args=None):
        F, E = self.L.F, self.E
        f = F.fns[fnid]
        self.n += 1
        s = cxx.S(dict(self.mem), ())
        args = dict(args or {})
        this = None
        if f.get("cls") and not f.get("static"):
            this = self.this
        elif f.get("ps"):
            p = f["ps"][0]
            me = mk("ptr", self.this)
            t = p["t"].rstrip()
            if ("shared_ptr" in t or t.endswith("*")) and t.endswith("&"):
                pl = mk("tmp", "self", self.n)
                s.mem[pl] = me
                args[p["n"]] = mk("ptr", pl)
            else:
                args[p["n"]] = me
        k = len(E.events)
        s2, v = E.run(fnid, s, this, args, tag="%s%d" % (name or "", self.n))
        self.marks.append((name, k, len(E.events), v))
        if s2 is not None:
            self.mem = {p: x for p, x in s2.mem.items() if root(p).op not in ("var", "tmp", "param")}
        return s2, v

    def events(self, i):
        n, a, b, v = self.marks[i]
        return self.E.events[a:b]


def override(F, cls, fnid):
    """The function a call of fnid on an object of class cls reaches (virtual dispatch)."""
    f = F.fns[fnid]
    if not f.get("cls"):
        return fnid
    short = fnid.split("(")[0].split("::")[-1]
    ps = [norm(p["t"]) for p in f.get("ps") or []]
    todo = [cls]
    while todo:
        c = todo.pop(0)
        for i in F.byname.get(strip_targs(c) + "::" + short, []):
            g = F.fns[i]
            if g.get("cls") == c and (g.get("body")) and [norm(p["t"]) for p in g.get("ps") or []] == ps:
                return i
        todo += [b if isinstance(b, str) else b.get("t") or b.get("n") for b in (F.recs.get(c) or {}).get("bases") or []]
    return fnid


def atoms(g, pol):
    """The conjunction a condition with that outcome amounts to, as (condition, outcome) pairs."""
    if g.op == "op" and g.a[0] == "!" and len(g.a) == 2:
        return atoms(g.a[1], not pol)
    if g.op == "op" and g.a[0] == "not" and len(g.a) == 2:
        return atoms(g.a[1], not pol)
    if g.op == "imp" and not pol:
        return atoms(g.a[0], True) + atoms(g.a[1], False)
    if g.op == "op" and (g.a[0] == "||" and not pol or g.a[0] == "&&" and pol):
        return [y for x in g.a[1:] for y in atoms(x, pol)]
    return [(g, pol)]


def throws(E, kind):
    return [frozenset(a for g, p in e.guards for a in atoms(g, p)) for e in E.events if e.kind == kind]


def conditions(thr, guards):
    """Guards whose other outcome does not raise."""
    out = []
    for i, (g, p) in enumerate(guards):
        neg = set(atoms(g, not p))
        have = set(neg)
        for j, (h, q) in enumerate(guards):
            if j != i:
                have |= set(atoms(h, q))
        more = True
        while more:
            more = False
            for h, q in list(have):
                if h.op == "imp" and q and set(atoms(h.a[0], True)) <= have and not set(atoms(h.a[1], True)) <= have:
                    have |= set(atoms(h.a[1], True))
                    more = True
        if not any(t and t <= have and t & neg for t in thr):
            out.append(g)
    return out


class Past:
    """Everything from before a sequence that a term depends on: field paths of the object, contents of memory it held, thread-local copies."""

    def __init__(self, R):
        self.R, self.E = R, R.E
        self.seen = set()
        self.reads = {}          # description -> (term, event)
        self.byroot = {}
        self.tls = set()         # thread-local containers whose copies are read
        for e in self.E.events:
            if e.kind in ("store", "acc", "append", "insert", "resize", "sort") and e.place is not None and isinstance(e.value, T):
                self.byroot.setdefault(self.top(e.place), []).append(e)
        self.throws = throws(self.E, "throw")
        self.cond = {}

    def conditions(self, e):
        k = e.guards
        if k not in self.cond:
            self.cond[k] = conditions(self.throws, e.guards)
        return self.cond[k]

    def top(self, p):
        r = root(p)
        return r

    def read(self, what, t):
        self.reads.setdefault(what, t)

    def visit(self, t):
        todo = [t]
        while todo:
            t = todo.pop()
            if isinstance(t, tuple):
                todo.extend(t)
                continue
            if not isinstance(t, T) or t in self.seen:
                continue
            self.seen.add(t)
            o = t.op
            if o == "ld":
                self.load(t.a[0], t, todo)
            elif o in ("hv", "ho"):
                up = self.E.loops.get(t.a[0], {}).get("upd", {})
                hit = False
                for q, xs in up.items():
                    if q is t.a[1] or q in list(ancestors(t.a[1])) or t.a[1] in list(ancestors(q)):
                        todo.extend(xs)
                        hit = True
                self.place(t.a[1], todo, content=True)
                continue
            elif o in ("etsit", "tls"):
                self.tls.add(t.a[0])
                self.place(t.a[0], todo)
                continue
            elif o == "lv":
                inf = (self.E.lvs or {}).get(t)
                if inf:
                    todo.append(inf[0])
                continue
            elif o == "ptr":
                self.place(t.a[0], todo, content=True)
                continue
            todo.extend(x for x in t.a if isinstance(x, (T, tuple)))

    def place(self, p, todo, content=False):
        r = root(p)
        if r.op in ("obj", "var", "tmp", "tls", "slocal"):
            for e in self.byroot.get(r, ()):
                k = ("ev", e.n)
                if k in self.seen:
                    continue
                self.seen.add(k)
                todo.append(e.value)
                for a in [e.place] + list(ancestors(e.place)):
                    if a.op == "idx":
                        todo.extend(a.a[1:])
                todo.extend(self.conditions(e))
        elif r.op == "this":
            for q, x in self.R.mem.items():
                if root(q).op == "this" and (q is p or p in list(ancestors(q)) or q in list(ancestors(p))):
                    todo.append(x)
        for a in [p] + list(ancestors(p)):
            if a.op == "idx":
                todo.extend(a.a[1:])
            if a.op == "deref":
                todo.append(a.a[0])

    def load(self, p, t, todo):
        r = root(p)
        if r.op == "this":
            w = selfpath(p)
            self.read(w or placename(p), t)
        elif r.op == "deref":
            ws = [selfpath(x.a[0]) for x in walk(r) if x.op == "ld" and root(x.a[0]).op == "this"]
            for w in ws:
                self.read("*" + str(w), t)
        elif r.op == "tls":
            self.read("tls " + placename(p), t)
            self.tls.add(r.a[0])
            self.place(p, todo)
        elif r.op in ("obj", "var", "tmp"):
            self.place(p, todo)


def ancestors_of(p):
    return list(ancestors(p))


def loopguard(E, g):
    """The guard is the condition of a loop the event lies in."""
    def strip(t):
        while t is not None and t.op == "op" and t.a[0] == "!" and len(t.a) == 2:
            t = t.a[1]
        return t
    return any(i.get("cond") is not None and strip(i["cond"]) is strip(g) for i in E.loops.values())


def computes(L):
    """Python classes with a compute method."""
    for c in L.P.classes():
        o, ds = L.P.find(c, "compute")
        if o and any(k == "method" for k, _ in ds):
            yield c


def steps(L, c, reset):
    """Native functions compute runs on the object's native object, in order: [(bound name, function)], native class."""
    o, ds = L.P.find(c, "compute")
    pa = [a.arg for a in ds[0][1].args.args]
    cs, E, s = pycalls(L, c, reset if "reset" in pa else None)
    cs = [x for x in cs if x[0] in L.B.classes]
    out = []
    cls = q = None
    for q, n, e in cs:
        cls = cls or L.cls_of(q)
        ids = L.fns_of(q, n)
        if ids:
            out.append((n, override(L.F, cls, ids[0])))
    return out, cls, (cs[0][0] if cs else None)


def initial(L, cls):
    """Literal field values after construction, by field path (all constructors agree)."""
    out = {}
    F = L.F
    for i in L.ctors(cls):
        if F.fns[i].get("implicit"):
            continue
        E = cxx.Engine(F, opaque=OPAQUE, inline_box=False)
        this = mk("this", cls)
        s, v = E.run(i, None, this)
        if s is None:
            continue
        for p, x in s.mem.items():
            w = selfpath(p) if root(p) is this else None
            if w:
                val = x.a[0] if islit(x) else "?"
                out[w] = val if out.get(w, val) == val and type(out.get(w, val)) is type(val) else "?"
    return out
