"""Links Python classes to their native classes, and native accessors to the fields they return."""
from . import bind, pyeval, cxx
from .pyfacts import PLOT
from .terms import T, mk, walk, root, show, islit
from .facts import strip_targs
from .shared import OPAQUE

PYOPAQUE = {"freud.locality.NeighborQuery.from_system", "freud.locality._make_default_nq", "freud.box.BoxFromCPP"}


class Link:
    def __init__(self, ctx, opaque=PYOPAQUE):
        self.ctx = ctx
        self.P = ctx.py()
        self.F = ctx.cxx(None, True)
        self.B = bind.Bindings(self.F)
        self.nat = {}     # python class q -> native class q ('freud._density.RDF')
        self.ctor = {}    # python class q -> (engine, state) after __init__
        self.opaque = opaque
        for c in self.P.classes():
            o, ds = self.P.find(c, "__init__")
            if not o or ds[0][0] == "attr":
                continue
            E = pyeval.Engine(self.P, opaque=opaque)
            s, v = E.run(c, "__init__")
            self.ctor[c.q] = (E, s)
            if s is None:
                continue
            t = s.heap.get((mk("self", c), "_cpp_obj"))
            q = self.nclass(t)
            if q:
                self.nat[c.q] = q
        self._fields = {}

    def nclass(self, t):
        if t is None:
            return None
        for x in walk(t):
            if x.op == "nat":
                q = x.a[0]
                if q in self.B.classes:
                    return q
                m = self.B.funcs.get(q)
                if m is not None and m.fnid:
                    rt = self.F.fns[m.fnid].get("rt") or m.rt or ""
                    for cx, nc in self.B.bycxx.items():
                        if cx + ">" in rt or cx + " " in rt:
                            return nc.q
        return None

    def native_of(self, c):
        for k in self.P.mro(c):
            if k.q in self.nat:
                return self.nat[k.q]
        return None

    def engine(self, **k):
        return pyeval.Engine(self.P, opaque=k.pop("opaque", self.opaque), natclass=self.nat, **k)

    def method(self, q, name):
        """The bound method(s) behind native class q, Python-visible name."""
        return self.B.lookup(q, name)[1]

    def fns_of(self, q, name):
        """Native function ids behind a bound name."""
        return [m.fnid for m in self.method(q, name) if m.fnid]

    def isprop(self, q, name):
        """The bound name is read as an attribute (getter runs without a call)."""
        ms = self.method(q, name) if q in self.B.classes else []
        return bool(ms) and all(m.kind.startswith("def_prop") for m in ms)

    def nused(self, e, c=None):
        """(native class, name) when the event runs a bound method or property getter of a native object."""
        if e.kind not in ("ncall", "nget") or e.place is None:
            return None
        q, n = e.target.rsplit(".", 1)
        if q not in self.B.classes and c is not None:
            q = self.native_of(c) or q
        if e.kind == "nget" and not self.isprop(q, n):
            return None
        return q, n

    def construct(self, q, nargs):
        """Evaluate the native constructor bound as q with nargs arguments: (engine, state, object place, parameter names)."""
        key = ("construct", q, nargs)
        if key in self._fields:
            return self._fields[key]
        r = None
        if q in self.B.funcs:
            m = self.B.funcs[q]
            if m.fnid:
                E, s, v = self.nrun(m.fnid)
                pl = E.deref(v) if v is not None else None
                r = (E, s, pl, [p[0] for p in m.params])
        elif q in self.B.classes:
            cls = self.cls_of(q)
            for m in self.B.classes[q].methods.get("__init__", []):
                if m.kind == "init" and len(m.init or []) == nargs:
                    ids = [i for i in self.ctors(cls) if [norm(p["t"]) for p in self.F.fns[i].get("ps") or []] == [norm(t) for t in m.init]]
                    if ids:
                        E = cxx.Engine(self.F, opaque=OPAQUE, inline_box=cls.endswith("box::Box"))
                        this = mk("this", cls)
                        s, v = E.run(ids[0], None, this)
                        r = (E, s, this, [p["n"] for p in self.F.fns[ids[0]].get("ps") or []])
                        break
                elif m.fnid and len(self.F.fns[m.fnid].get("ps") or []) == nargs + 1:
                    E, s, v = self.nrun(m.fnid, cls)
                    made = [e.place for e in E.events if e.kind == "alloc" and strip_targs(str(e.info or "")) == strip_targs(cls)]
                    r = (E, s, made[-1] if made else mk("this", cls), [p["n"] for p in self.F.fns[m.fnid]["ps"][1:]])
                    break
        if r is not None:
            self.ctx.visited(r[0])
        self._fields[key] = r
        return r

    def nrun(self, fnid, cls=None, engine=None, s=None, args=None, this=None):
        """Evaluate a native function bound as a method of native C++ class cls: its receiver is `this`."""
        f = self.F.fns[fnid]
        recv = this
        E = engine or cxx.Engine(self.F, opaque=OPAQUE, inline_box=(cls or "").endswith("box::Box"))
        s = s or cxx.S()
        args = dict(args or {})
        this = None
        if f.get("cls") and not f.get("static"):
            this = recv or mk("this", cls or f["cls"])
        elif cls and f.get("ps"):
            this = None
            p = f["ps"][0]
            me = mk("ptr", recv or mk("this", cls))
            t = p["t"].rstrip()
            if "shared_ptr" in t or t.endswith("*"):
                if t.endswith("&"):
                    pl = mk("tmp", "self")
                    s.mem[pl] = me
                    args[p["n"]] = mk("ptr", pl)
                else:
                    args[p["n"]] = me
            else:
                args[p["n"]] = me
        r = E.run(fnid, s, this, args)
        return E, r[0], r[1]

    def cls_of(self, q):
        """C++ class of a native class."""
        return self.B.classes[q].cxx if q in self.B.classes else None

    def retfields(self, fnid, cls=None):
        """Fields of *this that the result of a native accessor is taken from."""
        if (fnid, cls) in self._fields:
            return self._fields[fnid, cls]
        out = set()
        f = self.F.fns.get(fnid)
        if f is not None and f.get("body"):
            SELF[:] = selfname(f)
            E, s, v = self.nrun(fnid, cls)
            self.ctx.visited(E)
            if v is not None:
                out |= fieldsof(v)
            for e in E.events:
                if e.kind == "return" and isinstance(e.value, T):
                    out |= fieldsof(e.value)
        self._fields[fnid, cls] = out
        return out

    def ctors(self, cxxname):
        base = strip_targs(cxxname)
        short = base.split("::")[-1]
        return [i for i in self.F.byname.get(base + "::" + short, []) if self.F.fns[i].get("ctor") or self.F.fns[i].get("body")]


def norm(t):
    return t.replace("const ", "").replace("&", "").replace(" ", "")


def fieldsof(v):
    """Paths of fields of the receiver a term reads ('m_histogram.m_axes')."""
    out = set()
    inner = set()
    for x in walk(v):
        if x.op == "fld":
            path = selfpath(x)
            if path:
                out.add(path)
                y = x.a[0]
                while y.op == "fld":
                    inner.add(selfpath(y))
                    y = y.a[0]
    # a longer path subsumes its prefixes
    return {f for f in out if f not in inner or not any(g.startswith(f + ".") for g in out)}


def selfpath(x):
    names = []
    while x.op == "fld":
        names.append(x.a[1])
        if isself(x.a[0]):
            return ".".join(reversed(names))
        x = x.a[0]
        if x.op == "idx":
            while x.op == "idx":
                x = x.a[0]
            names = []
    return None


def overlap(fs, gs):
    """Paths of fs that touch a path of gs."""
    return {f for f in fs if any(f == g or f.startswith(g + ".") or g.startswith(f + ".") for g in gs)}


SELF = ["self"]   # names the receiver parameter of the function under analysis goes by


def selfname(f):
    """Free functions bound as methods take the receiver as their first parameter."""
    ps = f.get("ps") or []
    if f.get("cls") or not ps or "shared_ptr" not in ps[0]["t"] and "&" not in ps[0]["t"] and "*" not in ps[0]["t"]:
        return ["self"]
    return ["self", ps[0]["n"]]


def isself(p):
    if p.op == "this":
        return True
    if p.op == "obj":
        return False
    if p.op == "deref":
        v = p.a[0]
        if v.op == "param" and str(v.a[0]) in SELF + ["this"]:
            return True
        if v.op == "ld":
            return placeself(v.a[0])
        return any(x.op == "this" or (x.op in ("param", "pobj") and str(x.a[0]) in SELF) for x in walk(v))
    if p.op == "pobj":
        return str(p.a[0]) in SELF
    return False


def placeself(p):
    return any(x.op in ("param", "pobj") and str(x.a[0]) in SELF for x in walk(p))


def public_members(P, c):
    """(name, owner, kind, node) of the public members of class c, plotting left out."""
    for n, (o, ds) in sorted(P.members(c).items()):
        if n in PLOT or (n.startswith("_") and n not in ("__init__", "__getitem__", "__len__", "__eq__", "__mul__")):
            continue
        for k, d in ds:
            yield n, o, k, d


# ---------------------------------------------------------------- what native functions write
def selffields(p, seen=None):
    """Field paths of the receiver that a stored place lies in (through pointers held by such fields)."""
    seen = seen if seen is not None else set()
    out = set()
    q = p
    while q not in seen:
        seen.add(q)
        if q.op == "fld":
            w = selfpath(q)
            if w:
                out.add(w)
                break
            q = q.a[0]
        elif q.op == "idx":
            q = q.a[0]
        elif q.op in ("deref", "ld", "hv", "ho", "get", "sel", "phi", "upd", "tls", "flattened"):
            for x in q.a:
                if isinstance(x, T):
                    out |= selffields(x, seen)
            break
        else:
            break
    return out


def storedfields(L, fnid, cls=None):
    """Fields of *this written (directly or through pointers they hold) by a native function, following calls."""
    c = L.__dict__.setdefault("_stored", {})
    if (fnid, cls) in c:
        return c[fnid, cls]
    out = set()
    f = L.F.fns.get(fnid)
    if f is not None:
        SELF[:] = selfname(f)
        E = L.nrun(fnid, cls)[0]
        L.ctx.visited(E)
        for e in E.events:
            if e.kind in ("return", "decl", "acc", "throw") or e.place is None:
                continue
            if e.kind == "store" and e.op in ("decl", "bind"):
                continue
            if e.kind == "call" and not (e.info or {}).get("mut", True):
                continue
            ps = selffields(e.place)
            if e.kind == "store" and e.place.op == "fld" and isinstance(e.value, T) and selfpath(e.place):
                ps = changed(e.place, e.value, selfpath(e.place))
            out |= ps
    c[fnid, cls] = out
    return out



def changed(place, v, path):
    """Field paths a struct-valued store really changes (members copied from themselves are unchanged)."""
    ms = {}
    x = v
    while x.op == "upd" and isinstance(x.a[1], tuple) and x.a[1][0] == "f":
        ms.setdefault(x.a[1][1], x.a[2])
        x = x.a[0]
    if x.op == "struct":
        for n, y in x.a[1]:
            ms.setdefault(n, y)
    elif x.op not in ("undef",) or not ms:
        return set() if v.op == "ld" and v.a[0] is place else {path}
    out = set()
    for n, y in ms.items():
        if y.op == "ld" and y.a[0].op == "fld" and y.a[0].a[0] is place and y.a[0].a[1] == n:
            continue
        out.add(path + "." + n)
    return out
