"""Abstract evaluation of native neighbor queries: every engine's query() is evaluated over an abstract domain of query
arguments (mode x {key absent, key present}), following validation, mode inference, dispatch and construction of the
per-point iterator. A present key is a symbol known only to differ from the sentinel that stands for "absent"."""
from . import cxx
from .terms import T, mk, lit, islit, walk
from .facts import strip_targs
from .shared import OPAQUE

NS = "freud::locality::"
BASE = NS + "NeighborQuery"
MODES = ("none", "ball", "nearest")


def unwrap(x):
    while x is not None and x.op == "ilist" and len(x.a) == 1:
        x = x.a[0]
    return x


class Queries:
    def __init__(self, ctx, F):
        self.ctx, self.F = ctx, F
        self.args = NS + "QueryArgs"
        self.defaults = self.fields()
        self.engines = self.find()

    def fields(self):
        """Default values (sentinels) of the query arguments, from their member initialisers."""
        base = self.args.split("::")[-1]
        for i in self.F.byname.get(self.args + "::" + base, []):
            if not self.F.fns[i].get("ps"):
                E = cxx.Engine(self.F, opaque=OPAQUE)
                this = mk("this", self.args)
                s, _ = E.run(i, None, this)
                self.ctx.visited(E)
                return {p.a[1]: unwrap(v) for p, v in s.mem.items() if p.op == "fld" and p.a[0] is this}
        return {}

    def query_ids(self, E):
        out = []
        for i in self.F.byname.get(BASE + "::query", []):
            out.append(i)
            out += list(E.alloverrides(i))
        return [i for i in out if i in self.F.fns and self.F.fns[i].get("body")]

    def find(self):
        """(engine class, id of the query() it uses) of every concrete engine (a class that can be constructed)."""
        E = cxx.Engine(self.F)
        qs = self.query_ids(E)
        base = self.F.byname.get(BASE + "::querySingle", [])
        impl = set()
        for i, f in self.F.fns.items():
            if f.get("body") and strip_targs(i).split("(")[0].endswith("::querySingle") and f.get("cls"):
                impl.add(f["cls"])
        out = []
        for c in sorted(impl):
            if c == BASE:
                continue
            q = E.lookup(c, qs)
            if q:
                out.append((c, q))
        return out

    def run(self, cls, fid, mode, have=(), fixed=None):
        """Evaluate query() of an engine; have: the keys present (symbols), fixed: keys given a literal value."""
        F = self.F
        mem = dict(self.defaults)
        gs = []
        for k in have:
            x = mk("param", k)
            if k in mem and mem[k] is not None and k not in ("r_min", "exclude_ii"):
                gs.append((mk("op", "==", x, mem[k]), False))
            mem[k] = x
        for k, v in (fixed or {}).items():
            mem[k] = v
        mem["mode"] = lit("enum:" + NS + "QueryType::" + mode)
        E = cxx.Engine(F, opaque=OPAQUE)
        ps = F.fns[fid].get("ps") or []
        an = [p["n"] for p in ps if "QueryArgs" in p["t"]]
        args = {n: mk("struct", self.args, tuple(mem.items())) for n in an}
        s, v = E.run(fid, cxx.S({}, tuple(gs)), mk("this", cls), args)
        self.ctx.visited(E)
        return E, s, v

    def iters(self, E, s):
        """Per-point iterator objects alive at the end: those the query's iterator object refers to."""
        if s is None or s.dead:
            return []
        objs = {e.place for e in E.events if e.kind == "alloc" and e.place is not None}
        out = []
        for p, v in s.mem.items():
            if p.op == "fld" and p.a[0] in objs and isinstance(v, T):
                for x in ptrs(v):
                    if x in objs and x is not p.a[0] and x not in out and "Iterator" in str(x.a[1]) and self.perpoint(x.a[1]):
                        out.append(x)
        return out

    def perpoint(self, cls):
        return self.derives(cls, NS + "NeighborQueryPerPointIterator")

    def derives(self, c, base):
        todo, seen = [c], set()
        while todo:
            x = todo.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += [b for b in bases(self.F, x)]
        return False

    def fieldsof(self, s, obj):
        return {p.a[1]: unwrap(v) for p, v in s.mem.items() if p.op == "fld" and p.a[0] is obj}

    def held(self, E, s):
        """The query arguments kept by the query's iterator object."""
        objs = {e.place for e in E.events if e.kind == "alloc" and e.place is not None}
        for p, v in s.mem.items():
            if p.op == "fld" and p.a[0] in objs and isinstance(v, T):
                r = v
                while r.op == "upd":
                    r = r.a[0]
                if r.op == "struct" and r.a[0] == self.args:
                    return {k: unwrap(E.get(v, k)) for k in self.defaults}
        # stored member by member
        d = {}
        for p, v in s.mem.items():
            if p.op == "fld" and p.a[1] in self.defaults and p.a[0].op == "fld" and p.a[0].a[0] in objs:
                d[p.a[1]] = unwrap(v)
        return d


def ptrs(v):
    for x in walk(v):
        if x.op == "ptr":
            yield x.a[0]


def bases(F, c):
    r = F.recs.get(c) or F.recs.get(strip_targs(c)) or {}
    return [b["n"] if isinstance(b, dict) else b for b in r.get("bases") or []]
