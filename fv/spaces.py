"""Index spaces of terms: which numbering (query points, points, bonds, some array's rows) an index or a count belongs to."""
from .terms import T, mk, walk, root, islit
from .facts import strip_targs

P, Q, B, ANY = "P", "Q", "B", "?"


def conds(c, pol=True):
    while c.op == "op" and c.a[0] == "!":
        c, pol = c.a[1], not pol
    if c.op == "op" and ((c.a[0] == "&&" and pol) or (c.a[0] == "||" and not pol)):
        yield from conds(c.a[1], pol)
        yield from conds(c.a[2], pol)
    else:
        yield c, pol


def lastfield(p):
    while p.op == "idx":
        p = p.a[0]
    return p.a[1] if p.op == "fld" else None


def anyfield(p):
    """The innermost named field a place's value is (an element of)."""
    while p.op == "idx":
        p = p.a[0]
    if p.op == "fld" and p.a[1] == "#data":
        p = p.a[0]
        if p.op == "deref" and p.a[0].op == "ld":
            p = p.a[0].a[0]
        while p.op == "idx":
            p = p.a[0]
    if p.op == "deref" and p.a[0].op == "ld":
        p = p.a[0].a[0]
        while p.op == "idx":
            p = p.a[0]
    if p.op == "fld" and not p.a[1].startswith("#") and p.a[1] not in ("x", "y", "z", "first", "second"):
        return p.a[1]
    return None


class Spaces:
    """Names come from the public accessors, so that private fields may be renamed."""

    def __init__(self, L):
        self.L = L
        self.nbr = self.acc("freud::locality::NeighborList::getNeighbors", "m_neighbors")
        self.npoints = self.acc("freud::locality::NeighborQuery::getNPoints", "m_n_points") | \
            self.acc("freud::locality::NeighborList::getNumPoints", "m_num_points")
        self.nquery = self.acc("freud::locality::NeighborList::getNumQueryPoints", "m_num_query_points")
        self.bq = self.acc("freud::locality::NeighborBond::getQueryPointIdx", "query_point_idx")
        self.bp = self.acc("freud::locality::NeighborBond::getPointIdx", "point_idx")
        self.points = self.acc("freud::locality::NeighborQuery::getPoints", "m_points")
        self.fields = {}    # field -> spaces its (elements') values were seen to come from
        self.params = {}    # (function id, parameter) -> spaces
        self.fn = None      # entry function under evaluation
        self.nbrobjs = set()  # objects stored as a neighbor list's bond index array

    def acc(self, fn, dflt):
        out = {dflt}
        for i in self.L.F.byname.get(fn, []):
            out |= {f.split(".")[-1] for f in self.L.retfields(i)}
        return out

    # -- bounds of loop variables
    def bounds(self, E, lv):
        """Terms n with lv < n (or lv != n) throughout the loop."""
        lv0 = lv
        if lv.op == "pi":
            r = E.loops.get(lv.a[0], {}).get("range")
            return [r] if r is not None else []
        inf = (E.lvs or {}).get(lv)
        if not inf:
            return []
        info = E.loops.get(lv.a[0], {})
        out = []
        c = info.get("cond")
        if c is not None:
            for y, pol in conds(c):
                if y.op != "op":
                    continue
                if y.a[0] in ("==", "!=") and pol == (y.a[0] == "!=") and lv in y.a[1:]:
                    out.append(y.a[2] if y.a[1] is lv else y.a[1])
                elif y.a[0] == "<" and pol and y.a[1] is lv:
                    out.append(y.a[2])
                elif y.a[0] == "<=" and not pol and y.a[2] is lv:
                    out.append(y.a[1])
                elif y.a[0] == "<=" and pol and y.a[1] is lv:
                    out.append(mk("op", "+", y.a[2], mk("lit", 1)))
        res = []
        for n in out:
            if n.op in ("pe", "pb"):
                r = E.loops.get(n.a[0], {}).get("range")
                n = rangeend(r, n.a[1] if len(n.a) > 1 else None)
                if n is None:
                    continue
            res.append(n)
        return res

    def extent(self, E, n, depth=0):
        """Space counted by n."""
        if depth > 8 or not isinstance(n, T):
            return {ANY}
        if n.op == "call" and str(n.a[0]).endswith("ndarray::shape") and islit(n.a[2]) and n.a[2].a[0] == 0:
            return {("N", pname(n.a[1]))}
        if n.op == "param":
            return {("param", str(n.a[0]))}
        if n.op == "ld":
            p = n.a[0]
            if p.op == "fld":
                if p.a[1] in self.npoints:
                    return {P}
                if p.a[1] in self.nquery:
                    return {Q}
            if p.op == "idx" and len(p.a) == 2 and islit(p.a[1]) and p.a[1].a[0] == 0 and lastfield(p) == "#shape":
                o = p.a[0].a[0]
                if self.isnbr(o):
                    return {B}
        if n.op == "get" and isinstance(n.a[1], str):
            if n.a[1] in self.npoints:
                return {P}
            if n.a[1] in self.nquery:
                return {Q}
        if n.op in ("phi",):
            out = set()
            for x in n.a[1:]:
                out |= self.extent(E, x, depth + 1)
            return out
        if n.op in ("hv", "ho"):
            return {ANY}
        if islit(n):
            return {"const"}
        return {("#", n)}

    def isnbr(self, o):
        """Is o the place of a neighbor list's bond index array?"""
        if o in self.nbrobjs:
            return True
        if o.op == "deref":
            v = o.a[0]
            if v.op in ("ld",) and v.a[0].op == "fld" and v.a[0].a[1] in self.nbr:
                return True
            if v.op == "get" and v.a[1] in self.nbr:
                return True
            if v.op == "phi":
                return any(self.isnbr(mk("deref", x)) or (x.op == "ptr" and self.isnbr(x.a[0])) for x in v.a[1:])
        return False

    def of(self, E, t, depth=0):
        """Spaces index t may come from."""
        if depth > 10 or not isinstance(t, T):
            return {ANY}
        if islit(t):
            return {"const"}
        if t.op == "ld":
            p = t.a[0]
            if p.op == "idx" and len(p.a) == 3 and islit(p.a[2]) and lastfield(p) == "#data" and self.isnbr(p.a[0].a[0]):
                return {Q if p.a[2].a[0] == 0 else P}
            if p.op == "fld":
                if p.a[1] in self.bq:
                    return {Q}
                if p.a[1] in self.bp:
                    return {P}
            f = anyfield(p)
            if f and f in self.fields:
                return set(self.fields[f]) if len(self.fields[f]) == 1 else {ANY}
        if t.op == "get" and isinstance(t.a[1], str):
            if t.a[1] in self.bq:
                return {Q}
            if t.a[1] in self.bp:
                return {P}
            if t.a[1] in self.fields:
                return set(self.fields[t.a[1]]) if len(self.fields[t.a[1]]) == 1 else {ANY}
        if t.op == "param" and (self.fn, str(t.a[0])) in self.params:
            r = self.params[self.fn, str(t.a[0])]
            return set(r) if len(r) == 1 else {ANY}
        if t.op == "cast":
            return self.of(E, t.a[-1], depth + 1)
        if t.op == "op" and t.a[0] in ("^", "&", "|") and len(t.a) == 3:
            return self.of(E, t.a[1], depth + 1)
        if t.op in ("lv", "pi"):
            out = set()
            for n in self.bounds(E, t):
                out |= self.extent(E, n)
            return out or {ANY}
        if t.op == "phi":
            out = set()
            for x in t.a[1:]:
                out |= self.of(E, x, depth + 1)
            return out
        if t.op in ("hv", "ho"):
            p = t.a[-1]
            if p.op == "idx" and len(p.a) == 3 and islit(p.a[2]) and lastfield(p) == "#data" and self.isnbr(p.a[0].a[0]):
                return {Q if p.a[2].a[0] == 0 else P}
            if p.op == "fld" and p.a[1] in self.bq:
                return {Q}
            if p.op == "fld" and p.a[1] in self.bp:
                return {P}
            f = anyfield(p)
            if f and f in self.fields:
                return set(self.fields[f]) if len(self.fields[f]) == 1 else {ANY}
            if isinstance(t.a[0], str) and depth < 4:
                u = E.loops.get(t.a[0], {}).get("upd", {}).get(p)
                if u:
                    out = set()
                    for x in u:
                        if isinstance(x, T) and t not in list(walk(x)):
                            out |= {y for y in self.of(E, x, depth + 4) if y in (P, Q)}
                    if len(out) == 1:
                        return out
        if t.op in ("pb", "pe"):
            n = rangeend(E.loops.get(t.a[0], {}).get("range"), t.a[1] if len(t.a) > 1 else None)
            return self.extent(E, n) if n is not None else {ANY}
        return {ANY}


def rangeend(r, axis=None):
    if r is None:
        return None
    for x in walk(r):
        if x.op == "struct":
            for n, v in x.a[1]:
                if n == "#e":
                    return v
                if axis and n == {"r": "#rows", "c": "#cols"}.get(axis):
                    return rangeend(v)
    return None


def pname(t):
    for x in walk(t):
        if x.op in ("pobj", "param"):
            return str(x.a[0])
    return None


def dataparams(v, depth=0, E=None):
    """Names of the array parameters whose data pointer v may be."""
    if depth > 8 or not isinstance(v, T):
        return set()
    if v.op in ("hv", "ho") and E is not None and isinstance(v.a[0], str):
        out = set()
        for x in E.loops.get(v.a[0], {}).get("upd", {}).get(v.a[-1], ()):
            if isinstance(x, T) and x is not v:
                out |= dataparams(x, depth + 3, E)
        return out
    if v.op == "call" and str(v.a[0]).endswith("ndarray::data"):
        return {pname(v.a[1])}
    if v.op == "phi":
        out = set()
        for x in v.a[1:]:
            out |= dataparams(x, depth + 1, E)
        return out
    if v.op == "op" and v.a[0] in ("+", "-"):
        return dataparams(v.a[1], depth + 1, E)
    if v.op == "cast":
        return dataparams(v.a[-1], depth + 1, E)
    if v.op == "ptr":
        p = v.a[0]
        while p.op in ("idx",):
            p = p.a[0]
        if p.op == "deref":
            return dataparams(p.a[0], depth + 1, E)
    return set()


def accesses(E):
    """(event, parameter, index terms) for every element access to an array parameter's data."""
    for e in E.events:
        if e.kind not in ("acc", "store") or e.place is None:
            continue
        p = e.place
        while p.op == "fld":
            p = p.a[0]
        if p.op != "idx" or p.a[0].op != "deref":
            continue
        for n in dataparams(p.a[0].a[0], 0, E):
            yield e, n, p.a[1:]


def walkers(E, S):
    """(loop, parameter, extents) for array parameters read through a pointer that is stepped along in a loop."""
    for lv, (lo, how, L) in (E.lvs or {}).items():
        for p in dataparams(lo):
            toks = set()
            for other, (lo2, _, L2) in E.lvs.items():
                if L2 == L and not dataparams(lo2):
                    for n in S.bounds(E, other):
                        toks |= S.extent(E, n)
            for n in S.bounds(E, lv):
                if n.op == "op" and n.a[0] == "+" and dataparams(n.a[1]):
                    toks |= S.extent(E, n.a[2])
            yield L, p, toks


def learn(S, runs, F, rounds=4):
    """Fixpoint: spaces of fields and of parameters of functions called opaquely (virtual calls)."""
    over = F.overrides
    for _, E in runs:
        for e in E.events:
            if e.kind == "store" and e.place is not None and e.place.op == "fld" and e.place.a[1] in S.nbr and isinstance(e.value, T) and e.value.op == "ptr":
                S.nbrobjs.add(e.value.a[0])
    for _ in range(rounds):
        before = (sum(len(v) for v in S.fields.values()), sum(len(v) for v in S.params.values()))
        for fid, E in runs:
            S.fn = fid
            for e in E.events:
                if e.kind in ("store", "append", "insert") and isinstance(e.value, T) and e.place is not None:
                    f = anyfield(e.place)
                    if f and f not in S.nbr | S.bq | S.bp and e.op not in ("hv", "ho"):
                        r = S.of(E, e.value) & {P, Q}
                        if r:
                            S.fields.setdefault(f, set()).update(r)
                    for x in walk(e.value):
                        if x.op == "struct":
                            for n, v in x.a[1]:
                                if isinstance(v, T) and n not in S.bq | S.bp and not n.startswith("#") and n not in ("x", "y", "z", "first", "second"):
                                    r = S.of(E, v) & {P, Q}
                                    if r:
                                        S.fields.setdefault(n, set()).update(r)
                elif e.kind in ("call", "ctor", "construct") and isinstance(e.info, dict) and isinstance(e.value, T) and e.value.op == "ilist":
                    f = e.info.get("f")
                    for tgt in [f] + list(alloverrides(over, f)):
                        fn = F.fns.get(tgt)
                        if not fn:
                            continue
                        for p, a in zip(fn.get("ps") or [], e.value.a):
                            r = S.of(E, a) & {P, Q}
                            if r:
                                S.params.setdefault((tgt, p["n"]), set()).update(r)
        if (sum(len(v) for v in S.fields.values()), sum(len(v) for v in S.params.values())) == before:
            break


def alloverrides(over, f, seen=None):
    seen = seen if seen is not None else set()
    for g in over.get(f, []):
        if g not in seen:
            seen.add(g)
            yield g
            yield from alloverrides(over, g, seen)
