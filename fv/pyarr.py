"""Lengths of the arrays Python code hands to native code, as terms compared under every outcome of the conditions."""
import itertools
from .terms import T, mk, walk, islit

CONV = "freud.util._convert_array"
FILL = {"numpy.ones", "numpy.zeros", "numpy.empty", "numpy.full"}
SAME = {"numpy.ascontiguousarray", "numpy.asarray", "numpy.array", "numpy.copy", "numpy.require", "numpy.atleast_1d", "numpy.atleast_2d",
        "numpy.asanyarray", "numpy.ones_like", "numpy.zeros_like", "numpy.empty_like", "numpy.full_like"}


def fname(t):
    """Name of a called function: library, builtin or opaque."""
    if t.op == "call" and isinstance(t.a[0], T):
        f = t.a[0]
        if f.op in ("opq", "ext", "bi"):
            return str(f.a[0])
    return None


def kwargs(t):
    return dict(t.a[2]) if len(t.a) > 2 else {}


class Lens:
    """Terms under one assignment of the branch conditions, with facts known from the path's guards."""

    def __init__(self, asg, eqs=()):
        self.asg = asg
        self.memo = {}
        self.eq = {}
        for a, b in eqs:
            a, b = self.find(self.norm(a)), self.find(self.norm(b))
            if a is not b:
                self.eq[a] = b

    def find(self, t):
        while t in self.eq:
            t = self.eq[t]
        return t

    def cond(self, c):
        if c in self.asg:
            return self.asg[c]
        if c.op == "op" and c.a[0] == "not":
            v = self.cond(c.a[1])
            return None if v is None else not v
        if c.op == "op" and c.a[0] == "is" and len(c.a) == 3 and c.a[2].op == "null":
            x = self.norm(c.a[1])
            if x.op == "null":
                return True
            if x.op in ("list", "tuple", "lit", "copyof") or (x.op == "call"):
                return False
            d = mk("op", "is", x, c.a[2])
            if d in self.asg:
                return self.asg[d]
        return None

    def norm(self, t):
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        r = self.norm1(t)
        self.memo[t] = r
        return r

    def norm1(self, t):
        if t.op == "ite":
            v = self.cond(t.a[0])
            if v is True:
                return self.norm(t.a[1])
            if v is False:
                return self.norm(t.a[2])
        if t.op == "sub" and islit(t.a[1]) and t.a[1].a[0] == 0:
            x = t.a[0]
            if x.op == "ite":
                x = self.norm(x)
            if x.op == "attr" and x.a[1] == "shape":
                return self.rows(x.a[0])
            if x.op == "tuple":
                return self.norm(x.a[0][0])
        if fname(t) == "len" and t.a[1]:
            return self.rows(t.a[1][0])
        if t.op == "attr" and t.a[1] == "size" and False:
            return t
        return mk(t.op, *[self.tup(x) for x in t.a])

    def tup(self, x):
        if isinstance(x, T):
            return self.norm(x)
        if isinstance(x, tuple):
            return tuple(self.tup(y) for y in x)
        return x

    def first(self, shape):
        """First entry of a shape; None when unconstrained; a term otherwise."""
        s = self.norm(shape)
        if s.op in ("tuple", "list"):
            xs = s.a[0] if s.op == "tuple" else s.a[1]
            if not xs:
                return None
            return None if xs[0].op == "null" else xs[0]
        if s.op == "attr" and s.a[1] == "shape":
            return self.rows(s.a[0])
        if s.op == "null":
            return None
        return s

    def rows(self, t):
        """Length of the first dimension of array term t."""
        if t.op == "ite":
            v = self.cond(t.a[0])
            if v is not None:
                return self.rows(t.a[1] if v else t.a[2])
        if t.op == "copyof":
            return self.rows(t.a[0])
        n = fname(t)
        if n == CONV:
            kw = kwargs(t)
            sh = kw.get("shape") or (t.a[1][1] if len(t.a[1]) > 1 else None)
            f = self.first(sh) if sh is not None else None
            if f is not None:
                return self.find(f)
            return self.rows(t.a[1][0])
        if n in FILL:
            sh = kwargs(t).get("shape") or (t.a[1][0] if t.a[1] else None)
            if sh is not None:
                f = self.first(sh)
                if f is not None:
                    return self.find(f)
        if n in SAME and t.a[1]:
            x = self.norm(t.a[1][0])
            if n in ("numpy.ascontiguousarray", "numpy.asarray", "numpy.require", "numpy.copy", "numpy.array") or n.endswith("_like"):
                if x.op == "op" and x.a[0] == "*" and x.a[1].op == "list" and len(x.a[1].a[1]) == 1:
                    return self.find(x.a[2])
                if not n.startswith("numpy.atleast"):
                    return self.rows(t.a[1][0])
        if t.op == "op" and t.a[0] in ("+", "-", "/", "*") and len(t.a) == 3:
            a, b = t.a[1], t.a[2]
            if t.a[0] == "*" and a.op == "list" and len(a.a[1]) == 1:
                return self.find(self.norm(b))
            ra = self.rows(a)
            if ra.op == "rows" and isvector(b):
                return ra
            if isvector(b):
                return ra
        return self.find(mk("rows", self.norm(t)))


def isvector(t):
    return islit(t) or t.op == "list" or (fname(t) or "").startswith("numpy.array") or t.op == "attr" or \
        not any(x.op == "param" or x.op == "elt" for x in walk(t))


def conditions(ts):
    """Distinct branch conditions of the terms."""
    out = []
    seen = set()
    for t in ts:
        for x in walk(t):
            if x.op == "ite":
                c = x.a[0]
                while c.op == "op" and c.a[0] == "not":
                    c = c.a[1]
                if c not in seen:
                    seen.add(c)
                    out.append(c)
    return out


def facts(guards):
    """(conditions decided on this path, equalities of lengths known on it)."""
    asg, eqs = {}, []

    def add(c, pol):
        if c.op == "op" and c.a[0] == "not":
            return add(c.a[1], not pol)
        if c.op == "op" and (c.a[0] == "and" and pol or c.a[0] == "or" and not pol):
            for x in c.a[1:]:
                add(x, pol)
            return
        asg[c] = pol
        if c.op == "op" and len(c.a) == 3 and (c.a[0] == "==" and pol or c.a[0] == "!=" and not pol):
            eqs.append((c.a[1], c.a[2]))
            for a, b in ((c.a[1], c.a[2]),):
                if a.op == "attr" and b.op == "attr" and a.a[1] == b.a[1] == "shape":
                    eqs.append((mk("sub", a, mk("lit", 0)), mk("sub", b, mk("lit", 0))))
    for g, p in guards:
        add(g, p)
    return asg, eqs


def unequal(a_arr, b_len, guards, limit=10):
    """None when array term a_arr always has b_len rows; otherwise the (assignment, rows, expected) of a counterexample.
    b_len: an integer term, or ('rows', term)."""
    fixed, eqs = facts(guards)
    ts = [a_arr] + [b_len[1] if isinstance(b_len, tuple) else b_len]
    cs = [c for c in conditions(ts) if c not in fixed][:limit]
    for vals in itertools.product((True, False), repeat=len(cs)):
        asg = dict(fixed)
        asg.update(zip(cs, vals))
        L = Lens(asg, eqs)
        x = L.norm(a_arr)
        if x.op == "null":
            continue
        ra = L.rows(a_arr)
        rb = L.rows(b_len[1]) if isinstance(b_len, tuple) else L.find(L.norm(b_len))
        if ra is not rb:
            return dict(zip(cs, vals)), ra, rb
    return None
