"""Normal forms of arithmetic terms: quotients of polynomials with rational coefficients over opaque atoms."""
from fractions import Fraction

from .terms import T, mk, islit, show
from .vec import comp, AXES


class Undefined(Exception):
    """A term whose normal form is not determined (division by zero, vector arithmetic left over, ...)."""


CASTS = {"cast", "tofloat", "todouble", "conv"}


class Norm:
    """norm(t) -> (numerator, denominator); polynomials map sorted tuples of atom keys to coefficients."""

    def __init__(self, env=None, atom=None, limit=4000):
        self.env = env or {}        # term -> replacement term
        self.atom = atom            # hook: term -> replacement term or None
        self.memo = {}
        self.names = {}             # atom key -> term
        self.limit = limit
        self.ids = {}               # canonical description -> atom key

    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.norm_(t)
        return r

    def norm_(self, t):
        if t in self.env:
            return self.norm(self.env[t])
        if self.atom is not None:
            w = self.atom(t)
            if w is not None and w is not t:
                return self.norm(w)
        if islit(t):
            v = t.a[0]
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or v in (float("inf"), float("-inf")):
                return self.opaque(t)
            return const(Fraction(v))
        if t.op == "op":
            o = t.a[0]
            if o in ("+", "-", "*", "/") and len(t.a) >= 3:
                r = self.norm(t.a[1])
                for x in t.a[2:]:
                    y = self.norm(x)
                    r = {"+": add, "-": subtract, "*": mul, "/": div}[o](r, y)
                    if len(r[0]) > self.limit or len(r[1]) > self.limit:
                        raise Undefined("too large")
                return r
            if o == "neg":
                return mul(const(Fraction(-1)), self.norm(t.a[1]))
        if t.op in CASTS and len(t.a) and isinstance(t.a[-1], T):
            return self.norm(t.a[-1])
        if t.op == "get" and t.a[1] in AXES:
            c = comp(t.a[0], t.a[1])
            if c is not t and not (c.op == "get" and c.a[0] is t.a[0]):
                return self.norm(c)
        return self.opaque(t)

    def opaque(self, t):
        """An atom, identified by its operator and the normal forms of its arithmetic arguments."""
        k = self.key(t)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
            self.names[self.ids[k]] = t
        return ({(self.ids[k],): Fraction(1)}, {(): Fraction(1)})

    def key(self, t):
        if t.op in ("call", "sqrt", "phi", "op", "get", "idx", "struct"):
            out = [t.op]
            for x in t.a:
                if isinstance(x, T):
                    out.append(("t", self.form(x)) if x.op in ("op", "call", "get", "lit", "param", "phi", "ld", "struct") else ("t", x))
                else:
                    out.append(x if not isinstance(x, tuple) else ("t", t))
            return tuple(out)
        return t

    def form(self, t):
        n, d = self.norm(t)
        return freeze(*reduce_(n, d))

    def same(self, a, b):
        """Equal as quotients of polynomials."""
        n1, d1 = self.norm(a)
        n2, d2 = self.norm(b)
        return pmul(n1, d2) == pmul(n2, d1)

    def iszero(self, t):
        return not self.norm(t)[0]


def freeze(n, d):
    return (tuple(sorted(n.items())), tuple(sorted(d.items())))


def const(c):
    return ({(): c} if c else {}, {(): Fraction(1)})


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            w = tuple(sorted(m + k))
            x = r.get(w, 0) + c * d
            if x:
                r[w] = x
            else:
                r.pop(w, None)
    return r


def add(a, b, s=1):
    if a[1] == b[1]:
        return reduce_(padd(a[0], b[0], s), a[1])
    return reduce_(padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1]))


def subtract(a, b):
    return add(a, b, -1)


def mul(a, b):
    return reduce_(pmul(a[0], b[0]), pmul(a[1], b[1]))


def div(a, b):
    if not b[0]:
        raise Undefined("division by zero")
    return reduce_(pmul(a[0], b[1]), pmul(a[1], b[0]))


def reduce_(n, d):
    """Common monomials cancelled, leading coefficient of the denominator one."""
    if not n:
        return {}, {(): Fraction(1)}
    common = None
    for p in (n, d):
        for m in p:
            c = {}
            for x in m:
                c[x] = c.get(x, 0) + 1
            common = c if common is None else {x: min(k, c.get(x, 0)) for x, k in common.items() if c.get(x, 0)}
            if not common:
                break
        if not common:
            break
    if common:
        def strip(p):
            r = {}
            for m, c in p.items():
                l = list(m)
                for x, k in common.items():
                    for _ in range(k):
                        l.remove(x)
                r[tuple(l)] = c
            return r
        n, d = strip(n), strip(d)
    k = d[max(d)]
    if k != 1:
        n = {m: c / k for m, c in n.items()}
        d = {m: c / k for m, c in d.items()}
    return n, d
