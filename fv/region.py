"""Truth of branch conditions over a region of values: intervals, one linear ordering, kinds of Python values."""
import math
from .implies import Asm
from .terms import T, mk, islit, show

INF = math.inf
ZERO = (0.0, 0.0)


class Region:
    """Truth of conditions for all values of a region: intervals of terms, an ordering of two terms, kinds of values."""

    def __init__(self, iv=None, order=None, kind=None):
        self.iv, self.order, self.kind = dict(iv or {}), order, dict(kind or {})
        self.A = Asm(hook=self.hook)

    def interval(self, t, d=0):
        if not isinstance(t, T) or d > 40:
            return None
        if t in self.iv:
            return self.iv[t]
        if islit(t):
            v = t.a[0]
            return (float(v), float(v)) if isinstance(v, (int, float, bool)) else None
        k = self.kind.get(t)
        if k == "seq0":
            return None
        if t.op == "call" and t.a and isinstance(t.a[0], T):
            f = t.a[0]
            args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else ()
            if f.op == "bi" and f.a[0] in ("float", "int", "bool") and len(args) == 1:
                r = self.interval(args[0], d + 1)
                return r if f.a[0] != "int" or r is None or r in (ZERO,) or r[1] <= -1 else (r[0], r[1])
            if f.op == "bi" and f.a[0] == "len" and args and args[0] in self.kind and str(self.kind[args[0]]).startswith("seq"):
                n = float(self.kind[args[0]][3:])
                return (n, n)
            if f.op == "bi" and f.a[0] == "len" and args:
                x = self.choose(args[0])
                if x is not args[0]:
                    return self.interval(mk("call", f, (x,), ()), d + 1)
            return None
        if t.op == "ext" and t.a[0] in ("numpy.pi", "math.pi"):
            return (math.pi, math.pi)
        if t.op in ("ite", "phi"):
            c = self.A.val(t.a[0]) if t.op == "phi" else self.truth(t.a[0])
            if c is not None:
                return self.interval(t.a[1] if c else t.a[2], d + 1)
            x, y = self.interval(t.a[1], d + 1), self.interval(t.a[2], d + 1)
            return None if x is None or y is None else (min(x[0], y[0]), max(x[1], y[1]))
        if t.op == "ilist" and len(t.a) == 1:
            return self.interval(t.a[0], d + 1)
        if t.op == "op":
            xs = [self.interval(x, d + 1) for x in t.a[1:]]
            if t.a[0] == "%" and self.kind.get(t.a[1]) == "odd" and islit(t.a[2]) and t.a[2].a[0] == 2:
                return (1.0, 1.0)
            if t.a[0] == "*" and ZERO in xs:
                return ZERO
            if None in xs:
                return None
            if t.a[0] in ("neg", "-") and len(xs) == 1:
                return (-xs[0][1], -xs[0][0])
            if len(xs) == 2:
                (a, b), (c, e) = xs
                if t.a[0] == "+":
                    return (a + c, b + e)
                if t.a[0] == "-":
                    return (a - e, b - c)
                if t.a[0] in ("*", "/"):
                    try:
                        v = [x * y if t.a[0] == "*" else x / y for x in (a, b) for y in (c, e)]
                    except ZeroDivisionError:
                        return None
                    if any(x != x for x in v) or t.a[0] == "/" and c <= 0 <= e:
                        return None
                    return (min(v), max(v))
        return None

    def choose(self, t):
        while isinstance(t, T) and t.op in ("ite", "phi"):
            c = self.truth(t.a[0])
            if c is None:
                return t
            t = t.a[1] if c else t.a[2]
        return t

    def form(self, t, c=1.0, out=None):
        out = {} if out is None else out
        t = self.choose(t)
        if islit(t) and isinstance(t.a[0], (int, float)):
            out[None] = out.get(None, 0.0) + c * t.a[0]
        elif t.op == "op" and t.a[0] in ("+", "-") and len(t.a) == 3:
            self.form(t.a[1], c, out)
            self.form(t.a[2], c if t.a[0] == "+" else -c, out)
        elif t.op == "op" and t.a[0] in ("neg", "-") and len(t.a) == 2:
            self.form(t.a[1], -c, out)
        elif t.op == "op" and t.a[0] == "/" and islit(t.a[2]) and t.a[2].a[0]:
            self.form(t.a[1], c / t.a[2].a[0], out)
        elif t.op == "op" and t.a[0] == "*" and any(islit(x) for x in t.a[1:]):
            k = t.a[1] if islit(t.a[1]) else t.a[2]
            self.form(t.a[2] if k is t.a[1] else t.a[1], c * k.a[0], out)
        elif t.op == "call" and isinstance(t.a[0], T) and t.a[0].op == "bi" and t.a[0].a[0] == "float":
            self.form(t.a[1][0], c, out)
        else:
            out[t] = out.get(t, 0.0) + c
        return {k: v for k, v in out.items() if v}

    def difference(self, a, b):
        """Interval of a - b."""
        if self.order:
            want, strict = self.order          # the form is <= 0 (or < 0) in this region
            f = self.form(mk("op", "-", a, b))
            k = f.pop(None, 0.0)
            if set(f) == set(want) and len({f[x] / want[x] for x in f}) == 1:
                m = next(f[x] / want[x] for x in f)
                top = -1e-30 if strict else 0.0
                return (-INF, m * top + k) if m > 0 else (m * top + k, INF)
        x, y = self.interval(a), self.interval(b)
        if x is None or y is None:
            return None
        lo, hi = x[0] - y[1], x[1] - y[0]
        return None if lo != lo or hi != hi else (lo, hi)

    def truth(self, t):
        return pytruth(self, t)

    def hook(self, t):
        if t.op in ("imp", "ite") or t.op == "op" and t.a[0] in ("not", "and", "or", "is", "in") or t.op in ("call", "exc"):
            return pytruth(self, t)
        if t.op == "op" and t.a[0] in ("<", "<=", "==", "!=", ">", ">=") and len(t.a) == 3:
            return self.compare(t)
        r = self.interval(t)
        if r is not None:
            return False if r == ZERO else True if r[0] > 0 or r[1] < 0 else None
        return None

    def compare(self, t):
        o, a, b = t.a
        for x, y in ((a, b), (b, a)):
            if self.kind.get(self.choose(x)) == "other" and islit(y):
                return {"==": False, "!=": True}.get(o)
        if o in (">", ">="):
            a, b, o = b, a, {">": "<", ">=": "<="}[o]
        r = self.difference(a, b)
        if r is None:
            return None
        lo, hi = r
        if o == "<":
            return True if hi < 0 else False if lo >= 0 else None
        if o == "<=":
            return True if hi <= 0 else False if lo > 0 else None
        eq = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
        return eq if o == "==" or eq is None else not eq


def pytruth(R, t):
    """Truth value of a Python condition in region R, or None."""
    if not isinstance(t, T):
        return None
    k = R.A.k.get(t)
    if k is not None:
        return k
    if t in R.kind and isinstance(R.kind[t], bool):
        return R.kind[t]
    if t.op == "imp":
        a, b = pytruth(R, t.a[0]), pytruth(R, t.a[1])
        return True if a is False or b is True else False if a is True and b is False else None
    if t.op == "ite":
        c = pytruth(R, t.a[0])
        if c is not None:
            return pytruth(R, t.a[1] if c else t.a[2])
        a, b = pytruth(R, t.a[1]), pytruth(R, t.a[2])
        return a if a == b else None
    if t.op == "op":
        o = t.a[0]
        if o in ("not", "!"):
            a = pytruth(R, t.a[1])
            return None if a is None else not a
        if o in ("and", "or", "&&", "||"):
            xs = [pytruth(R, x) for x in t.a[1:]]
            if o in ("and", "&&"):
                return False if False in xs else True if all(x is True for x in xs) else None
            return True if True in xs else False if all(x is False for x in xs) else None
        if o == "is" and any(x.op == "null" for x in t.a[1:]):
            x = [y for y in t.a[1:] if y.op != "null"]
            x = R.choose(x[0]) if x else None
            return False if x is not None and (x in R.iv or x in R.kind) else None
        if o == "in":
            x = R.choose(t.a[1])
            if R.kind.get(x) == "other":
                return False if t.a[2].op in ("list", "tuple", "dict", "set", "lit") else None
            return None
    if t.op == "call" and isinstance(t.a[0], T) and t.a[0].op == "bi":
        f, args = t.a[0].a[0], t.a[1]
        if f == "isinstance" and len(args) == 2:
            x = R.choose(args[0])
            k = str(R.kind.get(x, ""))
            c = show(args[1], 6)
            if k.startswith("seq"):
                return True if "Sequence" in c or "list" in c else False if "int" in c else None
            if k == "other":
                return True if c.endswith("(str)") else False if "int" in c or "dict" in c else None
            if x in R.iv:
                return False if "Sequence" in c or "list" in c or "str" in c else True if c in ("bi(int)", "int") else None
        if f in ("all", "any") and args:
            return None
    if t.op == "exc":
        kinds, subs = t.a[1], t.a[2]
        for x in subs:
            if isinstance(x, T) and x.op == "sub" and x.a[0].op in ("dict",) and R.kind.get(R.choose(x.a[1])) == "other":
                return "KeyError" in str(kinds) or "BaseException" in str(kinds) or str(kinds) == "Exception"
        return None
    if t.op == "op" and t.a[0] in ("<", "<=", "==", "!=", ">", ">="):
        return R.compare(t)
    r = R.interval(t)
    if r is not None:
        return False if r == ZERO else True if r[0] > 0 or r[1] < 0 else None
    return None


def rejects(guards, R):
    """Do the conditions of normal return contradict the region?"""
    for t, p in guards:
        if p:
            R.A.k.pop(t, None)
        v = R.truth(t)
        if v is None:
            v = R.A.val(t)
        if v is not None and v != p:
            return True
    return False
