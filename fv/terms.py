"""Interned terms: values and places of the abstract evaluator."""


class T:
    __slots__ = ("op", "a", "h", "uid")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *a):
    k = (op,) + a
    # 0 == 0.0 == False in Python: keep literals of different types apart
    if op == "lit":
        k = (op, type(a[0]).__name__) + a
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.h = hash(k)
        t.uid = T._n
        T._n += 1
        T._tab[k] = t
    return t


def lit(v):
    return mk("lit", v)


NULL = mk("null")
UNDEF = mk("undef")
TRUE = lit(True)
FALSE = lit(False)


def islit(t):
    return t.op == "lit"


def truth(t):
    """None when unknown."""
    if t.op == "lit":
        v = t.a[0]
        if isinstance(v, (bool, int, float)):
            return bool(v)
    if t.op == "null":
        return False
    return None


def show(t, d=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d == 0:
        return "…"
    o, a = t.op, t.a
    if o == "lit":
        return repr(a[0])
    if o == "var":
        return a[0].split(":")[2 if a[0].startswith("p:") else 0]
    if o == "fld":
        return show(a[0], d - 1) + "." + a[1]
    if o == "idx":
        return show(a[0], d - 1) + "[" + ",".join(show(x, d - 1) for x in a[1:]) + "]"
    if o == "this":
        return "this"
    if o == "ld":
        return show(a[0], d)
    if o == "deref":
        return "*(" + show(a[0], d - 1) + ")"
    if o == "ptr":
        return "&" + show(a[0], d - 1)
    if o == "param":
        return "$" + str(a[0])
    if o == "op":
        if len(a) == 3:
            return "(" + show(a[1], d - 1) + " " + a[0] + " " + show(a[2], d - 1) + ")"
        return a[0] + "(" + ",".join(show(x, d - 1) for x in a[1:]) + ")"
    if o == "call":
        return str(a[0]).split("(")[0] + "(" + ",".join(show(x, d - 1) for x in a[1:]) + ")"
    if o == "struct":
        return str(a[0]).split("<")[0].split("::")[-1] + "{" + ",".join(n + "=" + show(v, d - 1) for n, v in a[1]) + "}"
    return o + "(" + ",".join(show(x, d - 1) for x in a) + ")"


def sub(t):
    """Direct sub-terms."""
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(sub(x))


def root(p):
    """The outermost container a place lives in."""
    while p.op in ("fld", "idx"):
        p = p.a[0]
    return p


def ancestors(p):
    while p.op in ("fld", "idx"):
        p = p.a[0]
        yield p


def subst(t, m, memo=None):
    """The term with sub-terms replaced."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    r = mk(t.op, *[go(x) for x in t.a])
    memo[t] = r
    return r
