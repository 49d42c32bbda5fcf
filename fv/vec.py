"""Components of vector-valued terms."""
from .terms import T, mk, lit, islit

AXES = ("x", "y", "z")


def comp(t, a, scalar=None, memo=None):
    """Component a of vector term t, with + - * / and partial updates distributed; scalar(t) tells scalars apart."""
    memo = {} if memo is None else memo
    k = (t, a)
    r = memo.get(k)
    if r is not None:
        return r
    r = comp_(t, a, scalar, memo)
    memo[k] = r
    return r


def comp_(t, a, scalar, memo):
    while t.op == "ilist" and len(t.a) == 1:
        t = t.a[0]
    if islit(t) or scalar is not None and scalar(t):
        return t
    if t.op == "struct":
        d = dict(t.a[1])
        return d.get(a) or mk("get", t, a)
    if t.op == "ilist" and len(t.a) == 3:
        return t.a[AXES.index(a)]
    if t.op == "upd" and isinstance(t.a[1], tuple) and t.a[1][0] == "f":
        return t.a[2] if t.a[1][1] == a else comp(t.a[0], a, scalar, memo)
    if t.op == "op" and t.a[0] in ("+", "-", "*", "/", "neg"):
        xs = [comp(x, a, scalar, memo) for x in t.a[1:]]
        return mk("op", t.a[0], *xs)
    if t.op == "phi":
        x, y = comp(t.a[1], a, scalar, memo), comp(t.a[2], a, scalar, memo)
        return x if x is y else mk("phi", t.a[0], x, y)
    if t.op in ("hv", "ho", "ld", "param", "pobj", "call", "get", "deref"):
        return mk("get", t, a)
    return mk("get", t, a)


def expand(t, memo=None, scalar=None):
    """Every component access in t pushed to the leaves."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = t
    if t.op == "get" and t.a[1] in AXES:
        r = comp(t.a[0], t.a[1], scalar)
        r = expand(r, memo, scalar) if r is not t else t
    elif t.op == "struct":
        r = mk("struct", t.a[0], tuple((n, expand(v, memo, scalar) if isinstance(v, T) else v) for n, v in t.a[1]))
    else:
        ch, a = False, []
        for x in t.a:
            y = expand(x, memo, scalar) if isinstance(x, T) else x
            ch = ch or y is not x
            a.append(y)
        r = mk(t.op, *a) if ch else t
    memo[t] = r
    return r
