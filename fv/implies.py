"""Three-valued reasoning over evaluator guards: what a set of branch conditions says about another condition."""
from .terms import T, mk, lit, islit, truth, walk


class Asm:
    """A set of conditions known to hold or not."""

    def __init__(self, guards=(), hook=None):
        self.k = {}
        self.hook = hook
        for t, p in guards:
            self.add(t, p)

    def copy(self):
        a = Asm(hook=self.hook)
        a.k = dict(self.k)
        return a

    def add(self, t, pol):
        if t in self.k:
            return
        self.k[t] = pol
        if t.op == "op":
            o = t.a[0]
            if o == "&&" and pol or o == "||" and not pol:
                self.add(t.a[1], pol)
                self.add(t.a[2], pol)
            elif o == "!":
                self.add(t.a[1], not pol)
        elif t.op == "phi":
            c, a, b = t.a
            if self.val(a) is (not pol):
                self.add(c, False)
                self.add(b, pol)
            elif self.val(b) is (not pol):
                self.add(c, True)
                self.add(a, pol)

    def val(self, t, depth=0):
        if not isinstance(t, T) or depth > 60:
            return None
        r = self.k.get(t)
        if r is not None:
            return r
        r = truth(t)
        if r is not None:
            return r
        if self.hook is not None:
            r = self.hook(t)
            if r is not None:
                return r
        if t.op == "ilist" and len(t.a) == 1:
            return self.val(t.a[0], depth + 1)
        if t.op == "op":
            o = t.a[0]
            if o == "!":
                x = self.val(t.a[1], depth + 1)
                return None if x is None else not x
            if o in ("&&", "||"):
                x, y = self.val(t.a[1], depth + 1), self.val(t.a[2], depth + 1)
                if o == "&&":
                    return False if x is False or y is False else True if x and y else None
                return True if x or y else False if x is False and y is False else None
            if o == "<" and len(t.a) == 3:
                x = self.k.get(mk("op", "<=", t.a[2], t.a[1]))
                return None if x is None else not x
            if o == "<=" and len(t.a) == 3:
                x = self.k.get(mk("op", "<", t.a[2], t.a[1]))
                return None if x is None else not x
        if t.op == "phi":
            c = self.val(t.a[0], depth + 1)
            if c is not None:
                return self.val(t.a[1] if c else t.a[2], depth + 1)
            x, y = self.val(t.a[1], depth + 1), self.val(t.a[2], depth + 1)
            return x if x is not None and x == y else None
        return None

    def reduce(self, t, memo=None):
        """t with every choice that the assumptions decide resolved."""
        memo = {} if memo is None else memo
        r = memo.get(t)
        if r is not None:
            return r
        memo[t] = t
        if t.op == "phi":
            c = self.val(t.a[0])
            if c is None:
                c = self.val(self.reduce(t.a[0], memo))
            if c is not None:
                r = self.reduce(t.a[1] if c else t.a[2], memo)
                memo[t] = r
                return r
        ch = False
        a = []
        for x in t.a:
            if isinstance(x, T):
                y = self.reduce(x, memo)
                ch = ch or y is not x
                a.append(y)
            else:
                a.append(x)
        r = mk(t.op, *a) if ch else t
        memo[t] = r
        return r


def contradicts(guards, hook):
    """Do the guards rule out the situation the hook describes (atoms it gives truth values for)?"""
    A = Asm(hook=hook)
    for t, p in guards:
        v = A.val(t)
        if v is not None and v != p:
            return True
    return False


def cases(v, guards, limit=4000):
    """(leaf value, guards of the path to it) of a value with choices."""
    out = []
    todo = [(v, tuple(guards))]
    while todo and len(out) < limit:
        x, g = todo.pop()
        if x.op == "phi":
            A = Asm(g)
            c = A.val(x.a[0])
            if c is not False:
                todo.append((x.a[1], g + ((x.a[0], True),)))
            if c is not True:
                todo.append((x.a[2], g + ((x.a[0], False),)))
        else:
            out.append((x, g))
    return out
