"""Abstract evaluator for the Python layer: runs a method on symbolic arguments, following calls inside the
library, merging paths, and records events (native calls, stores, in-place operations, raises, returns) with the
conditions that hold there."""
import ast
from .terms import T, mk, lit, islit, show, walk, NULL
from .pyfacts import Cls, kind

NONE = NULL  # the None object


class Ev:
    __slots__ = ("kind", "target", "args", "kw", "value", "guards", "fn", "file", "line", "n", "stack", "loops", "place", "caught", "exc")

    def __repr__(self):
        return "%s %s(%s) %s g=%s @%s:%s" % (self.kind, show(self.target) if isinstance(self.target, T) else self.target,
                                             ", ".join(show(a) for a in self.args or ()) + "".join(", %s=%s" % (k, show(v)) for k, v in self.kw or ()),
                                             "= " + show(self.value) if isinstance(self.value, T) else "",
                                             " & ".join(("" if p else "!") + show(g, 4) for g, p in self.guards), self.fn, self.line)


class State:
    def __init__(self):
        self.loc = {}
        self.heap = {}      # (obj, attr) -> value
        self.guards = ()

    def copy(self):
        s = State()
        s.loc = dict(self.loc)
        s.heap = dict(self.heap)
        s.guards = self.guards
        return s


class Ret:
    def __init__(self, st, v):
        self.st, self.v = st, v


def neg(g):
    return (g[0], not g[1])


def truth(t):
    if t.op == "lit":
        return bool(t.a[0])
    if t is NONE:
        return False
    if t.op in ("list", "tuple", "dict", "set"):
        if any(isinstance(x, T) and x.op == "star" for x in t.a[-1]) if t.op != "dict" else any(k is None for k, _ in t.a[-1]):
            return None
        return len(t.a[-1]) > 0
    if t.op in ("new", "cls", "fn", "mod", "nat", "self"):
        return True
    return None


def items(t):
    """Elements of a display term, or None."""
    if t.op in ("list", "tuple", "set"):
        xs = t.a[-1]
        if any(x.op == "star" for x in xs):
            return None
        return xs
    if t.op == "lit" and isinstance(t.a[0], str):
        return [lit(c) for c in t.a[0]]
    if t.op == "dict":
        if any(k is None for k, _ in t.a[-1]):
            return None
        return [k for k, _ in t.a[-1]]
    return None


def decompose(t, pol):
    """Guard atoms of a condition."""
    if t.op == "op" and t.a[0] == "not":
        return decompose(t.a[1], not pol)
    if t.op == "op" and t.a[0] == "and" and pol:
        return [x for y in t.a[1:] for x in decompose(y, True)]
    if t.op == "op" and t.a[0] == "or" and not pol:
        return [x for y in t.a[1:] for x in decompose(y, False)]
    if t.op == "call" and t.a[0].op in ("ext", "bi") and t.a[0].a[0].split(".")[-1] == "bool" and len(t.a[1]) == 1:
        return decompose(t.a[1][0], pol)
    return [(t, pol)]


def conj(gs):
    ts = [g if p else mkop("not", g) for g, p in gs]
    if not ts:
        return lit(True)
    if len(ts) == 1:
        return ts[0]
    return mk("op", "and", *ts)


def mkop(o, *a):
    a = list(a)
    if o == "not":
        t = truth(a[0])
        if t is not None:
            return lit(not t)
        if a[0].op == "op" and a[0].a[0] == "not":
            return a[0].a[1]
        return mk("op", "not", a[0])
    if o in ("and", "or"):
        out = []
        for x in a:
            t = truth(x)
            if t is not None and x.op in ("lit", "null", "new", "cls", "fn", "mod", "nat", "self"):
                if t == (o == "and"):
                    continue
                out.append(x)
                break
            out.append(x)
        if not out:
            return a[-1] if a else lit(o == "and")
        if len(out) == 1:
            return out[0]
        return mk("op", o, *out)
    if o in ("!=", "is not", "not in"):
        return mkop("not", mkop({"!=": "==", "is not": "is", "not in": "in"}[o], *a))
    if o == ">":
        return mkop("<", a[1], a[0])
    if o == ">=":
        return mkop("<=", a[1], a[0])
    if o == "is" or o == "==":
        if a[0] is a[1] and a[0].op in ("lit", "null", "cls", "new", "self", "param", "enumv"):
            return lit(True)
        conc = ("lit", "null", "new", "cls", "fn", "nat", "list", "tuple", "dict", "self", "fstr", "comp")
        if a[0].op in conc and a[1].op in conc and a[0].op != a[1].op and ("null" in (a[0].op, a[1].op)):
            return lit(False)
        if NONE in a:
            x = a[0] if a[1] is NONE else a[1]
            if neverNone(x):
                return lit(False)
            if x.op == "ite":
                y = mk("ite", x.a[0], mkop(o, x.a[1], NONE), mkop(o, x.a[2], NONE))
                if islit(y.a[1]) and islit(y.a[2]):
                    if y.a[1] is y.a[2]:
                        return y.a[1]
                    return y.a[0] if y.a[1].a[0] else mkop("not", y.a[0])
        for i in (0, 1):
            x, y = a[i], a[1 - i]
            if x.op == "ite" and y.op in ("cls", "bi", "lit", "native"):
                p, q = mkop(o, x.a[1], y), mkop(o, x.a[2], y)
                if islit(p) and islit(q):
                    return p if p is q else (x.a[0] if p.a[0] else mkop("not", x.a[0]))
                if islit(p):
                    return mkop("or", x.a[0], q) if p.a[0] else mkop("and", mkop("not", x.a[0]), q)
                if islit(q):
                    return mkop("or", mkop("not", x.a[0]), p) if q.a[0] else mkop("and", x.a[0], p)
        if {a[0].op, a[1].op} <= {"cls", "bi"} and (a[0].op == "cls" or a[1].op == "cls"):
            return lit(a[0] is a[1])
        if a[0].op == "lit" and a[1].op == "lit":
            return lit(a[0].a[0] == a[1].a[0] if o == "==" else (a[0].a[0] is a[1].a[0] or a[0] is a[1]))
        if o == "==" and a[1].uid < a[0].uid:
            a = [a[1], a[0]]
        return mk("op", o, *a)
    if o == "in":
        xs = items(a[1])
        if xs is not None:
            if any(x is a[0] for x in xs):
                return lit(True)
            if a[0].op == "lit" and all(x.op == "lit" for x in xs):
                return lit(any(x.a[0] == a[0].a[0] for x in xs))
            if not xs:
                return lit(False)
        return mk("op", o, *a)
    if len(a) == 2 and all(x.op == "lit" and isinstance(x.a[0], (int, float)) for x in a):
        x, y = a[0].a[0], a[1].a[0]
        try:
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "<": lambda: x < y,
                 "<=": lambda: x <= y, "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 9 else None, "//": lambda: x // y}.get(o)
            if r and r() is not None:
                return lit(r())
        except Exception:
            pass
    if len(a) == 1 and o == "-" and a[0].op == "lit" and isinstance(a[0].a[0], (int, float)):
        return lit(-a[0].a[0])
    if o == "+" and all(x.op in ("list", "tuple") for x in a) and a[0].op == a[1].op and a[0].op == "tuple":
        return mk("tuple", a[0].a[-1] + a[1].a[-1])
    return mk("op", o, *a)


NPFRESH = {"asarray", "array", "require", "ones", "zeros", "empty", "copy", "atleast_2d", "atleast_1d", "sqrt", "ascontiguousarray",
           "square", "sum", "real", "squeeze", "full", "arange", "linspace", "unique", "append", "concatenate", "mean", "dict", "list", "tuple", "float", "int", "bool", "str", "len"}


def neverNone(x):
    if x.op in ("lit", "new", "cls", "fn", "nat", "list", "tuple", "dict", "set", "self", "fstr", "comp", "op", "slice", "mod"):
        return True
    if x.op == "call":
        f = x.a[0]
        n = f.a[-1] if f.op == "attr" else (f.a[0].split(".")[-1] if f.op in ("ext", "bi") else "")
        return n in NPFRESH or f.op == "opq"
    if x.op == "attr" and x.a[1] in ("shape", "ndim", "points", "dtype", "T"):
        return True
    if x.op == "sub" and x.a[0].op == "attr" and x.a[0].a[1] == "shape":
        return True
    if x.op == "ite":
        return neverNone(x.a[1]) and neverNone(x.a[2])
    if x.op == "upd":
        return True
    return False


def ite(c, a, b):
    if a is b:
        return a
    t = truth(c)
    if t is not None:
        return a if t else b
    if c.op == "op" and c.a[0] == "not":
        return ite(c.a[1], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def assume(t, c, pol):
    """Simplify a term under a known condition."""
    if not isinstance(t, T) or t.op != "ite":
        return t
    if t.a[0] is c:
        return assume(t.a[1] if pol else t.a[2], c, pol)
    a, b = assume(t.a[1], c, pol), assume(t.a[2], c, pol)
    return ite(t.a[0], a, b)


def shared(v, tag):
    """A mutable object created once per class or function: its identity is the place it is created at."""
    if v.op in ("list", "dict", "set"):
        return mk(v.op, tag, v.a[-1])
    if v.op == "call" and not (v.a[0].op == "bi" and v.a[0].a[0] in ("tuple", "frozenset", "float", "int", "str", "bool", "max", "min", "len")):
        return mk("shared", tag, v)
    return v


class Dead(Exception):
    pass


class Engine:
    MAXDEPTH = 14

    def __init__(self, P, opaque=(), natclass=None):
        self.P = P
        self.events = []
        self.opaque = set(opaque)       # qualified names not followed
        self.natclass = natclass or {}
        self.depth = 0
        self.stack = []
        self.loops = []
        self.nsite = 0
        self.visited = set()
        self.tries = 0
        self.exc = 0        # inside an exception handler or a finally clause
        self.unk = set()

    # ------------------------------------------------------------ helpers
    def ev(self, kind, s, node, **k):
        e = Ev()
        e.kind = kind
        e.target = e.args = e.kw = e.value = e.place = None
        for a, b in k.items():
            setattr(e, a, b)
        e.guards = s.guards
        f = self.stack[-1] if self.stack else ("?", None)
        e.fn = f[0]
        e.file = "freud/" + f[1].name.split(".")[-1] + ".py" if f[1] and f[1].name != "freud" else "freud/__init__.py"
        e.line = getattr(node, "lineno", 0)
        e.n = len(self.events)
        e.stack = tuple(x[0] for x in self.stack)
        e.loops = tuple(self.loops)
        e.caught = self.tries
        e.exc = self.exc
        self.events.append(e)
        return e

    def site(self):
        self.nsite += 1
        return self.nsite

    # ------------------------------------------------------------ entry points
    def run(self, c, name, s=None, self_t=None, args=None, params="param", owner=None):
        """Evaluate method/property `name` of class c on self; returns (state, value)."""
        o, ds = self.P.find(c, name, owner)
        if not o:
            return s, None
        node = None
        for k, n in ds:
            if k != "setter" and k != "attr":
                node, kd = n, k
                break
        if node is None:
            return s, None
        s = s or State()
        a = node.args
        vals = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        first = None
        if kd != "staticmethod" and pos:
            first = pos.pop(0)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            vals[p] = (args or {}).get(p) or mk("param", p)
        if a.vararg:
            vals[a.vararg.arg] = mk("param", "*" + a.vararg.arg)
        if a.kwarg:
            vals[a.kwarg.arg] = mk("param", "**" + a.kwarg.arg)
        if first:
            vals[first] = self_t or (mk("self", c) if kd != "classmethod" else mk("cls", c))
        return self.body(node, o.mod, "%s.%s" % (c.q, name), vals, s, cls=o, dyn=c)

    def setter(self, c, name, s, self_t, value):
        o, ds = self.P.find(c, name)
        for k, n in ds or ():
            if k == "setter":
                ps = [x.arg for x in n.args.args]
                return self.body(n, o.mod, "%s.%s.setter" % (c.q, name), {ps[0]: self_t, ps[1]: value}, s, cls=o, dyn=c)[0]
        return None

    def runfunc(self, mod, node, name, s=None, args=None):
        s = s or State()
        vals = {p.arg: (args or {}).get(p.arg) or mk("param", p.arg) for p in node.args.args + node.args.kwonlyargs}
        return self.body(node, mod, name, vals, s)

    def body(self, node, mod, name, vals, s, cls=None, dyn=None):
        """Run a function body; merges all returns."""
        outer = s.loc
        base = len(s.guards)
        s = s.copy()
        s.loc = dict(vals)
        self.stack.append((name, mod, cls, dyn))
        self.visited.add(name)
        self.depth += 1
        sv = (getattr(self, "rets", None), self.loops)
        self.rets = []
        self.gnames = getattr(self, "gnames", [])
        self.gnames.append({y for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names})
        try:
            r = self.block(node.body, s)
            if r is not None:
                self.rets.append(Ret(r, NONE))
            rets = self.rets
        finally:
            self.rets = sv[0]
            self.depth -= 1
            self.stack.pop()
            self.gnames.pop()
        if not rets:
            return None, NONE
        out = rets[-1].st
        v = rets[-1].v
        for r in reversed(rets[:-1]):
            out, c = self.merge(r.st, out, base)
            v = ite(c, r.v, v)
        out.loc = outer
        return out, v

    # ------------------------------------------------------------ merging
    def merge(self, a, b, base=0):
        """Join two states; returns (state, condition under which a was taken)."""
        if a is None:
            return b, lit(False)
        if b is None:
            return a, lit(True)
        n = 0
        while n < len(a.guards) and n < len(b.guards) and a.guards[n] == b.guards[n]:
            n += 1
        ga, gb = a.guards[n:], b.guards[n:]
        # choose the condition that tells the two apart
        c = None
        for g in ga:
            if neg(g) in gb:
                c = g[0] if g[1] else mkop("not", g[0])
                break
        if c is None:
            c = conj(ga) if ga else mkop("not", conj(gb)) if gb else mk("amb", self.site())
        s = State()
        for k in set(a.loc) | set(b.loc):
            x, y = a.loc.get(k), b.loc.get(k)
            if x is None or y is None:
                # bound on one path only
                s.loc[k] = x or y
            else:
                s.loc[k] = ite(c, x, y)
        for k in set(a.heap) | set(b.heap):
            x = a.heap.get(k) or mk("attr", k[0], k[1])
            y = b.heap.get(k) or mk("attr", k[0], k[1])
            s.heap[k] = ite(c, x, y)
        com = tuple(g for g in ga if g in gb)
        # facts that hold on both paths in different forms: keep implications
        extra = ()
        ra = tuple(g for g in ga if g not in gb)
        rb = tuple(g for g in gb if g not in ga)
        cg = decompose(c, True)
        ra2 = [g for g in ra if g not in cg]
        rb2 = [g for g in rb if neg(g) not in cg and not (len(cg) == 1 and g == neg(cg[0]))]
        if ra2:
            extra += tuple((mk("imp", c, g[0] if g[1] else mkop("not", g[0])), True) for g in ra2)
        if rb2:
            nc = mkop("not", c)
            extra += tuple((mk("imp", nc, g[0] if g[1] else mkop("not", g[0])), True) for g in rb2)
        s.guards = a.guards[:n] + com + extra
        return s, c

    def cond(self, s, t, pol):
        """State under the assumption t == pol, or None if impossible."""
        tr = truth(t)
        if tr is not None:
            return s.copy() if tr == pol else None
        n = s.copy()
        known = set(s.guards)
        for g in decompose(t, pol):
            if neg(g) in known:
                return None
            if g in known:
                continue
            n.guards += (g,)
            for k, v in n.loc.items():
                n.loc[k] = assume(v, g[0], g[1])
            for k, v in n.heap.items():
                n.heap[k] = assume(v, g[0], g[1])
            for k, v in n.loc.items():   # x is None
                if g[1] and g[0].op == "op" and g[0].a[0] == "is" and NONE in g[0].a and v in g[0].a:
                    n.loc[k] = NONE
        # an "or" that became unit
        for g in s.guards:
            pass
        return n

    def known(self, s, t):
        tr = truth(t)
        if tr is not None:
            return tr
        if (t, True) in s.guards:
            return True
        if (t, False) in s.guards:
            return False
        if t.op == "op" and t.a[0] == "not":
            r = self.known(s, t.a[1])
            return None if r is None else not r
        if t.op == "op" and t.a[0] == "is" and NONE in t.a:
            pass
        return None

    # ------------------------------------------------------------ statements
    def block(self, body, s):
        for n in body:
            if s is None:
                return None
            s = self.stmt(n, s)
        return s

    def stmt(self, n, s):
        k = type(n).__name__
        m = getattr(self, "st_" + k, None)
        if m:
            return m(n, s)
        self.unk.add(k)
        return s

    def st_Expr(self, n, s):
        self.expr(n.value, s)
        return self.alive(s)

    def alive(self, s):
        return None if getattr(s, "dead", False) else s

    def st_Pass(self, n, s):
        return s

    st_Global = st_Nonlocal = st_Import = st_Pass

    def st_ImportFrom(self, n, s):
        for a in n.names:
            s.loc[a.asname or a.name] = mk("ext", (n.module or "") + "." + a.name)
        return s

    def st_Return(self, n, s):
        v = self.expr(n.value, s) if n.value is not None else NONE
        if getattr(s, "dead", False):
            return None
        if self.depth == 1:
            self.ev("return", s, n, value=v)
        self.rets.append(Ret(s, v))
        return None

    def st_Raise(self, n, s):
        v = self.expr(n.exc, s) if n.exc is not None else mk("reraise")
        self.ev("raise", s, n, value=v)
        return None

    def st_Assert(self, n, s):
        t = self.expr(n.test, s)
        f = self.cond(s, t, False)
        if f is not None:
            self.ev("raise", f, n, value=mk("ext", "AssertionError"))
        return self.cond(s, t, True)

    def st_Assign(self, n, s):
        v = self.expr(n.value, s)
        if getattr(s, "dead", False):
            return None
        for t in n.targets:
            self.assign(t, v, s, n)
        return s

    def st_AnnAssign(self, n, s):
        if n.value is not None:
            self.assign(n.target, self.expr(n.value, s), s, n)
        return s

    def st_AugAssign(self, n, s):
        op = self.OPS.get(type(n.op).__name__, type(n.op).__name__)
        t = n.target
        old = self.expr(self.load(t), s)
        v = self.expr(n.value, s)
        self.ev("aug", s, n, target=old, value=v, place=op, args=(), kw=())
        nv = mkop(op, old, v)
        if isinstance(t, ast.Subscript):
            b = self.expr(t.value, s)
            i = self.expr(t.slice, s)
            self.ev("setitem", s, n, target=b, args=(i,), value=nv, kw=())
            self.replace(s, b, mk("upd", b, "[]", (i,), nv))
            return s
        if not islit(old):
            # arrays are changed in place: every alias sees it
            self.replace(s, old, nv)
        self.assign(t, nv, s, n)
        return s

    def load(self, t):
        import copy
        t = copy.deepcopy(t)
        for x in ast.walk(t):
            if hasattr(x, "ctx"):
                x.ctx = ast.Load()
        return t

    def st_Delete(self, n, s):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value, s)
                self.ev("mut", s, n, target=b, place="del", args=(), kw=())
                self.replace(s, b, mk("upd", b, "del", (self.expr(t.slice, s),), NONE))
            elif isinstance(t, ast.Attribute):
                b = self.expr(t.value, s)
                self.ev("setattr", s, n, target=b, place=t.attr, value=mk("deleted"), args=(), kw=())
        return s

    def st_If(self, n, s):
        t = self.expr(n.test, s)
        if getattr(s, "dead", False):
            return None
        a = self.cond(s, t, True)
        b = self.cond(s, t, False)
        ra = self.block(n.body, a) if a is not None else None
        rb = self.block(n.orelse, b) if b is not None else None
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge(ra, rb)[0]

    def assigned(self, body):
        out = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
        return out

    def unroll(self, it):
        xs = items(it)
        if xs is not None:
            return list(xs)
        if it.op == "call" and it.a[0].op == "bi":
            f, a = it.a[0].a[0], it.a[1]
            if f == "enumerate" and len(a) == 1:
                ys = self.unroll(a[0])
                if ys is not None:
                    return [mk("tuple", (lit(i), y)) for i, y in enumerate(ys)]
            if f == "zip":
                ys = [self.unroll(x) for x in a]
                if all(y is not None for y in ys):
                    return [mk("tuple", t) for t in zip(*ys)]
            if f == "range" and all(islit(x) for x in a) and len(a) <= 2:
                r = range(*[int(x.a[0]) for x in a])
                if len(r) <= 8:
                    return [lit(i) for i in r]
            if f in ("list", "tuple", "iter") and len(a) == 1:
                return self.unroll(a[0])
        if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[0].op == "dict" and not any(k is None for k, _ in it.a[0].a[0].a[-1]):
            d = it.a[0].a[0].a[-1]
            m = it.a[0].a[1]
            if m == "items":
                return [mk("tuple", (k, v)) for k, v in d]
            if m == "keys":
                return [k for k, v in d]
            if m == "values":
                return [v for k, v in d]
        return None

    def st_For(self, n, s):
        it = self.expr(n.iter, s)
        if getattr(s, "dead", False):
            return None
        xs = self.unroll(it)
        if xs is not None and len(xs) <= 12 and not any(isinstance(x, (ast.Break, ast.Continue)) for b in n.body for x in ast.walk(b)):
            for x in xs:
                self.assign(n.target, x, s, n)
                s = self.block(n.body, s)
                if s is None:
                    return None
            return self.block(n.orelse, s) if n.orelse else s
        return self.loop(n, s, it)

    def st_While(self, n, s):
        return self.loop(n, s, None)

    def loop(self, n, s, it):
        L = "L%d" % self.site()
        pre = s.copy()
        vs = self.assigned(n.body)
        if it is not None:
            vs |= self.assigned([ast.Assign(targets=[n.target], value=ast.Constant(0))])
        # probe the heap fields written in the loop
        heapw = set()
        for x in [y for b in n.body for y in ast.walk(b)]:
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                heapw.add(x.attr)
        b = s.copy()
        for v in vs:
            if v in b.loc:
                b.loc[v] = mk("hv", L, v, b.loc[v])
        for k in list(b.heap):
            if k[1] in heapw:
                b.heap[k] = mk("hv", L, k[1], b.heap[k])
        nb = len(b.guards)
        if it is not None:
            el = mk("elt", L, it)
            if it.op == "call" and it.a[0].op == "bi" and it.a[0].a[0] == "enumerate" and it.a[1]:
                el = mk("tuple", (mk("idx", L), mk("elt", L, it.a[1][0])))
            elif it.op == "call" and it.a[0].op == "bi" and it.a[0].a[0] == "zip":
                el = mk("tuple", tuple(mk("elt", L, x) for x in it.a[1]))
            self.assign(n.target, el, b, n)
        else:
            t = self.expr(n.test, b)
            b2 = self.cond(b, t, True)
            if b2 is None:
                return s
            b = b2
        self.loops.append((L, it))
        sv = getattr(self, "lexits", None)
        self.lexits = []
        e = self.block(n.body, b)
        self.loops.pop()
        exits = self.lexits
        self.lexits = sv
        out = pre.copy()
        for st in [e] + exits:
            if st is None:
                continue
            for k, v in st.loc.items():
                o = pre.loc.get(k)
                if o is not v:
                    out.loc[k] = mk("ho", L, k, v) if o is None else mk("ho", L, k, o, v)
            for k, v in st.heap.items():
                o = pre.heap.get(k)
                if o is not v:
                    out.heap[k] = mk("ho", L, k[1], o or mk("attr", k[0], k[1]), v)
        if e is not None and not exits:
            # conditions that survive the body hold for every iteration
            out.guards = pre.guards + tuple(g for g in e.guards[nb:] if self.forall(g, L))
        if n.orelse:
            return self.block(n.orelse, out)
        return out

    def forall(self, g, L):
        return any(x.op in ("elt", "idx") and x.a[0] == L for x in walk(g[0]))

    def st_Break(self, n, s):
        self.lexits.append(s)
        return None

    st_Continue = st_Break

    def st_With(self, n, s):
        for i in n.items:
            v = self.expr(i.context_expr, s)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, mk("call", mk("attr", v, "__enter__"), (), ()), s, n)
        return self.block(n.body, s)

    def st_Try(self, n, s):
        pre = s.copy()
        self.tries += 1 if n.handlers else 0
        n0 = len(self.events)
        r = self.block(n.body, s)
        self.tries -= 1 if n.handlers else 0
        n1 = len(self.events)
        site = self.site()
        tried = tuple(self.trial) if getattr(self, "trial", None) else ()
        outs = []
        exprs = []
        for x in n.body:
            exprs.append(ast.unparse(x))
        if r is not None and n.orelse:
            r = self.block(n.orelse, r)
        for h in n.handlers:
            hs = pre.copy()
            # the handler starts anywhere in the body: variables it assigns are uncertain
            for v in self.assigned(n.body):
                if v in hs.loc and r is not None and r.loc.get(v) is not hs.loc[v]:
                    hs.loc[v] = mk("amb", site, v, hs.loc[v], r.loc.get(v) or hs.loc[v])
            if r is not None:
                for k, v in r.heap.items():
                    o = pre.heap.get(k) or mk("attr", k[0], k[1])
                    if o is not v:
                        hs.heap[k] = mk("amb", site, k[1], o, v)
            ty = ast.unparse(h.type) if h.type is not None else "BaseException"
            vals = tuple(v for v in (r.loc.get(a) for a in sorted(self.assigned(n.body))) if v is not None) if r is not None else ()
            hs.guards = hs.guards + ((mk("exc", site, ty, vals), True),)
            if h.name:
                hs.loc[h.name] = mk("excval", site, ty)
            self.exc += 1
            o = self.block(h.body, hs)
            self.exc -= 1
            if o is not None:
                outs.append(o)
        if r is not None:
            for h in n.handlers:
                ty = ast.unparse(h.type) if h.type is not None else "BaseException"
                vals = tuple(v for v in (r.loc.get(a) for a in sorted(self.assigned(n.body))) if v is not None)
                r.guards = r.guards + ((mk("exc", site, ty, vals), False),)
        out = r
        for o in outs:
            out = self.merge(o, out)[0] if out is not None else o
        if n.finalbody:
            self.exc += 1
            if out is None:
                self.block(n.finalbody, pre.copy())
            else:
                out = self.block(n.finalbody, out)
            self.exc -= 1
        return out

    def st_FunctionDef(self, n, s):
        s.loc[n.name] = mk("lam", n.name, n.lineno, n.col_offset)
        self.lams = getattr(self, "lams", {})
        self.lams[s.loc[n.name]] = (n, self.stack[-1], dict(s.loc))
        return s

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, s, n):
        if isinstance(t, ast.Name):
            s.loc[t.id] = v
            if t.id in self.globals_of(n):
                self.ev("global", s, n, place=t.id, value=v, target=mk("mod", self.stack[-1][1].name), args=(), kw=())
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = items(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if v.op == "ite" and not star:
                # unpack both alternatives
                xa, xb = items(v.a[1]), items(v.a[2])
                if xa is not None and xb is not None and len(xa) == len(xb) == len(t.elts):
                    for e, p, q in zip(t.elts, xa, xb):
                        self.assign(e, ite(v.a[0], p, q), s, n)
                    return
            if xs is not None and not star and len(xs) == len(t.elts):
                for e, x in zip(t.elts, xs):
                    self.assign(e, x, s, n)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, mk("sub", v, mk("slice", lit(i), NONE, NONE)), s, n)
                    else:
                        self.assign(e, self.getitem(v, lit(i) if not star or i < star[0] else lit(i - len(t.elts)), s), s, n)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, s)
            self.setattr(b, t.attr, v, s, n)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, s)
            i = self.expr(t.slice, s)
            self.ev("setitem", s, n, target=b, args=(i,), value=v, kw=())
            self.replace(s, b, mk("upd", b, "[]", (i,), v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s, n)

    def globals_of(self, n):
        return self.gnames[-1] if getattr(self, "gnames", None) else ()

    def replace(self, s, old, new):
        """An object was changed in place: update every variable that holds it."""
        if old.op in ("lit", "null", "cls", "fn", "mod"):
            return
        for k, v in list(s.loc.items()):
            if v is old:
                s.loc[k] = new
        for k, v in list(s.heap.items()):
            if v is old:
                s.heap[k] = new

    def clsof(self, b):
        if b.op == "self":
            return b.a[0]
        if b.op == "new":
            return b.a[0]
        if b.op == "opq" and len(b.a) > 1 and isinstance(b.a[1], Cls):
            return b.a[1]
        return None

    def setattr(self, b, name, v, s, n):
        c = self.clsof(b)
        if c is not None and self.depth < self.MAXDEPTH:
            o, ds = self.P.find(c, name)
            if o and any(k == "setter" for k, _ in ds):
                r = self.setter(c, name, s, b, v)
                self.absorb(s, r)
                return
        self.ev("setattr", s, n, target=b, place=name, value=v, args=(), kw=())
        s.heap[(b, name)] = v

    def absorb(self, s, r):
        if r is None:
            s.dead = True
            return
        s.heap = r.heap
        s.guards = r.guards

    # ------------------------------------------------------------ expressions
    def expr(self, n, s):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.unk.add(type(n).__name__)
            return mk("opaque", ast.unparse(n))
        return m(n, s)

    def ex_Constant(self, n, s):
        return NONE if n.value is None else (lit(n.value) if n.value is not Ellipsis else mk("ellipsis"))

    def ex_Name(self, n, s):
        if n.id in s.loc:
            return s.loc[n.id]
        if self.stack:
            _, mod, cls, dyn = self.stack[-1]
            return self.glob(mod, n.id)
        return mk("bi", n.id)

    def glob(self, mod, name):
        r = self.P.lookup(mod, name)
        if r is None:
            return mk("bi", name)
        return self.modval(r, name)

    def modval(self, r, name=""):
        if isinstance(r, Cls):
            return mk("cls", r)
        if r[0] == "func":
            return mk("fn", r[1], r[2].name)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            if r[1].startswith("freud._"):
                return mk("native", r[1])
            return mk("ext", r[1])
        if r[0] == "val":
            e = r[2]
            if isinstance(e, ast.Constant):
                return mk("glob", r[1], name) if not isinstance(e.value, (str, int, float, bool)) or name.startswith("_num") else self.ex_Constant(e, None)
            return mk("glob", r[1], name)
        return mk("bi", name)

    def ex_Attribute(self, n, s):
        b = self.expr(n.value, s)
        return self.getattr(b, n.attr, s, n)

    def getattr(self, b, a, s, n=None):
        if b.op == "mod":
            m = b.a[0]
            mod = self.P.mods.get(m)
            if mod is not None:
                r = self.P.lookup(mod, a)
                if r is not None:
                    return self.modval(r, a)
                if m + "." + a in self.P.mods:
                    return mk("mod", m + "." + a)
            if m == "freud" and a.startswith("_"):
                return mk("native", "freud." + a)
            return mk("ext", m + "." + a)
        if b.op == "ext":
            return mk("ext", b.a[0] + "." + a)
        if b.op == "native":
            return mk("native", b.a[0] + "." + a)
        if b.op == "ite":
            return ite(b.a[0], self.getattr(b.a[1], a, s, n), self.getattr(b.a[2], a, s, n))
        if (b, a) in s.heap:
            return s.heap[(b, a)]
        c = self.clsof(b)
        if c is None and b.op == "cls":
            o, ds = self.P.find(b.a[0], a)
            if o:
                k, d = ds[0]
                if k == "attr":
                    return self.clsattr(o, a, d, s)
                if k in ("classmethod",):
                    return mk("bm", o, a, b)
                return mk("um", o, a)
            if a in ("__name__", "__module__"):
                return mk("attr", b, a)
            return mk("attr", b, a)
        if b.op == "super":
            o, ds = self.P.find(b.a[0], a, b.a[1])
            if o:
                k, d = ds[0]
                if k in ("property", "computed"):
                    return self.prop(o, d, b.a[2], s, k, b.a[0])
                return mk("bm", o, a, b.a[2])
            return mk("attr", b, a)
        if c is not None:
            if a == "__class__":
                return mk("cls", c) if b.op == "new" else mk("call", mk("bi", "type"), (b,), ())
            o, ds = self.P.find(c, a)
            if o:
                k, d = next(((k, d) for k, d in ds if k != "setter"), ds[0])
                if k in ("property", "computed"):
                    if self.depth >= self.MAXDEPTH or "%s.%s" % (o.q, a) in self.opaque:
                        return mk("attr", b, a)
                    return self.prop(o, d, b, s, k, c)
                if k == "attr":
                    return self.clsattr(o, a, d, s)
                return mk("bm", o, a, b)
        t = mk("attr", b, a)
        if b.op == "nat" or (b.op == "attr" and b.a[1] == "_cpp_obj"):
            cls = b.a[0] if b.op == "nat" else None
            if cls is None:
                k = self.clsof(b.a[0])
                cls = self.natclass.get(k.q) if k is not None else None
            self.ev("nget", s, n, target="%s.%s" % (cls or "?", a), args=(), kw=(), value=t, place=b)
        return t

    def clsattr(self, o, a, d, s):
        self.stack.append((o.q + "." + a, o.mod, o, o))
        try:
            return shared(self.expr(d, State()), "clsattr:%s.%s" % (o.q, a))
        finally:
            self.stack.pop()

    def prop(self, o, d, b, s, k, dyn):
        if k == "computed":
            self.ev("computed", s, d, target=b, place=d.name, args=(), kw=())
        r, v = self.body(d, o.mod, "%s.%s" % (o.q, d.name), {d.args.args[0].arg: b}, s, cls=o, dyn=dyn)
        self.absorb(s, r)
        return v

    def ex_Subscript(self, n, s):
        return self.getitem(self.expr(n.value, s), self.expr(n.slice, s), s)

    def getitem(self, b, i, s):
        if i.op == "lit" and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
            if b.op in ("list", "tuple"):
                xs = items(b)
                if xs is not None and -len(xs) <= i.a[0] < len(xs):
                    return xs[i.a[0]]
            if b.op == "ite":
                return ite(b.a[0], self.getitem(b.a[1], i, s), self.getitem(b.a[2], i, s))
        if b.op == "dict" and i.op == "lit":
            for k, v in b.a[-1]:
                if k is i:
                    return v
        if b.op == "upd" and b.a[1] == "[]" and b.a[2] == (i,) and islit(i):
            return b.a[3]
        c = self.clsof(b)
        if c is not None:
            o, ds = self.P.find(c, "__getitem__")
            if o and self.depth < self.MAXDEPTH:
                d = ds[0][1]
                r, v = self.body(d, o.mod, o.q + ".__getitem__", {d.args.args[0].arg: b, d.args.args[1].arg: i}, s, cls=o, dyn=c)
                self.absorb(s, r)
                return v
        return mk("sub", b, i)

    def ex_Slice(self, n, s):
        f = lambda x: self.expr(x, s) if x is not None else NONE
        return mk("slice", f(n.lower), f(n.upper), f(n.step))

    def ex_Tuple(self, n, s):
        return mk("tuple", self.elts(n, s))

    def ex_List(self, n, s):
        return mk("list", self.site(), self.elts(n, s))

    def ex_Set(self, n, s):
        return mk("set", self.elts(n, s))

    def elts(self, n, s):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, s)
                ys = self.unroll(v)
                if ys is not None:
                    out.extend(ys)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.expr(x, s))
        return tuple(out)

    def ex_Dict(self, n, s):
        out = []
        for k, v in zip(n.keys, n.values):
            vv = self.expr(v, s)
            if k is None:
                if vv.op == "dict":
                    out.extend(vv.a[-1])
                else:
                    out.append((None, vv))
            else:
                out.append((self.expr(k, s), vv))
        if len(out) == 1 and out[0][0] is None:
            return mk("copyof", out[0][1], self.site())
        return mk("dict", self.site(), tuple(out))

    OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "MatMult": "@",
           "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>", "USub": "-", "UAdd": "+", "Not": "not", "Invert": "~",
           "Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}

    def ex_BinOp(self, n, s):
        a = self.expr(n.left, s)
        b = self.expr(n.right, s)
        op = self.OPS[type(n.op).__name__]
        c = self.clsof(a)
        if c is not None and op == "*" and self.depth < self.MAXDEPTH:
            o, ds = self.P.find(c, "__mul__")
            if o:
                d = ds[0][1]
                r, v = self.body(d, o.mod, o.q + ".__mul__", {d.args.args[0].arg: a, d.args.args[1].arg: b}, s, cls=o, dyn=c)
                self.absorb(s, r)
                return v
        return mkop(op, a, b)

    def ex_UnaryOp(self, n, s):
        return mkop(self.OPS[type(n.op).__name__], self.expr(n.operand, s))

    def ex_BoolOp(self, n, s):
        o = "and" if isinstance(n.op, ast.And) else "or"
        vs = []
        cur = s
        for i, x in enumerate(n.values):
            v = self.expr(x, cur)
            vs.append(v)
            if i == 0 and cur is s:
                cur = s.copy()
            nc = self.cond(cur, v, o == "and")
            if nc is None:
                break
            cur = nc
        return mkop(o, *vs)

    def ex_Compare(self, n, s):
        l = self.expr(n.left, s)
        out = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.expr(r, s)
            out.append(mkop(self.OPS[type(op).__name__], l, rv))
            l = rv
        return out[0] if len(out) == 1 else mkop("and", *out)

    def ex_IfExp(self, n, s):
        t = self.expr(n.test, s)
        k = self.known(s, t)
        if k is not None:
            return self.expr(n.body if k else n.orelse, s)
        a, b = self.cond(s, t, True), self.cond(s, t, False)
        va = self.expr(n.body, a) if a is not None else None
        vb = self.expr(n.orelse, b) if b is not None else None
        if va is None:
            return vb
        if vb is None:
            return va
        return ite(t, va, vb)

    def ex_JoinedStr(self, n, s):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(lit(v.value))
            else:
                x = self.expr(v.value, s)
                if v.conversion == 114:
                    x = mk("call", mk("bi", "repr"), (x,), ())
                parts.append(x)
        return mk("fstr", tuple(parts))

    def ex_NamedExpr(self, n, s):
        v = self.expr(n.value, s)
        s.loc[n.target.id] = v
        return v

    def ex_Starred(self, n, s):
        return mk("star", self.expr(n.value, s))

    def ex_Lambda(self, n, s):
        t = mk("lam", "<lambda>", n.lineno, n.col_offset)
        self.lams = getattr(self, "lams", {})
        self.lams[t] = (n, self.stack[-1], dict(s.loc))
        return t

    def ex_Yield(self, n, s):
        v = self.expr(n.value, s) if n.value is not None else NONE
        self.ev("yield", s, n, value=v)
        return mk("opaque", "yield")

    def comp(self, n, s, elts, tag):
        s2 = s.copy()
        if len(n.generators) == 1:
            g = n.generators[0]
            it = self.expr(g.iter, s2)
            xs = self.unroll(it)
            if xs is not None and len(xs) <= 12 and not g.ifs:
                out = []
                for x in xs:
                    self.assign(g.target, x, s2, n)
                    out.append(tuple(self.expr(e, s2) for e in elts))
                return out
        s3 = s.copy()
        its = []
        for g in n.generators:
            it = self.expr(g.iter, s3)
            L = "C%d_%d" % (n.lineno, n.col_offset)
            its.append(it)
            el = mk("elt", L, it)
            if it.op == "call" and it.a[0].op == "bi" and it.a[0].a[0] == "enumerate":
                el = mk("tuple", (mk("idx", L), mk("elt", L, it.a[1][0])))
            elif it.op == "call" and it.a[0].op == "bi" and it.a[0].a[0] == "zip":
                el = mk("tuple", tuple(mk("elt", L, x) for x in it.a[1]))
            self.assign(g.target, el, s3, n)
            for c in g.ifs:
                t = self.expr(c, s3)
                nx = self.cond(s3, t, True)
                if nx is None:
                    return []
                s3 = nx
        return mk("comp", tag, tuple(self.expr(e, s3) for e in elts), tuple(its))

    def ex_ListComp(self, n, s):
        r = self.comp(n, s, [n.elt], "list")
        return r if isinstance(r, T) else mk("list", self.site(), tuple(x[0] for x in r))

    def ex_GeneratorExp(self, n, s):
        r = self.comp(n, s, [n.elt], "list")
        return r if isinstance(r, T) else mk("list", self.site(), tuple(x[0] for x in r))

    def ex_SetComp(self, n, s):
        r = self.comp(n, s, [n.elt], "set")
        return r if isinstance(r, T) else mk("set", tuple(x[0] for x in r))

    def ex_DictComp(self, n, s):
        r = self.comp(n, s, [n.key, n.value], "dict")
        return r if isinstance(r, T) else mk("dict", self.site(), tuple((a, b) for a, b in r))

    # ------------------------------------------------------------ calls
    MUT = {"append", "extend", "insert", "pop", "clear", "update", "setdefault", "sort", "fill", "remove", "popitem", "reverse", "add",
           "resize", "put", "itemset", "partition", "setflags", "byteswap", "discard", "__setitem__"}

    def ex_Call(self, n, s):
        f = self.expr(n.func, s)
        args, kw = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, s)
                ys = self.unroll(v)
                if ys is not None:
                    args.extend(ys)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.expr(a, s))
        for k in n.keywords:
            v = self.expr(k.value, s)
            if k.arg is None:
                if v.op == "dict" and all(kk is not None and islit(kk) for kk, _ in v.a[-1]):
                    kw.extend((kk.a[0], vv) for kk, vv in v.a[-1])
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        return self.call(f, args, kw, s, n)

    def bind(self, node, args, kw, skip, s, mod):
        """Parameter values of a call; skip = already bound first value or None."""
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        dv = {}
        defs = a.defaults
        for p, d in zip(pos[len(pos) - len(defs):], defs):
            dv[p] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dv[p.arg] = d
        names = list(pos)
        if skip is not None and names:
            vals[names.pop(0)] = skip
        rest = []
        starred = None
        for i, x in enumerate(args):
            if x.op == "star":
                starred = x.a[0]
                st_i = 0
                continue
            if starred is not None:
                rest.append(x)
            elif names:
                vals[names.pop(0)] = x
            else:
                rest.append(x)
        if starred is not None:
            for j, p in enumerate(list(names)):
                if p not in dict(kw):
                    vals[p] = self.getitem(starred, lit(j), s) if p not in dv or True else None
            names = []
        extra = []
        mapping = None
        for k, v in kw:
            if k == "**":
                mapping = v
            elif k in pos or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            else:
                extra.append((lit(k), v))
        if a.vararg:
            vals[a.vararg.arg] = mk("tuple", tuple(rest))
        allp = pos + [x.arg for x in a.kwonlyargs]
        for p in allp:
            if p in vals:
                continue
            d = None
            if p in dv:
                self.stack.append(("default", mod, None, None))
                try:
                    d = shared(self.expr(dv[p], State()), "default:%s.%s" % (node.name, p))
                finally:
                    self.stack.pop()
            if mapping is not None:
                vals[p] = self.key(mapping, p, d)
            else:
                vals[p] = d if d is not None else mk("missing", p)
        if a.kwarg:
            if mapping is not None:
                vals[a.kwarg.arg] = mk("restkeys", mapping, tuple(sorted(set(allp))))
            else:
                vals[a.kwarg.arg] = mk("dict", self.site(), tuple(extra))
        return vals

    def key(self, m, k, d):
        """Value of key k in mapping m (default d)."""
        if m.op == "dict":
            for n, (kk, v) in reversed(list(enumerate(m.a[-1]))):
                if kk is not None and islit(kk) and kk.a[0] == k:
                    return v
                if kk is None:      # **v: its key, or what was written before it
                    return self.key(v, k, self.key(mk("dict", m.a[0], m.a[-1][:n]), k, d) if n else d)
            if all(kk is not None for kk, _ in m.a[-1]):
                return d if d is not None else mk("missing", k)
        if m.op == "upd":
            b, meth, a, _ = m.a
            if meth == "setdefault" and islit(a[0]):
                if a[0].a[0] == k:
                    r = self.key(b, k, a[1] if len(a) > 1 else NONE)
                    return r
                return self.key(b, k, d)
            if meth == "[]" and islit(a[0]):
                return m.a[3] if a[0].a[0] == k else self.key(b, k, d)
            if meth == "update" and a and a[0].op == "dict":
                return self.key(a[0], k, self.key(b, k, d))
        if m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] == "copy":
            return self.key(m.a[0].a[0], k, d)
        if m.op == "call" and m.a[0].op == "bi" and m.a[0].a[0] == "dict" and len(m.a[1]) == 1:
            for kk, v in m.a[2]:
                if kk == k:
                    return v
            return self.key(m.a[1][0], k, d)
        if m.op == "copyof":
            return self.key(m.a[0], k, d)
        if m.op == "ite":
            return ite(m.a[0], self.key(m.a[1], k, d), self.key(m.a[2], k, d))
        return mk("key", m, k, d if d is not None else mk("missing", k))

    def call(self, f, args, kw, s, n):
        if getattr(s, "dead", False):
            return mk("dead")
        o = f.op
        if o == "bi":
            r = self.builtin(f.a[0], args, kw, s, n)
            if r is not None:
                return r
        if o == "ite":
            a, b = self.cond(s, f.a[0], True), self.cond(s, f.a[0], False)
            va = self.call(f.a[1], args, kw, a, n) if a else None
            vb = self.call(f.a[2], args, kw, b, n) if b else None
            if va is None or vb is None:
                return va or vb
            return ite(f.a[0], va, vb)
        if o == "fn" or o == "um" or o == "bm":
            owner = f.a[0]
            name = f.a[1]
            if o == "fn":
                mod, node, cls, dyn, q, first = f.a[0], f.a[0].funcs[name], None, None, "%s.%s" % (f.a[0].name, name), None
            else:
                _, ds = self.P.find(owner, name)
                k0, node = next(((k, d) for k, d in ds if k not in ("setter", "attr")), (None, None))
                mod, cls, q = owner.mod, owner, "%s.%s" % (owner.q, name)
                first = f.a[2] if o == "bm" and k0 != "staticmethod" else None
                dyn = self.clsof(first) if first is not None else None
                if first is not None and first.op == "cls":
                    dyn = first.a[0]
            if q in self.opaque or node is None:
                self.ev("call", s, n, target=mk("opq", q), args=tuple(([first] if first is not None else []) + args), kw=tuple(kw))
                return mk("call", mk("opq", q), tuple(([first] if first is not None else []) + args), tuple(kw))
            if any(x[0].endswith(q) and x[1] is mod for x in self.stack) or self.depth >= self.MAXDEPTH:
                return mk("call", mk("opq", q), tuple(args), tuple(kw))
            vals = self.bind(node, args, kw, first, s, mod)
            r, v = self.body(node, mod, q, vals, s, cls=cls, dyn=dyn)
            self.absorb(s, r)
            return v
        if o == "lam":
            node, st, env = self.lams[f]
            if self.depth < self.MAXDEPTH:
                vals = dict(env)
                vals.update(self.bind(node, args, kw, None, s, st[1]))
                if isinstance(node, ast.Lambda):
                    s2 = s.copy()
                    s2.loc = vals
                    return self.expr(node.body, s2)
                r, v = self.body(node, st[1], st[0] + "." + f.a[0], vals, s, cls=st[2], dyn=st[3])
                self.absorb(s, r)
                return v
        if o == "cls":
            c = f.a[0]
            if self.isexc(c):
                return mk("call", f, tuple(args), tuple(kw))
            if c.q in self.opaque:
                t = mk("opq", c.q, c, tuple(args), tuple(kw))
                self.ev("call", s, n, target=mk("opq", c.q), args=tuple(args), kw=tuple(kw))
                return t
            t = mk("new", c, self.site())
            ow, ds = self.P.find(c, "__init__")
            if ow and self.depth < self.MAXDEPTH:
                node = ds[0][1]
                vals = self.bind(node, args, kw, t, s, ow.mod)
                r, v = self.body(node, ow.mod, c.q + ".__init__", vals, s, cls=ow, dyn=c)
                self.absorb(s, r)
            self.ev("new", s, n, target=t, args=tuple(args), kw=tuple(kw))
            return t
        if o == "native":
            t = mk("nat", f.a[0], tuple(args), tuple(kw), self.site())
            self.ev("ncall", s, n, target=f.a[0], args=tuple(args), kw=tuple(kw), value=t, place=None)
            return t
        if o == "attr":
            b, m = f.a
            if b.op == "nat":
                t = mk("call", f, tuple(args), tuple(kw))
                self.ev("ncall", s, n, target="%s.%s" % (b.a[0], m), args=tuple(args), kw=tuple(kw), value=t, place=b)
                return t
            if b.op == "attr" and b.a[1] == "_cpp_obj":
                c = self.clsof(b.a[0])
                cls = self.natclass.get(c.q) if c is not None else None
                t = mk("call", f, tuple(args), tuple(kw))
                self.ev("ncall", s, n, target="%s.%s" % (cls or "?", m), args=tuple(args), kw=tuple(kw), value=t, place=b)
                return t
            if m == "setdefault" and args and islit(args[0]) and b.op == "dict":
                self.ev("mut", s, n, target=b, place=m, args=tuple(args), kw=tuple(kw))
                nb = b if any(k is args[0] for k, _ in b.a[-1]) else mk("dict", b.a[0], b.a[-1] + ((args[0], args[1] if len(args) > 1 else NONE),))
                self.replace(s, b, nb)
                return self.key(nb, args[0].a[0], NONE)
            if m == "get" and args and islit(args[0]):
                return self.key(b, args[0].a[0], args[1] if len(args) > 1 else NONE)
            if m == "pop" and args and islit(args[0]) and isinstance(args[0].a[0], str):
                self.ev("mut", s, n, target=b, place=m, args=tuple(args), kw=tuple(kw))
                v = self.key(b, args[0].a[0], args[1] if len(args) > 1 else None)
                self.replace(s, b, mk("upd", b, m, tuple(args), NONE))
                return v
            if m in self.MUT and b.op not in ("mod", "ext", "lit", "fstr"):
                self.ev("mut", s, n, target=b, place=m, args=tuple(args), kw=tuple(kw))
                self.replace(s, b, mk("upd", b, m, tuple(args), NONE))
                return mk("call", f, tuple(args), tuple(kw))
            if m == "copy" and not args:
                if b.op == "dict":
                    return mk("dict", self.site(), b.a[-1])
                return mk("copyof", b, self.site())
        t = mk("call", f, tuple(args), tuple(kw))
        self.ev("call", s, n, target=f, args=tuple(args), kw=tuple(kw), value=t)
        return t

    def isexc(self, c):
        for b in c.node.bases:
            x = ast.unparse(b)
            if x.endswith(("Error", "Warning", "Exception")):
                return True
        return any(self.isexc(b) for b in c.bases)

    def builtin(self, name, args, kw, s, n):
        if name == "super":
            for fr in reversed(self.stack):
                if fr[2] is not None and fr[3] is not None:
                    first = None
                    break
            _, mod, cls, dyn = self.stack[-1]
            if cls is not None:
                # the first parameter of the running method
                for v in s.loc.values():
                    if self.clsof(v) is dyn and v.op in ("self", "new"):
                        return mk("super", dyn, cls, v)
                return mk("super", dyn, cls, mk("self", dyn))
            return None
        if name in ("type", "isinstance") and args and args[0].op == "ite":
            x = args[0]
            r = [self.builtin(name, [y] + args[1:], kw, s, n) for y in x.a[1:]]
            r = [y if y is not None else mk("call", mk("bi", name), (z,) + tuple(args[1:]), ()) for y, z in zip(r, x.a[1:])]
            return ite(x.a[0], r[0], r[1])
        if name == "isinstance" and len(args) == 2:
            c = self.clsof(args[0])
            k = args[1]
            if c is not None and k.op == "cls":
                return lit(k.a[0] in self.P.mro(c))
            if args[0].op == "opq" and len(args[0].a) > 1:
                return None
            if c is not None and k.op in ("bi", "ext"):
                return lit(False)
            if islit(args[0]) and k.op == "bi":
                return lit(type(args[0].a[0]).__name__ == k.a[0])
            return None
        if name == "type" and len(args) == 1:
            c = self.clsof(args[0])
            if c is not None and args[0].op == "new":
                return mk("cls", c)
            if args[0].op == "dict":
                return mk("bi", "dict")
            return None
        if name == "len" and len(args) == 1:
            xs = items(args[0])
            if xs is not None:
                return lit(len(xs))
            c = self.clsof(args[0])
            if c is not None:
                o, ds = self.P.find(c, "__len__")
                if o:
                    return self.call(mk("bm", o, "__len__", args[0]), [], [], s, n)
            return None
        if name == "dict" and not args and all(k != "**" for k, _ in kw):
            return mk("dict", self.site(), tuple((lit(k), v) for k, v in kw))
        if name == "dict" and len(args) == 1 and args[0].op == "dict" and all(k != "**" for k, _ in kw):
            d = list(args[0].a[-1])
            for k, v in kw:
                d = [(a, b) for a, b in d if not (a is lit(k))] + [(lit(k), v)]
            return mk("dict", self.site(), tuple(d))
        if name == "dict" and len(args) == 1 and not kw and args[0].op == "ite":
            x = args[0]
            r = [self.builtin(name, [y], kw, s, n) for y in x.a[1:]]
            return ite(x.a[0], *[y if y is not None else mk("call", mk("bi", name), (z,), ()) for y, z in zip(r, x.a[1:])])
        if name == "dict" and len(args) == 1 and not kw and args[0].op in ("param", "copyof", "attr", "upd", "key", "opq", "dict"):
            return mk("copyof", args[0], self.site())
        if name in ("list", "tuple") and len(args) == 1:
            xs = self.unroll(args[0])
            if xs is not None:
                return mk("list", self.site(), tuple(xs)) if name == "list" else mk("tuple", tuple(xs))
            return None
        if name == "bool" and len(args) == 1:
            t = truth(args[0])
            if t is not None:
                return lit(t)
            if args[0].op == "op" and args[0].a[0] in ("not", "==", "is", "<", "<=", "in"):
                return args[0]
            return None
        if name == "getattr" and len(args) >= 2 and islit(args[1]):
            if len(args) == 2 or self.clsof(args[0]) is not None:
                return self.getattr(args[0], args[1].a[0], s, n)
            return mk("key", args[0], args[1].a[0], args[2])
        if name == "setattr" and len(args) == 3 and islit(args[1]):
            self.setattr(args[0], args[1].a[0], args[2], s, n)
            return NONE
        if name == "setattr" and len(args) == 3:
            self.ev("setattr", s, n, target=args[0], place=args[1], value=args[2], args=(), kw=())
            return NONE
        if name == "str" and len(args) == 1:
            return mk("call", mk("bi", "str"), tuple(args), ())
        return None
