"""Abstract evaluator over the extracted C++ facts.

A syntax-directed walk with an abstract store: values are interned terms, calls to functions of the
repository are followed, loops are summarised (two passes: the first finds what a loop changes, the
second walks the body once with every changed place unknown). It produces *events* - stores, element
accesses, calls, throws, allocations - each with the conditions, loops, parallel regions, locks and call
stack under which it happens. Nothing is executed and no solver is involved; constructs the walk does
not model become opaque terms, about which the rules stay silent.
"""
import re, sys
from .terms import T, mk, lit, islit, truth, NULL, UNDEF, TRUE, FALSE, root, ancestors, walk, show
from .facts import strip_targs

sys.setrecursionlimit(100000)
VALUE_FILES = ("util/VectorMath.h",)
PTR = re.compile(r"^(const )?std::(shared_ptr|unique_ptr|weak_ptr|__shared_ptr)\b")


def tclean(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith("const "):
            t = t[6:]
        if t.endswith(" const"):
            t = t[:-6]
        t = t.rstrip("& ").rstrip()
        if t == o:
            return t


def tbase(t):
    return strip_targs(tclean(t or ""))


class Ev:
    __slots__ = ("kind", "place", "value", "op", "guards", "loops", "par", "fn", "file", "line", "stack", "locks", "info", "n")

    def __repr__(self):
        return "%s %s:%s %s %s %s [%s] g=%s par=%s" % (
            self.kind, self.file, self.line, show(self.place) if self.place is not None else "", self.op,
            show(self.value) if isinstance(self.value, T) else self.value, strip_targs(self.fn or "")[-40:],
            [(("" if p else "!") + show(g, 5)) for g, p in self.guards][-4:], self.par)


class S:
    __slots__ = ("mem", "guards", "locks", "dead")

    def __init__(self, mem=None, guards=(), locks=(), dead=False):
        self.mem = {} if mem is None else mem
        self.guards = guards
        self.locks = locks
        self.dead = dead

    def copy(self):
        return S(dict(self.mem), self.guards, self.locks, self.dead)

    def assign(self, o):
        self.mem, self.guards, self.locks, self.dead = o.mem, o.guards, o.locks, o.dead


class Frame:
    __slots__ = ("fn", "env", "this", "ctx", "returns", "brk", "cont", "retref")

    def __init__(self, fn, env, this, ctx):
        self.fn, self.env, self.this, self.ctx = fn, env, this, ctx
        self.returns = []
        self.brk = []
        self.cont = []
        self.retref = (fn.get("ret") or "").rstrip().endswith("&")


class Limit(Exception):
    pass


def hasbreak(n):
    if isinstance(n, dict):
        return n.get("k") in ("break",) or any(hasbreak(x) for x in n.values())
    return isinstance(n, list) and any(hasbreak(x) for x in n)


def tupleof(t):
    """The components of a tuple or pair made in place."""
    if t.op == "call" and t.a[0] in ("tie", "make_tuple", "forward_as_tuple", "std::tie", "std::make_tuple"):
        return t.a[1:]
    if t.op == "struct" and t.a[0] == "std::pair":
        d = dict(t.a[1])
        return (d["first"], d["second"]) if set(d) == {"first", "second"} else None
    return None


class Engine:
    def __init__(self, F, inline_box=False, accesses=False, maxdepth=60, opaque=(), noinline=None):
        self.F = F
        self.events = []
        self.muted = 0
        self.recs = []
        self.kids = {}
        self.loops = {}
        self.prepass = {}
        self.ctxs = {}
        self.loopstack = ()
        self.parstack = ()
        self.stack = ()
        self.clos = {}
        self.inline_box = inline_box
        self.accesses = accesses
        self.maxdepth = maxdepth
        self.opaque = set(opaque)      # unqualified-template names never inlined
        self.noinline = noinline       # optional predicate(fnrec)
        self.visited = set()           # functions walked
        self.unknown = {}              # constructs not modelled
        self.steps = 0
        self.nodeids = {}
        self.objcls = {}               # heap object place -> class
        self.ncalls = 0
        self.sorts = []
        self.declpar = {}

    # ---- places -------------------------------------------------------------------------------
    def fld(self, b, n):
        p = mk("fld", b, n)
        self.kids.setdefault(b, {})[p] = 1
        return p

    def idx(self, b, *i):
        p = mk("idx", b, *i)
        self.kids.setdefault(b, {})[p] = 1
        return p

    def deref(self, v):
        if v.op == "ptr":
            return v.a[0]
        if v.op == "op" and v.a[0] == "+" and len(v.a) == 3:
            b = self.deref(v.a[1])
            return self.idx(b, v.a[2])
        if v.op == "lv":
            lo = (self.lvs or {}).get(v, (None,))[0]
            if lo is not None and lo.op == "ptr" and lo.a[0].op == "idx":
                return self.idx(lo.a[0].a[0], v)
            if lo is not None and lo.op in ("call", "param", "ld", "get"):
                return self.idx(mk("deref", lo), v)
        return mk("deref", v)

    def index(self, v, i):
        """Place of v[i] for a pointer value v."""
        if v.op == "ptr":
            p = v.a[0]
            if p.op == "idx" and len(p.a) == 2:
                return self.idx(p.a[0], self.add(p.a[1], i))
            return self.idx(p, i)
        if v.op == "op" and v.a[0] == "+" and len(v.a) == 3:
            return self.idx(self.deref(v.a[1]), self.add(v.a[2], i))
        return self.idx(self.deref(v), i)

    # ---- values -------------------------------------------------------------------------------
    def add(self, a, b):
        return self.binop("+", a, b)

    def lexical(self, op, x, y):
        """Comparison of tuples, component by component."""
        if op == "==":
            r = lit(True)
            for p, q in reversed(list(zip(x, y))):
                r = self.phi(self.binop("==", p, q), r, lit(False))
            return r
        r = self.binop(op, x[-1], y[-1])
        for p, q in reversed(list(zip(x[:-1], y[:-1]))):
            r = self.phi(self.binop("==", p, q), r, self.binop("<", p, q))
        return r

    def binop(self, op, a, b):
        if op == ">":
            op, a, b = "<", b, a
        elif op == ">=":
            op, a, b = "<=", b, a
        if op == "!=":
            return self.neg(self.binop("==", a, b))
        if op in ("==", "<", "<="):
            x, y = tupleof(a), tupleof(b)
            if x and y and len(x) == len(y):
                return self.lexical(op, x, y)
        if islit(a) and islit(b):
            x, y = a.a[0], b.a[0]
            try:
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    isint = isinstance(x, int) and isinstance(y, int)
                    if op == "+": return lit(x + y)
                    if op == "-": return lit(x - y)
                    if op == "*": return lit(x * y)
                    if op == "/" and not isint and y: return lit(x / y)
                    if op == "<": return lit(x < y)
                    if op == "<=": return lit(x <= y)
                    if op == "==": return lit(x == y)
                if op == "==" and isinstance(x, str) and isinstance(y, str) and x.startswith("enum:") and y.startswith("enum:") \
                        and x.rpartition("::")[0] == y.rpartition("::")[0]:
                    return lit(x == y)   # enumerators of one enum: no two share a value here
            except Exception:
                pass
        if op == "==" and a is b and a.op in ("lit", "null"):
            return TRUE
        if op == "==" and {a.op, b.op} == {"null", "ptr"}:
            return FALSE
        if op == "==" and (a.op == "null" or (b.op == "lit" and a.op != "lit")) is False and a.op == "lit":
            a, b = b, a
        if op == "==" and islit(b) and isinstance(b.a[0], bool):
            return a if b.a[0] else self.neg(a)
        if op == "+" and a.op == "ptr" and a.a[0].op == "idx" and len(a.a[0].a) == 2:
            p = a.a[0]
            return mk("ptr", self.idx(p.a[0], self.add(p.a[1], b)))
        if op == "+" and islit(b) and b.a[0] == 0 and not isinstance(b.a[0], bool):
            return a
        if op == "+" and islit(a) and a.a[0] == 0 and not isinstance(a.a[0], bool) and isinstance(a.a[0], int):
            return b
        if op == "-" and islit(b) and b.a[0] == 0:
            return a
        if op == "+" and a.op == "op" and a.a[0] == "+" and islit(b) and islit(a.a[2]) and isinstance(b.a[0], int) and isinstance(a.a[2].a[0], int):
            return self.binop("+", a.a[1], lit(a.a[2].a[0] + b.a[0]))
        if op == "&&":
            if truth(a) is False or truth(b) is False: return FALSE
            if truth(a) is True: return b
            if truth(b) is True: return a
        if op == "||":
            if truth(a) is True or truth(b) is True: return TRUE
            if truth(a) is False: return b
            if truth(b) is False: return a
        return mk("op", op, a, b)

    def neg(self, a):
        t = truth(a)
        if t is not None and a.op == "lit":
            return lit(not t)
        if a.op == "op" and a.a[0] == "!":
            return a.a[1]
        return mk("op", "!", a)

    def phi(self, c, a, b):
        if a is b:
            return a
        t = truth(c)
        if t is True:
            return a
        if t is False:
            return b
        if c.op == "op" and c.a[0] == "!":
            return self.phi(c.a[1], b, a)
        if a.op == "phi" and a.a[0] is c:
            a = a.a[1]
        if b.op == "phi" and b.a[0] is c:
            b = b.a[2]
        if a is b:
            return a
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return self.neg(c)
        return mk("phi", c, a, b)

    def get(self, v, f):
        o = v.op
        if o == "struct":
            for n, x in v.a[1]:
                if n == f:
                    return x
            if f == "#size":
                return mk("get", v, f)
            return mk("get", v, f)
        if o == "upd":
            if v.a[1] == ("f", f):
                return v.a[2]
            return self.get(v.a[0], f)
        if o == "phi":
            return self.phi(v.a[0], self.get(v.a[1], f), self.get(v.a[2], f))
        if o == "ld":
            return mk("ld", self.fld(v.a[0], f))
        if o in ("hv", "ho"):
            return mk(o, v.a[0], self.fld(v.a[1], f))
        if o == "lit" and not isinstance(v.a[0], str):
            return lit(0)
        if o == "undef":
            return v
        return mk("get", v, f)

    def sel(self, v, i):
        o = v.op
        if o == "upd":
            k = v.a[1]
            if k[0] == "i":
                if k[1:] == tuple(i):
                    return v.a[2]
                if self.distinct(k[1:], i):
                    return self.sel(v.a[0], i)
                return mk("amb", self.sel(v.a[0], i), v.a[2])
            return self.sel(v.a[0], i)
        if o == "phi":
            return self.phi(v.a[0], self.sel(v.a[1], i), self.sel(v.a[2], i))
        if o == "ld":
            return mk("ld", self.idx(v.a[0], *i))
        if o in ("hv", "ho"):
            return mk(o, v.a[0], self.idx(v.a[1], *i))
        if o == "lit" and not isinstance(v.a[0], str):
            return v
        if o == "undef":
            return v
        if o == "ilist" and len(i) == 1 and islit(i[0]) and isinstance(i[0].a[0], int) and 0 <= i[0].a[0] < len(v.a):
            return v.a[i[0].a[0]]
        if o == "fill":
            return v.a[0]
        return mk("sel", v, *i)

    @staticmethod
    def distinct(i, j):
        for a, b in zip(i, j):
            if islit(a) and islit(b) and a.a[0] != b.a[0]:
                return True
        return False

    # ---- memory -------------------------------------------------------------------------------
    def base(self, s, p):
        v = s.mem.get(p)
        if v is not None:
            return v
        o = p.op
        if o == "fld":
            a = self.base(s, p.a[0])
            if a.op == "ld" and a.a[0] is p.a[0]:
                return mk("ld", p)
            return self.get(a, p.a[1])
        if o == "idx":
            a = self.base(s, p.a[0])
            if a.op == "ld" and a.a[0] is p.a[0]:
                r = mk("ld", p)
            else:
                r = self.sel(a, p.a[1:])
            amb = [s.mem[k] for k in self.kids.get(p.a[0], ()) if k.op == "idx" and k in s.mem and k is not p
                   and not self.distinct(k.a[1:], p.a[1:])]
            if amb:
                amb.sort()
                return mk("amb", r, *amb)
            return r
        if o == "deref":
            v = p.a[0]
            if v.op == "phi":
                return self.phi(v.a[0], self.load(s, self.deref(v.a[1])), self.load(s, self.deref(v.a[2])))
            return mk("ld", p)
        if o in ("obj", "tmp"):
            return UNDEF
        if o == "var":
            return UNDEF
        return mk("ld", p)

    def inmem(self, s, p):
        if p in s.mem:
            return True
        for k in self.kids.get(p, ()):
            if self.inmem(s, k):
                return True
        return False

    def load(self, s, p):
        v = self.base(s, p)
        kids = self.kids.get(p)
        if kids:
            for k in list(kids):
                if self.inmem(s, k):
                    key = ("f", k.a[1]) if k.op == "fld" else ("i",) + k.a[1:]
                    v = mk("upd", v, key, self.load(s, k))
        return v

    def purge(self, s, p):
        for k in self.kids.get(p, ()):
            if k in s.mem:
                del s.mem[k]
            self.purge(s, k)

    def store(self, s, p, v, op="=", node=None, declare=False, silent=False):
        if s.dead:
            return
        if p.op == "deref" and p.a[0].op == "phi":
            c, a, b = p.a[0].a
            pa, pb = self.deref(a), self.deref(b)
            if not silent:
                self.emit(s, "store", p, v, op, node)
            for q, pol in ((pa, True), (pb, False)):
                old = self.load(s, q)
                self.purge(s, q)
                s.mem[q] = self.phi(c, v, old) if pol else self.phi(c, old, v)
                for r in self.recs:
                    r["changed"].setdefault(q, []).append((op, s.guards))
            return
        if self.kids.get(p):
            self.purge(s, p)
        s.mem[p] = v
        if declare:
            self.declpar[p] = self.parstack
        for r in self.recs:
            if declare:
                r["declared"].add(p)
            else:
                r["changed"].setdefault(p, []).append((op, s.guards))
        if not declare and not silent:
            self.emit(s, "store", p, v, op, node)

    def emit(self, s, kind, place=None, value=None, op=None, node=None, info=None):
        if self.muted or s.dead:
            return None
        e = Ev()
        e.kind, e.place, e.value, e.op, e.info = kind, place, value, op, info
        e.guards, e.loops, e.par, e.locks = s.guards, self.loopstack, self.parstack, s.locks
        fr = self.frame
        e.fn = fr.fn["id"] if fr else ""
        e.file = fr.fn.get("file", "") if fr else ""
        e.line = node.get("l", 0) if node else 0
        e.stack = self.stack
        e.n = len(self.events)
        self.events.append(e)
        return e

    # ---- guards -------------------------------------------------------------------------------
    def guard(self, s, c, pol):
        while c.op == "op" and c.a[0] == "!":
            c, pol = c.a[1], not pol
        t = truth(c)
        if t is not None:
            if t != pol:
                s.dead = True
            return
        if c.op == "op" and c.a[0] == "&&" and pol:
            self.guard(s, c.a[1], True)
            self.guard(s, c.a[2], True)
            return
        if c.op == "op" and c.a[0] == "||" and not pol:
            self.guard(s, c.a[1], False)
            self.guard(s, c.a[2], False)
            return
        for g, p in s.guards:
            if g is c:
                if p != pol:
                    s.dead = True
                return
        s.guards = s.guards + ((c, pol),)

    def known(self, s, c):
        """Truth of condition c under the current guards, if it was already decided."""
        pol = True
        while c.op == "op" and c.a[0] == "!":
            c, pol = c.a[1], not pol
        t = truth(c)
        if t is not None:
            return t == pol
        for g, p in s.guards:
            if g is c:
                return p == pol
        return None

    def merge(self, c, a, b):
        """State after 'if c then a else b'."""
        if a.dead:
            return b
        if b.dead:
            return a
        n = 0
        for x, y in zip(a.guards, b.guards):
            if x != y:
                break
            n += 1
        bs = set(b.guards)
        out = S({}, tuple(g for g in a.guards if g in bs), a.locks, False)
        if a.mem is b.mem:
            out.mem = a.mem
            return out
        m = {}
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is v:
                m[k] = v
            elif w is None:
                m[k] = self.phi(c, v, self.base(b, k))
            else:
                m[k] = self.phi(c, v, w)
        for k, w in b.mem.items():
            if k not in a.mem:
                m[k] = self.phi(c, self.base(a, k), w)
        out.mem = m
        return out

    def conj(self, gs):
        c = None
        for g, p in gs:
            x = g if p else self.neg(g)
            c = x if c is None else self.binop("&&", c, x)
        return TRUE if c is None else c

    def mergeall(self, outs):
        """Merge [(S, value)] of alternative exits, in program order."""
        outs = [o for o in outs if not o[0].dead]
        if not outs:
            return None, None
        s, v = outs[-1]
        for t, w in reversed(outs[:-1]):
            ss = set(s.guards)
            extra = [g for g in t.guards if g not in ss]
            c = self.conj(extra) if extra else mk("nd", self.newid())
            if v is not None and w is not None:
                v = self.phi(c, w, v)
            elif v is None:
                v = w
            # facts learned on both sides stay
            s2 = self.merge(c, t, s)
            s = s2
        return s, v

    def newid(self):
        self.ncalls += 1
        return "n%d" % self.ncalls

    # ---- contexts -----------------------------------------------------------------------------
    def ctx(self, parent, node):
        k = (parent, id(node))
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
        return c

    # ---- running an entry ---------------------------------------------------------------------
    def run(self, fnid, s=None, this=None, args=None, tag=""):
        """Evaluate function fnid as an entry point. Returns (state, value)."""
        fn = self.F.fns[fnid]
        s = s or S()
        self.frame = None
        if this is None and fn.get("cls") and not fn.get("static"):
            this = mk("this", fn["cls"])
        ctx = self.ctx(("entry", fnid, tag), fn)
        env = {}
        for i, p in enumerate(fn.get("ps") or []):
            v = (args or {}).get(p["n"])
            if v is None:
                v = mk("param", p["n"], tag) if tag else mk("param", p["n"])
            t = p["t"].rstrip()
            if t.endswith("&"):
                env[p["id"]] = v.a[0] if v.op == "ptr" else mk("pobj", *(v.a))
                if v.op != "ptr" and (args or {}).get(p["n"]) is not None:
                    pl = mk("tmp", "arg", p["id"], ctx)
                    s.mem[pl] = v
                    env[p["id"]] = pl
            else:
                pl = mk("var", p["id"], ctx)
                s.mem[pl] = mk("ld", mk("pobj", *(v.a))) if (v.op == "param" and self.isclass(t)) else v
                env[p["id"]] = pl
        return self.body(s, fn, env, this, ctx, None)

    def isclass(self, t):
        t = tclean(t)
        return not t.endswith("*") and ("::" in t or "<" in t) and not t.startswith("std::function")

    def body(self, s, fn, env, this, ctx, node):
        old = getattr(self, "frame", None)
        fr = Frame(fn, env, this, ctx)
        self.visited.add(fn["id"])
        self.frame = fr
        self.stack = self.stack + ((fn["id"], node.get("l", 0) if node else 0),)
        try:
            if fn.get("ctor"):
                self.inits(s, fn, this)
            b = fn.get("body")
            if b:
                self.stmt(s, b)
        finally:
            self.frame = old
            self.stack = self.stack[:-1]
        outs = list(fr.returns)
        if not s.dead:
            outs.append((s, None))
        r, v = self.mergeall(outs)
        if r is None:
            s.dead = True
            return s, UNDEF
        # keep what every normal exit established; drop conditions local to alternatives
        res = S(r.mem, r.guards, s.locks, False)
        return res, (v if v is not None else UNDEF)

    def inits(self, s, fn, this):
        for i in fn.get("inits") or []:
            if i.get("field"):
                p = self.fld(this, i["field"])
                e = i.get("e")
                if e is None:
                    continue
                if (i.get("t") or "").rstrip().endswith("&"):
                    v = mk("ptr", self.lval(s, e))
                    self.store(s, p, v, "init", e)
                else:
                    self.initplace(s, p, e, "init", i.get("t"))
            elif i.get("e") is not None and (i.get("base") or i.get("deleg")):
                e = i["e"]
                if e.get("k") == "ictor":
                    # an inherited constructor passes its own parameters on
                    e = {"k": "ctor", "f": e.get("f"), "l": e.get("l"), "cls": i.get("base"), "t": i.get("base"),
                         "a": [{"k": "ref", "dk": "parm", "id": q.get("id"), "n": q.get("n"), "t": q.get("t"), "l": e.get("l")} for q in fn.get("ps") or []]}
                if e.get("k") == "ctor":
                    self.construct(s, e, this)
                else:
                    self.rval(s, e)

    def initplace(self, s, p, e, op, t=None, declare=False):
        """Initialise place p from expression e (constructing in place when possible)."""
        x = e
        while x.get("k") in ("cast",) and x.get("e", {}).get("k") in ("ctor",):
            x = x["e"]
        if x.get("k") == "ctor":
            if self.construct(s, x, p, op, declare):
                return
        v = self.rval(s, e)
        self.store(s, p, v, op, e, declare=declare)

    # ---- constructors -------------------------------------------------------------------------
    def construct(self, s, e, p, op="init", declare=False):
        """Run constructor expression e on place p. True when handled."""
        cls = e.get("cls") or ""
        b = strip_targs(cls)
        a = e.get("a") or []
        if b in ("std::vector", "std::array", "std::deque", "std::list", "std::basic_string", "std::__cxx11::basic_string"):
            self.vec_ctor(s, e, p, op, declare)
            return True
        if b == "freud::util::ManagedArray":
            fn = self.F.fns.get(e.get("f"))
            args = [x for x in a]
            if len(args) == 1 and tbase(args[0].get("t", "")) == "freud::util::ManagedArray":
                self.store(s, p, self.rval(s, args[0]), op, e, declare=declare)
                return True
            sh = self.rval(s, args[0]) if args else mk("ilist", lit(0))
            self.store(s, p, UNDEF, op, e, declare=declare)
            self.store(s, self.fld(p, "#shape"), sh, "init", e, silent=True, declare=declare)
            self.store(s, self.fld(p, "#data"), lit(0), "init", e, silent=True, declare=declare)
            return True
        if b == "std::function" and len(a) == 1:
            self.store(s, p, self.rval(s, a[0]), op, e, declare=declare)
            return True
        if PTR.match(cls) and a:
            self.store(s, p, self.rval(s, a[0]), op, e, declare=declare)
            return True
        if PTR.match(cls):
            self.store(s, p, NULL, op, e, declare=declare)
            return True
        if b in ("std::complex",):
            vs = [self.rval(s, x) for x in a]
            v = lit(0) if not vs else (vs[0] if len(vs) == 1 else mk("call", "complex", *vs))
            self.store(s, p, v, op, e, declare=declare)
            return True
        if b in ("std::pair",) and len(a) == 2:
            v = mk("struct", "std::pair", (("first", self.rval(s, a[0])), ("second", self.rval(s, a[1]))))
            self.store(s, p, v, op, e, declare=declare)
            return True
        if b in ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock") or b.endswith("::scoped_lock"):
            for x in a[:1]:
                s.locks = s.locks + (self.lval(s, x),)
            return True
        if "tbb::" in b and b.endswith("blocked_range"):
            self.store(s, p, mk("struct", "blocked_range", (("#b", self.rval(s, a[0])), ("#e", self.rval(s, a[1])))) if len(a) >= 2 else UNDEF, op, e, declare=declare)
            return True
        if "tbb::" in b and b.endswith("blocked_range2d"):
            vs = [self.rval(s, x) for x in a]
            if len(vs) >= 4:
                r = [vs[i] for i in ((0, 1, 2, 3) if len(vs) == 4 else (0, 1, 3, 4))]
                self.store(s, p, mk("struct", "blocked_range2d", (
                    ("#rows", mk("struct", "blocked_range", (("#b", r[0]), ("#e", r[1])))),
                    ("#cols", mk("struct", "blocked_range", (("#b", r[2]), ("#e", r[3])))))), op, e, declare=declare)
            return True
        if b.endswith("enumerable_thread_specific"):
            vs = [self.rval(s, x) for x in a]
            self.store(s, p, mk("struct", "ets", tuple(("#init%d" % i, v) for i, v in enumerate(vs))), op, e, declare=declare)
            self.store(s, mk("tls", p), vs[0] if vs else UNDEF, "init", e, silent=True, declare=declare)
            return True
        fn = self.F.fns.get(e.get("f"))
        if fn is not None and self.caninline(fn, e):
            if not declare:
                self.store(s, p, UNDEF, op, e, declare=declare, silent=True)
            else:
                self.store(s, p, UNDEF, op, e, declare=True)
            for r in self.recs:
                r["declared"].add(p)
            r, _ = self.invoke(s, fn, p, a, e)
            s.assign(r)
            if not self.muted:
                self.emit(s, "construct", p, None, op, e, info=cls)
            return True
        return False

    def vec_ctor(self, s, e, p, op, declare):
        a = [x for x in (e.get("a") or []) if not strip_targs(x.get("cls") or "").startswith("std::allocator")]
        f = e.get("f") or ""
        if not a:
            self.store(s, p, mk("empty"), op, e, declare=declare)
            self.store(s, self.fld(p, "#size"), lit(0), "init", e, silent=True, declare=declare)
            return
        if len(a) == 1 and tbase(a[0].get("t", "")) == tbase(e.get("t", "") or e.get("cls", "")):
            self.store(s, p, self.rval(s, a[0]), op, e, declare=declare)
            return
        if a[0].get("k") == "ilist" or a[0].get("t", "").startswith(("std::initializer_list", "const std::initializer_list")):
            v = self.rval(s, a[0])
            self.store(s, p, v, op, e, declare=declare)
            if v.op == "ilist":
                self.store(s, self.fld(p, "#size"), lit(len(v.a)), "init", e, silent=True, declare=declare)
            return
        vs = [self.rval(s, x) for x in a]
        if len(vs) >= 2 and (vs[0].op in ("ptr",) or "iterator" in (a[0].get("t") or "") or (a[0].get("t") or "").rstrip().endswith("*")):
            self.store(s, p, mk("call", "range", vs[0], vs[1]), op, e, declare=declare)
            return
        self.store(s, p, mk("fill", vs[1] if len(vs) > 1 else lit(0), vs[0]), op, e, declare=declare)
        self.store(s, self.fld(p, "#size"), vs[0], "init", e, silent=True, declare=declare)

    # ---- inlining -----------------------------------------------------------------------------
    def isvalue(self, fn):
        f = fn.get("file") or ""
        return f.endswith("VectorMath.h")

    def caninline(self, fn, node=None):
        if not fn.get("body") and not fn.get("ctor"):
            return False
        if self.isvalue(fn):
            return False
        if fn.get("cls") == "freud::box::Box" and not self.inline_box:
            if fn.get("ctor") or fn.get("static"):
                return False
            if not any(p["t"].rstrip().endswith("*") and not p["t"].startswith("const ") for p in fn.get("ps") or []):
                return False
        nm = strip_targs(fn["fn"])
        if nm in self.opaque:
            return False
        if self.noinline and self.noinline(fn):
            return False
        if len(self.stack) > self.maxdepth:
            return False
        for f, _ in self.stack:
            if f == fn["id"]:
                return False
        return True

    def invoke(self, s, fn, this, argx, node, env0=None, preval=None):
        """Inline fn. argx: expressions (or ('V',value)/('P',place) pairs)."""
        self.steps += 1
        if self.steps > 400000:
            raise Limit("too many inlined calls")
        fr = self.frame
        ctx = self.ctx(fr.ctx if fr else 0, node)
        if env0 is None and preval:
            ctx = self.ctx(ctx, preval)
        env = dict(env0) if env0 else {}
        ps = fn.get("ps") or []
        for i, p in enumerate(ps):
            ref = p["t"].rstrip().endswith("&")
            if i < len(argx):
                x = argx[i]
                if isinstance(x, tuple):
                    kind, v = x
                    if ref:
                        if kind == "P":
                            env[p["id"]] = v
                        else:
                            pl = mk("var", p["id"], ctx)
                            self.store(s, pl, v, "bind", node, declare=True)
                            env[p["id"]] = pl
                    else:
                        pl = mk("var", p["id"], ctx)
                        self.store(s, pl, self.load(s, v) if kind == "P" else v, "bind", node, declare=True)
                        env[p["id"]] = pl
                    continue
                if ref:
                    env[p["id"]] = self.lval(s, x)
                else:
                    pl = mk("var", p["id"], ctx)
                    v = self.rval(s, x)
                    env[p["id"]] = (pl, v)
            else:
                pl = mk("var", p["id"], ctx)
                env[p["id"]] = (pl, UNDEF)
        for k, v in list(env.items()):
            if isinstance(v, tuple):
                self.store(s, v[0], v[1], "bind", node, declare=True)
                env[k] = v[0]
        return self.body(s, fn, env, this, ctx, node)

    def closure_call(self, s, clo, args, node, fid=None):
        """Call a closure value with ('V'|'P', x) args or expressions."""
        lamcls, env, this, fid0 = self.clos[clo.a[0]]
        if fid and fid0 and fid.split("@", 2)[:2] == fid0.split("@", 2)[:2]:
            fid = fid0      # the closure's own operator(): a shared template instantiation may name another enclosing function
        fn = self.F.fns.get(fid or fid0) or self.F.fns.get(fid0)
        if fn is None or not fn.get("body"):
            cands = [i for i in self.F.fns if i.startswith(lamcls + "::operator()")]
            suf = (fid0 or "").split("@", 2)[-1]
            cands = [i for i in cands if i.endswith(suf)] or cands
            if not cands:
                return s, mk("call", "closure?", clo)
            fn = self.F.fns[cands[0]]
        for f, _ in self.stack:
            if f == fn["id"] and len([1 for g, _ in self.stack if g == fn["id"]]) > 1:
                return s, mk("call", "closure-rec", clo)
        return self.invoke(s, fn, this, args, node, env0=env)

    # ---- statements ---------------------------------------------------------------------------
    def stmt(self, s, n):
        if s.dead:
            return
        k = n["k"]
        m = getattr(self, "st_" + k, None)
        if m is None:
            self.unknown["stmt:" + k] = self.unknown.get("stmt:" + k, 0) + 1
            return
        m(s, n)

    def st_blk(self, s, n):
        locks = s.locks
        for x in n.get("s") or []:
            if s.dead:
                break
            self.stmt(s, x)
        s.locks = locks

    def st_othS(self, s, n):
        self.unknown["stmt:" + str(n.get("c"))] = 1

    def st_expr(self, s, n):
        self.ev(s, n["e"])

    def st_decl(self, s, n):
        fr = self.frame
        for v in n["v"]:
            if v.get("slocal"):
                pl = fr.env[v["id"]] = mk("slocal", v["id"])
                if v.get("init") is not None and not self.muted:
                    # runs once per process, with the values of whichever call comes first
                    t = s.copy()
                    tmp = mk("var", v["id"], fr.ctx)
                    self.initplace(t, tmp, v["init"], "decl", v.get("t"), declare=True)
                    if not t.dead:
                        self.emit(s, "static", pl, t.mem.get(tmp) or self.load(t, tmp), "decl", n, info=v)
                continue
            init = v.get("init")
            if v.get("ref"):
                if init is not None:
                    fr.env[v["id"]] = self.lval(s, init)
                else:
                    fr.env[v["id"]] = mk("var", v["id"], fr.ctx)
                self.binds(s, v, fr.env[v["id"]])
                continue
            pl = mk("var", v["id"], fr.ctx)
            fr.env[v["id"]] = pl
            if init is None:
                self.store(s, pl, UNDEF, "decl", n, declare=True)
            else:
                self.initplace(s, pl, init, "decl", v.get("t"), declare=True)
            self.binds(s, v, pl)
            if not self.muted and init is not None and not s.dead:
                self.emit(s, "decl", pl, s.mem.get(pl), "decl", n, info=v)

    def binds(self, s, v, pl):
        for i, b in enumerate(v.get("binds") or []):
            bid = b["id"] if isinstance(b, dict) else b
            self.frame.env[bid] = self.fld(pl, ("first", "second")[i]) if i < 2 else self.fld(pl, "b%d" % i)

    def st_if(self, s, n):
        if n.get("init"):
            self.stmt(s, n["init"])
        if n.get("cv"):
            self.st_decl(s, {"v": [n["cv"]], "l": n.get("l"), "k": "decl"}) if isinstance(n["cv"], dict) and n["cv"].get("k") != "decl" else self.stmt(s, n["cv"])
        c = self.rval(s, n["c"])
        if s.dead:
            return
        a = s.copy()
        b = s.copy()
        self.guard(a, c, True)
        self.guard(b, c, False)
        if not a.dead:
            self.stmt(a, n["a"])
        if n.get("b") and not b.dead:
            self.stmt(b, n["b"])
        if a.dead and b.dead:
            s.dead = True
            return
        s.assign(self.merge(c, a, b))

    def st_ret(self, s, n):
        v = None
        if n.get("e") is not None:
            if self.frame.retref:
                v = mk("ptr", self.lval(s, n["e"]))
            else:
                v = self.rval(s, n["e"])
        if not s.dead:
            if not self.muted:
                self.emit(s, "return", None, v, None, n)
            self.frame.returns.append((s.copy(), v))
            s.dead = True

    def st_brk(self, s, n):
        if self.frame.brk:
            self.frame.brk[-1].append(s.copy())
        s.dead = True

    def st_cont(self, s, n):
        if self.frame.cont:
            self.frame.cont[-1].append(s.copy())
        s.dead = True

    def st_try(self, s, n):
        # the handlers start from any point of the body: treat as an unknown alternative
        a = s.copy()
        b = s.copy()
        self.stmt(a, n["body"])
        c = mk("nd", self.newid())
        outs = [(a, None)]
        for h in n.get("h") or []:
            x = b.copy()
            self.guard(x, mk("exc", id(n)), True)
            self.stmt(x, h.get("body", h) if isinstance(h, dict) else h)
            outs.append((x, None))
        r, _ = self.mergeall(outs)
        if r is None:
            s.dead = True
        else:
            s.assign(r)

    def st_switch(self, s, n):
        c = self.rval(s, n["c"])
        body = n["body"]
        items = body.get("s") or [] if body.get("k") == "blk" else [body]
        fr = self.frame
        fr.brk.append([])
        cur = None
        seen = []
        hasdef = False
        flat = []

        def flatten(x, out):
            while x["k"] in ("case", "default"):
                out.append(("lab", x))
                x = x["s"]
            out.append(("st", x))
        for it in items:
            flatten(it, flat)
        start = s.copy()
        for kind, x in flat:
            if kind == "lab":
                e = start.copy()
                if x["k"] == "case":
                    cond = self.binop("==", c, self.rval(e, x["e"]))
                    seen.append(cond)
                    for o in seen[:-1]:
                        self.guard(e, o, False)
                    self.guard(e, cond, True)
                else:
                    hasdef = True
                    for o in seen:
                        self.guard(e, o, False)
                    cond = mk("op", "default", c)
                cur = e if cur is None or cur.dead else self.merge(cond, e, cur)
            elif cur is not None and not cur.dead:
                self.stmt(cur, x)
        outs = [(x, None) for x in fr.brk.pop()]
        if cur is not None and not cur.dead:
            outs.append((cur, None))
        if not hasdef:
            e = start.copy()
            for o in seen:
                self.guard(e, o, False)
            outs.append((e, None))
        r, _ = self.mergeall(outs)
        if r is None:
            s.dead = True
        else:
            g = start.guards
            s.assign(r)

    # ---- loops --------------------------------------------------------------------------------
    def norm(self, p):
        """The coarsest place invalidated by stores to p from an unknown iteration."""
        out = p
        q = p
        while q.op in ("fld", "idx"):
            if q.op == "idx":
                out = q.a[0]
            q = q.a[0]
        return out

    def loopgen(self, s, n, once, cond=None, kind="loop", extra=None):
        """Summarise a loop. once(s) evaluates one iteration (including increments)."""
        fr = self.frame
        L = "%s:%s:%d" % (fr.fn.get("file", ""), n.get("l"), self.ctx(fr.ctx, n))
        key = L
        pp = self.prepass.get(key)
        if pp is None:
            self.muted += 1
            self.recs.append({"changed": {}, "declared": set()})
            t = s.copy()
            outer = self.loopstack
            self.loopstack = outer + (L,)
            self.loops.setdefault(L, {"kind": kind, "file": fr.fn.get("file"), "line": n.get("l")})
            g0 = None
            try:
                if cond is not None:
                    c = cond(t)
                    self.guard(t, c, True) if truth(c) is None else None
                g0 = len(t.guards)
                once(t)
            finally:
                self.muted -= 1
                self.loopstack = outer
                rec = self.recs.pop()
            changed = {}
            for p, how in rec["changed"].items():
                if p in rec["declared"] or root(p) in rec["declared"]:
                    continue
                r = root(p)
                if r.op == "tls" and root(r.a[0]) in rec["declared"]:
                    continue
                changed[p] = [(o, not t.dead and (len(g) <= (g0 or 0) or tuple(g) == tuple(t.guards[:len(g)]))) for o, g in how]
            pp = changed
            self.prepass[key] = pp
        # induction variables: a scalar changed exactly once per iteration by ++ / += step
        info = self.loops[L]
        info["node"] = n
        info.setdefault("ind", {})
        inits = {}
        hv = {}
        for p, how in pp.items():
            q = self.norm(p)
            if q is p and p.op == "var" and len(how) == 1 and how[0][0] in ("++", "+=c", "--") and how[0][1] and p not in hv:
                inits[p] = ("ind", self.load(s, p), how[0][0])
            else:
                hv[q] = True
        for q in list(hv):
            for anc in ancestors(q):
                if anc in hv:
                    hv.pop(q, None)
                    break
        first = {q: self.load(s, q) for q in hv}
        b = s.copy()
        for q in hv:
            self.store(b, q, mk("hv", L, q), "hv", n, silent=True)
        ninds = len([1 for v in inits.values()])
        for j, (p, (_, lo, how)) in enumerate(inits.items()):
            lv = mk("lv", L) if ninds == 1 else mk("lv", L, p)
            key2 = L if ninds == 1 else (L, p)
            self.loops.setdefault(key2 if isinstance(key2, str) else L, info)
            info["lo"] = lo if ninds == 1 else info.get("lo")
            info.setdefault("ind", {})[p] = (lv, lo, how)
            b.mem[p] = lv
            self.lvinfo(lv, lo, how, L)
        outer = self.loopstack
        self.loopstack = outer + (L,)
        try:
            if cond is not None:
                g0 = b.guards
                c = cond(b)
                info["cond"] = c
                self.guard(b, c, True)
            once(b)
        finally:
            self.loopstack = outer
        upd = info.setdefault("upd", {})
        for q in hv:
            upd[q] = (first[q], self.load(b, q) if not b.dead else UNDEF)
        for q in hv:
            self.store(s, q, mk("ho", L, q), "ho", n, silent=True)
        for p in inits:
            self.store(s, p, mk("ho", L, p), "ho", n, silent=True)
            upd[p] = (inits[p][1], b.mem.get(p, UNDEF))
        return L

    lvs = None

    def lvinfo(self, lv, lo, how, L):
        if self.lvs is None:
            self.lvs = {}
        self.lvs[lv] = (lo, how, L)
        # deref() looks the start value up by loop id
        self.loops.setdefault(lv.a[0], {})["lo"] = lo if len(lv.a) == 1 else self.loops[lv.a[0]].get("lo")

    def loopbody(self, s, body):
        fr = self.frame
        fr.brk.append([])
        fr.cont.append([])
        self.stmt(s, body)
        outs = [(x, None) for x in fr.cont.pop()]
        fr.brk.pop()
        if not s.dead:
            outs.append((s.copy(), None))
        r, _ = self.mergeall(outs)
        if r is None:
            s.dead = True
        else:
            s.assign(r)

    def st_for(self, s, n):
        if n.get("init"):
            self.stmt(s, n["init"])
        if s.dead:
            return

        def once(t):
            self.loopbody(t, n["body"])
            if n.get("inc") is not None and not t.dead:
                self.ev(t, n["inc"]["e"] if n["inc"].get("k") == "expr" else n["inc"])
        cond = (lambda t: self.rval(t, n["c"])) if n.get("c") else None
        self.loopgen(s, n, once, cond, "for")

    def st_while(self, s, n):
        if n.get("cv"):
            pass
        self.loopgen(s, n, lambda t: self.loopbody(t, n["body"]), (lambda t: self.rval(t, n["c"])), "while")

    def st_do(self, s, n):
        def once(t):
            self.loopbody(t, n["body"])
            if not t.dead:
                self.rval(t, n["c"])
        self.loopgen(s, n, once, None, "do")

    def st_rfor(self, s, n):
        rng = n["range"]
        fr = self.frame
        v = n["var"]
        lst = rng
        while lst.get("k") in ("cast", "tmp", "mat") and isinstance(lst.get("e"), dict):
            lst = lst["e"]
        if (lst.get("k") == "ilist" or "initializer_list" in (rng.get("t") or "")) and not hasbreak(n["body"]):
            x = self.rval(s, rng)
            while x.op == "ilist" and len(x.a) == 1 and isinstance(x.a[0], T) and x.a[0].op == "ilist":
                x = x.a[0]
            if x.op == "ilist" and 0 < len(x.a) <= 12:
                for y in x.a:
                    pl = mk("var", v["id"], fr.ctx)
                    fr.env[v["id"]] = pl
                    self.store(s, pl, y, "decl", n, declare=True)
                    self.loopbody(s, n["body"])
                    if s.dead:
                        return
                return
        cont = self.lval(s, rng)
        L = "%s:%s:%d" % (fr.fn.get("file", ""), n.get("l"), self.ctx(fr.ctx, n))
        lv = mk("lv", L)
        self.lvinfo(lv, lit(0), "++", L)
        self.loops.setdefault(L, {"kind": "rfor", "file": fr.fn.get("file"), "line": n.get("l")})
        self.loops[L]["range"] = cont
        elem = self.elem(s, cont, lv, rng)

        def once(t):
            if v.get("ref"):
                fr.env[v["id"]] = elem
            else:
                pl = mk("var", v["id"], fr.ctx)
                fr.env[v["id"]] = pl
                self.store(t, pl, self.load(t, elem), "decl", n, declare=True)
            self.binds(t, v, fr.env[v["id"]])
            self.loopbody(t, n["body"])
        self.loopgen(s, n, once, None, "rfor")

    def elem(self, s, cont, lv, rng):
        t = tbase(rng.get("t", ""))
        if t.endswith("enumerable_thread_specific"):
            return mk("tls", cont)
        if t == "freud::util::ManagedArray":
            return self.idx(self.fld(cont, "#data"), lv)
        if t.endswith("ThreadStorage"):
            return mk("tls", self.fld(cont, "arrays"))
        v = self.base(s, cont)
        if v.op == "call" and v.a[0] == "flattened":
            return self.idx(v.a[1], lv)
        return self.idx(cont, lv)

    # ---- expressions --------------------------------------------------------------------------
    def ev(self, s, e):
        """Evaluate for effect."""
        return self.rval(s, e)

    def rval(self, s, e):
        if s.dead:
            return UNDEF
        k = e["k"]
        m = getattr(self, "rv_" + k, None)
        if m is not None:
            return m(s, e)
        m = getattr(self, "lx_" + k, None)
        if m is not None:
            p = m(s, e)
            return self.load(s, p) if not s.dead else UNDEF
        self.unknown["expr:" + k] = self.unknown.get("expr:" + k, 0) + 1
        return mk("opaque", k, id(e))

    def lval(self, s, e):
        if s.dead:
            return mk("tmp", "dead")
        k = e["k"]
        m = getattr(self, "lx_" + k, None)
        if m is not None:
            return m(s, e)
        if k == "call":
            kind, v = self.call(s, e)
            if kind == "P":
                return v
            return self.temp(s, e, v)
        if k == "cast":
            if e.get("ck") in ("NoOp", "DerivedToBase", "BaseToDerived", "UncheckedDerivedToBase", "ConstructorConversion", "LValueBitCast", "UserDefinedConversion"):
                return self.lval(s, e["e"])
        if k == "cond":
            c = self.rval(s, e["c"])
            t = self.known(s, c)
            if t is not None:
                return self.lval(s, e["a"] if t else e["b"])
            a = self.lval(s, e["a"])
            b = self.lval(s, e["b"])
            if a is b:
                return a
            return mk("deref", self.phi(c, mk("ptr", a), mk("ptr", b)))
        if k == "un" and e["op"] == "*":
            return self.deref(self.rval(s, e["e"]))
        if k == "un" and e["op"] in ("++", "--"):
            self.rval(s, e)
            return self.lval(s, e["e"])
        if k == "asg":
            self.rval(s, e)
            return self.lval(s, e["a"])
        if k == "bin" and e["op"] == ",":
            self.rval(s, e["a"])
            return self.lval(s, e["b"])
        if k == "ctor":
            return self.newtemp(s, e)
        if k == "copy":
            # a copy is a new object
            return self.temp(s, e, self.rval(s, e))
        v = self.rval(s, e)
        return self.temp(s, e, v)

    def temp(self, s, e, v):
        p = mk("tmp", self.ctx(self.frame.ctx if self.frame else 0, e))
        self.store(s, p, v, "tmp", e, declare=True)
        return p

    def newtemp(self, s, e):
        p = mk("tmp", self.ctx(self.frame.ctx if self.frame else 0, e))
        if not self.construct(s, e, p, "tmp", declare=True):
            self.store(s, p, self.rv_ctor(s, e, True), "tmp", e, declare=True)
        return p

    def lx_ref(self, s, e):
        i = e.get("id")
        fr = self.frame
        p = fr.env.get(i) if i else None
        if p is not None:
            return p
        dk = e.get("dk")
        if dk in ("func",):
            return mk("fnref", e.get("f") or e.get("id") or e.get("n"))
        if dk == "enum":
            return self.temp(s, e, self.rv_ref(s, e))
        if dk == "glob" or e.get("qn"):
            return mk("glob", e.get("qn") or e.get("id"))
        if e.get("slocal"):
            return mk("slocal", i)
        return mk("var", i or e.get("n"), fr.ctx)

    def rv_ref(self, s, e):
        if e.get("dk") == "enum":
            return mk("lit", "enum:" + str(e.get("qn") or e.get("n")))
        if e.get("dk") == "func":
            return mk("fnref", e.get("fn") or e.get("id") or e.get("n"))
        if e.get("cv") is not None and e.get("dk") == "glob":
            return lit(e["cv"])
        return self.load(s, self.lx_ref(s, e))

    def lx_mem(self, s, e):
        if e.get("mk") == "static":
            return mk("glob", (e.get("cls") or "") + "::" + e["n"])
        b = e["b"]
        if e.get("arrow"):
            bp = self.deref(self.rval(s, b))
        else:
            bp = self.lval(s, b)
        p = self.fld(bp, e["n"])
        if e.get("ref"):
            return self.deref(self.load(s, p))
        v = s.mem.get(p)
        if v is not None and v.op == "ptr" and e.get("t", "") and not e["t"].rstrip().endswith("*") and not PTR.match(e["t"]) and "iterator" not in e["t"]:
            return v.a[0]
        return p

    def rv_mem(self, s, e):
        if e.get("mk") == "method":
            return mk("fnref", e.get("n"))
        if e.get("mk") == "static" and e.get("cv") is not None:
            return lit(e["cv"])
        b = e["b"]
        if not e.get("arrow") and b["k"] in ("call", "ctor", "copy") :
            kind, v = self.callv(s, b) if b["k"] == "call" else ("V", self.rval(s, b))
            if kind == "V":
                return self.get(v, e["n"])
            return self.load(s, self.fld(v, e["n"]))
        return self.load(s, self.lx_mem(s, e))

    def callv(self, s, e):
        return self.call(s, e)

    def rv_this(self, s, e):
        return mk("ptr", self.frame.this) if self.frame.this is not None else UNDEF

    def lx_idx(self, s, e):
        b = e["b"]
        t = b.get("t", "")
        i = self.rval(s, e["i"])
        if "[" in t and not t.rstrip().endswith("*"):
            p = self.lval(s, b)
            r = self.idx(p, i)
        else:
            v = self.rval(s, b)
            if v.op == "upd" or v.op == "ilist":
                r = self.idx(self.lval(s, b), i)
            else:
                r = self.index(v, i)
        if self.accesses:
            self.emit(s, "acc", r, None, "[]", e)
        return r

    def rv_lit(self, s, e):
        return lit(e["v"])

    def rv_str(self, s, e):
        return mk("lit", "str:" + str(e.get("v", "")))

    def rv_null(self, s, e):
        return NULL

    def rv_zero(self, s, e):
        return lit(0)

    def rv_sizeof(self, s, e):
        return mk("call", "sizeof", mk("lit", "str:" + str(e.get("of", e.get("t")))))

    def rv_oth(self, s, e):
        if e.get("c") == "CharacterLiteral":
            return mk("opaque", "char", id(e))
        for x in e.get("a") or []:
            if isinstance(x, dict) and "k" in x:
                self.rval(s, x)
        self.unknown["expr:" + str(e.get("c"))] = 1
        return mk("opaque", str(e.get("c")), id(e))

    def rv_un(self, s, e):
        op = e["op"].replace("post", "")
        if op in ("++", "--"):
            p = self.lval(s, e["e"])
            old = self.load(s, p)
            new = self.binop("+" if op == "++" else "-", old, lit(1))
            self.store(s, p, new, op, e)
            return old if "post" in e["op"] else new
        if op == "*":
            return self.load(s, self.deref(self.rval(s, e["e"])))
        if op == "&":
            x = e["e"]
            if x["k"] == "ref" and x.get("dk") == "func":
                return mk("fnref", x.get("fn") or x.get("n"))
            return mk("ptr", self.lval(s, x))
        v = self.rval(s, e["e"])
        if op == "!":
            return self.neg(v)
        if op == "-":
            if islit(v) and isinstance(v.a[0], (int, float)) and not isinstance(v.a[0], bool):
                return lit(-v.a[0])
            return mk("op", "neg", v)
        if op == "+":
            return v
        return mk("op", op, v)

    def rv_asg(self, s, e):
        op = e["op"]
        if op == "=":
            v = self.rval(s, e["b"])
            p = self.lval(s, e["a"])
            self.store(s, p, v, "=", e)
            return v
        p = self.lval(s, e["a"])
        v = self.rval(s, e["b"])
        old = self.load(s, p)
        new = self.binop(op[:-1], old, v)
        step = "+=c" if op == "+=" and (islit(v) and isinstance(v.a[0], int)) else op
        self.store(s, p, new, step, e)
        return new

    def rv_bin(self, s, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.rval(s, e["a"])
            t = self.known(s, a)
            if op == "&&" and t is False:
                return FALSE
            if op == "||" and t is True:
                return TRUE
            b = s.copy()
            self.guard(b, a, op == "&&")
            if b.dead:
                return a
            v = self.rval(b, e["b"])
            o = s.copy()
            self.guard(o, a, op != "&&")
            g = s.guards
            if not o.dead and not b.dead:
                m = self.merge(a if op == "&&" else self.neg(a), b, o)
                s.mem = m.mem
            elif not b.dead:
                s.mem = b.mem
            s.guards = g
            return self.binop(op, a, v)
        if op == ",":
            self.rval(s, e["a"])
            return self.rval(s, e["b"])
        a = self.rval(s, e["a"])
        b = self.rval(s, e["b"])
        return self.binop(op, a, b)

    def rv_cond(self, s, e):
        c = self.rval(s, e["c"])
        t = self.known(s, c)
        if t is not None:
            return self.rval(s, e["a"] if t else e["b"])
        a = s.copy()
        b = s.copy()
        self.guard(a, c, True)
        self.guard(b, c, False)
        va = self.rval(a, e["a"]) if not a.dead else UNDEF
        vb = self.rval(b, e["b"]) if not b.dead else UNDEF
        if a.dead and b.dead:
            s.dead = True
            return UNDEF
        if a.dead:
            s.assign(b)
            return vb
        if b.dead:
            s.assign(a)
            return va
        g = s.guards
        s.assign(self.merge(c, a, b))
        s.guards = g
        return self.phi(c, va, vb)

    def rv_cast(self, s, e):
        ck = e.get("ck")
        v = self.rval(s, e["e"])
        if ck == "FloatingToIntegral":
            if islit(v) and isinstance(v.a[0], float):
                return lit(int(v.a[0]))
            return mk("op", "toint", v)
        if ck == "IntegralToFloating":
            if islit(v) and isinstance(v.a[0], int):
                return lit(float(v.a[0]))
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if islit(v) and isinstance(v.a[0], (int, float)):
                return lit(bool(v.a[0]))
            return mk("op", "tobool", v)
        if ck == "IntegralCast":
            if islit(v) and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
                t = tclean(e.get("t", ""))
                if v.a[0] < 0 and t.startswith("unsigned"):
                    return lit(v.a[0] % (1 << (64 if "long" in t else 32)))
            if tclean(e.get("t", "")) in ("unsigned int", "int") and tclean(e["e"].get("t", "")) in ("unsigned long", "long", "unsigned long long"):
                return v
            return v
        return v

    def rv_ilist(self, s, e):
        vs = [self.rval(s, x) for x in e["a"]]
        t = tbase(e.get("t", ""))
        r = self.F.recs.get(tclean(e.get("t", ""))) or self.F.recs.get(t)
        if r and r.get("fields") and len(r["fields"]) >= len(vs):
            return mk("struct", tclean(e.get("t", "")), tuple((f["n"], v) for f, v in zip(r["fields"], vs)))
        return mk("ilist", *vs)

    def rv_copy(self, s, e):
        return self.rval(s, e["e"])

    def rv_ictor(self, s, e):
        return mk("opaque", "ictor", id(e))

    def rv_lam(self, s, e):
        fr = self.frame
        env = {}
        this = fr.this
        for c in e.get("caps") or []:
            if c.get("this"):
                continue
            vid = c.get("id")
            if c.get("ref"):
                env[vid] = fr.env.get(vid) or (self.lval(s, c["init"]) if c.get("init") else mk("var", vid, fr.ctx))
            else:
                v = self.rval(s, c["init"]) if c.get("init") else self.load(s, fr.env.get(vid) or mk("var", vid, fr.ctx))
                p = mk("cap", vid, self.ctx(fr.ctx, e))
                self.store(s, p, v, "cap", e, declare=True)
                env[vid] = p
        key = (e["cls"], fr.ctx, this, tuple(sorted((k, v.uid) for k, v in env.items())), e.get("f"))
        c = mk("clo", key)
        self.clos[key] = (e["cls"], env, this, e.get("f"))
        return c

    def rv_throw(self, s, e):
        v = e.get("e")
        if v is not None:
            self.rval(s, v)
        self.emit(s, "throw", None, None, None, e, info=e.get("t"))
        s.dead = True
        return UNDEF

    def rv_new(self, s, e):
        t = tclean(e.get("t", "")).rstrip("* ").rstrip()
        p = mk("obj", self.ctx(self.frame.ctx, e), t)
        init = e.get("init")
        n = self.rval(s, e["n"]) if isinstance(e.get("n"), dict) else None
        if init is not None and init.get("k") == "ctor":
            if not self.construct(s, init, p, "new", declare=True):
                self.store(s, p, self.rv_ctor(s, init, True), "new", e, declare=True)
        else:
            self.store(s, p, UNDEF, "new", e, declare=True)
        self.emit(s, "alloc", p, n, "new", e, info=t)
        return mk("ptr", p)

    def rv_del(self, s, e):
        v = self.rval(s, e["e"]) if isinstance(e.get("e"), dict) else UNDEF
        self.emit(s, "delete", None, v, None, e)
        return UNDEF

    def rv_ctor(self, s, e, raw=False):
        cls = e.get("cls") or ""
        b = strip_targs(cls)
        a = e.get("a") or []
        if b in ("vec3", "vec2", "quat", "rotmat2", "rotmat3"):
            vs = [self.rval(s, x) for x in a]
            if not vs:
                return lit(0) if b in ("vec3", "vec2") else mk("call", b)
            if len(vs) == 1:
                return vs[0] if tbase(a[0].get("t", "")) == b else mk("call", b, vs[0])
            if b == "vec3" and len(vs) == 3:
                return mk("struct", "vec3", (("x", vs[0]), ("y", vs[1]), ("z", vs[2])))
            if b == "vec2" and len(vs) == 2:
                return mk("struct", "vec2", (("x", vs[0]), ("y", vs[1])))
            if b == "quat" and len(vs) == 2:
                return mk("struct", "quat", (("s", vs[0]), ("v", vs[1])))
            return mk("call", b, *vs)
        if not raw:
            p = mk("tmp", self.ctx(self.frame.ctx if self.frame else 0, e))
            if self.construct(s, e, p, "tmp", declare=True):
                return self.load(s, p)
        vs = [self.rval(s, x) for x in a]
        if b == "freud::box::Box":
            return mk("call", "Box", *vs)
        if "iterator" in b and len(vs) == 1:
            return vs[0]
        self.emit(s, "ctor", None, mk("ilist", *vs), b, e, info=e)
        return mk("call", "new:" + b, *vs)

    def rv_call(self, s, e):
        kind, v = self.call(s, e)
        if s.dead:
            return UNDEF
        if kind == "P":
            return self.load(s, v)
        return v

    # ---- calls --------------------------------------------------------------------------------
    def objplace(self, s, e):
        """Place of the object a member call is applied to."""
        o = e["obj"]
        ot = e.get("ot") or o.get("t") or ""
        t = (o.get("t") or "").rstrip()
        if t.endswith("*") or t.endswith("*const") or t.endswith("* const"):
            return self.deref(self.rval(s, o))
        return self.lval(s, o)

    def call(self, s, e):
        from . import cxxlib
        fid = e.get("f")
        name = strip_targs(e.get("fn") or "")
        # closure / std::function calls
        if e.get("op") == "()" and (e.get("lam") or strip_targs(e.get("cls") or "") == "std::function"):
            c = self.rval(s, e["obj"])
            if c.op == "clo":
                s2, v = self.closure_call(s, c, e.get("a") or [], e, fid)
                if s2 is not s:
                    s.assign(s2)
                fn = self.F.fns.get(fid)
                if fn is not None and (fn.get("ret") or "").rstrip().endswith("&") and v.op == "ptr":
                    return "P", v.a[0]
                return "V", v
            vs = [self.rval(s, x) for x in e.get("a") or []]
            self.emit(s, "callback", None, mk("ilist", *vs), "()", e, info=c)
            return "V", mk("call", "callback", c, *vs)
        r = cxxlib.intrinsic(self, s, e, name)
        if r is not None:
            return r
        fn = self.F.fns.get(fid)
        if e.get("virt"):
            fn = self.resolve(s, e, fid)
        if fn is not None and self.caninline(fn, e):
            this = None
            if e.get("obj") is not None and not fn.get("static"):
                this = self.objplace(s, e)
            elif fn.get("cls") and not fn.get("static"):
                this = self.frame.this
            if s.dead:
                return "V", UNDEF
            s2, v = self.invoke(s, fn, this, e.get("a") or [], e)
            if s2 is not s:
                s.assign(s2)
            if (fn.get("ret") or "").rstrip().endswith("&"):
                return "P", self.deref(v) if not s.dead else mk("tmp", "dead")
            return "V", v
        return self.opaquecall(s, e, fn, name)

    def resolve(self, s, e, fid):
        targets = [fid] + list(self.alloverrides(fid))
        targets = [t for t in targets if t in self.F.fns and self.F.fns[t].get("body")]
        o = e.get("obj")
        if o is not None:
            if o.get("k") == "this":
                c = self.frame.this
            else:
                st = s.copy()
                self.muted += 1
                self.recs, rr = [], self.recs
                try:
                    c = self.objplace(st, e)
                finally:
                    self.muted -= 1
                    self.recs = rr
            cls = None
            if c is not None and c.op in ("this",):
                cls = c.a[0]
            elif c is not None and c.op == "obj":
                cls = c.a[1]
            if cls:
                best = self.lookup(cls, targets)
                if best:
                    return self.F.fns[best]
        if len(targets) == 1:
            return self.F.fns[targets[0]]
        return None

    def alloverrides(self, fid, seen=None):
        seen = seen if seen is not None else set()
        for o in self.F.overrides.get(fid, ()):
            if o not in seen:
                seen.add(o)
                self.alloverrides(o, seen)
        return seen

    def lookup(self, cls, targets):
        bycls = {self.F.fns[t]["cls"]: t for t in targets}
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in bycls:
                return bycls[c]
            r = self.F.recs.get(c)
            if r:
                for b in r.get("bases") or []:
                    todo.append(b["n"] if isinstance(b, dict) else b)
        return None

    def opaquecall(self, s, e, fn, name):
        short = name.replace("freud::", "")
        a = e.get("a") or []
        obj = None
        vals = []
        places = []
        if e.get("obj") is not None:
            op = self.objplace(s, e)
            obj = op
        ps = (fn or {}).get("ps") or []
        for i, x in enumerate(a):
            nonconstref = i < len(ps) and ps[i]["t"].rstrip().endswith("&") and not ps[i]["t"].startswith("const ")
            if nonconstref and not ps[i]["t"].rstrip().endswith("&&"):
                p = self.lval(s, x)
                places.append(p)
                vals.append(self.load(s, p))
            else:
                vals.append(self.rval(s, x))
        opn = e.get("op")
        isval = fn is not None and self.isvalue(fn)
        if s.dead:
            return "V", UNDEF
        if opn and (isval or opn in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "%")) and not opn in ("[]", "()", "->"):
            xs = ([self.load(s, obj)] if obj is not None else []) + vals
            if opn in ("+=", "-=", "*=", "/="):
                p = obj if obj is not None else (self.lval(s, a[0]))
                rhs = vals[-1]
                self.store(s, p, self.binop(opn[:-1], self.load(s, p), rhs), opn, e)
                return "P", p
            if opn == "=":
                p = obj if obj is not None else self.lval(s, a[0])
                self.store(s, p, vals[-1], "=", e)
                return "P", p
            if len(xs) == 2:
                return "V", self.binop(opn, xs[0], xs[1])
            if len(xs) == 1 and opn == "-":
                return "V", mk("op", "neg", xs[0])
        const = e.get("cm") or isval or (fn is not None and fn.get("const"))
        ev = self.emit(s, "call", obj, mk("ilist", *vals), short, e, info=e)
        site = self.ctx(self.frame.ctx if self.frame else 0, e)
        if obj is not None:
            ov = self.load(s, obj)
            if const:
                res = mk("call", short, ov, *vals)
            else:
                res = mk("call", short, mk("ptr", obj), *(vals + [mk("site", site, self.loopstack[-1:] )]))
                if opn == "=" and len(vals) == 1:
                    self.store(s, obj, vals[0], "=", e)
                    return "P", obj
                self.store(s, obj, mk("call", "mod:" + short, *( [ov] + vals)), "mutcall", e)
        else:
            res = mk("call", short, *vals)
        for p in places:
            self.store(s, p, mk("call", "out:" + short, *vals), "outarg", e)
        ret = (fn or {}).get("ret") or ""
        if ret.rstrip().endswith("&") and not isval:
            return "V", res
        return "V", res
