"""The nanobind tables: which Python name reaches which native function, with argument names."""
import re
from . import cxx
from .facts import strip_targs, Broken
from .terms import T, mk, show, walk


class Method:
    def __init__(self):
        self.name = self.kind = self.fnid = self.fn = self.init = self.lam = None
        self.argnames, self.nones, self.extras = [], set(), []
        self.file, self.line = "", 0
        self.params = []    # native parameters without self: (name, type)
        self.ret = None
        self.const = None

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.name, self.fn or self.init or self.lam, self.argnames)


class NClass:
    def __init__(self, q, cxxname, base):
        self.q, self.cxx, self.base = q, cxxname, base
        self.methods = {}


def targs(s):
    """Top-level template arguments of the last <...> group."""
    i = s.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in s[i + 1:s.rfind(">")]:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<(["
        d -= ch in ">)]"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strs(t):
    """String literal inside a term."""
    for x in walk(t):
        if x.op == "lit" and isinstance(x.a[0], str):
            v = x.a[0]
            return v[4:] if v.startswith("str:") else v
    return None


def text(n):
    """String literal inside an AST node."""
    if isinstance(n, dict):
        if n.get("k") == "str":
            return n["v"]
        for k in ("e", "obj"):
            if k in n:
                r = text(n[k])
                if r is not None:
                    return r
        for x in n.get("a") or []:
            r = text(x)
            if r is not None:
                return r
    return None


def find(n, pred):
    if isinstance(n, dict):
        if pred(n):
            return n
        for v in n.values():
            r = find(v, pred)
            if r is not None:
                return r
    elif isinstance(n, list):
        for x in n:
            r = find(x, pred)
            if r is not None:
                return r
    return None


class Bindings:
    def __init__(self, F):
        self.F = F
        self.classes = {}    # 'freud._density.RDF' -> NClass
        self.funcs = {}      # 'freud._density.make_gaussian_density' -> Method
        self.enums = {}      # 'freud._density.NormalizationMode' -> {pyname: native enumerator}
        self.bycxx = {}
        n = 0
        for name, ids in sorted(F.byname.items()):
            short = name.split("::")[-1]
            for i in ids:
                f = F.fns[i]
                if not f.get("body") or not f.get("file", "").split("/")[-1].startswith(("export-", "module-")):
                    continue
                if not any("nanobind::module_" in p["t"] for p in f.get("ps") or []):
                    continue
                E = cxx.Engine(F)
                E.run(i)
                self.scan(E)
                n += 1
        if n < 10 or len(self.classes) < 15:
            raise Broken("only %d binding functions / %d bound classes found" % (n, len(self.classes)))

    def module(self, ev):
        return "freud._" + ev.file.split("/")[0]

    def scan(self, E):
        names = {}
        for e in E.events:
            if e.kind == "ctor" and isinstance(e.info, dict):
                cls = e.info.get("cls") or ""
                if cls.startswith("nanobind::class_<"):
                    a = targs(cls)
                    py = text(e.info["a"][1]) if len(e.info["a"]) > 1 else None
                    if py is None:
                        py = strs(e.value)
                    if py is None:
                        continue
                    q = self.module(e) + "." + py
                    c = NClass(q, a[0], next((x for x in a[1:] if x.startswith("freud::")), None))
                    self.classes[q] = c
                    self.bycxx[a[0]] = c
                    names[cls] = c
                elif cls.startswith("nanobind::enum_<"):
                    py = text(e.info["a"][1]) or strs(e.value)
                    q = self.module(e) + "." + str(py)
                    self.enums[q] = {}
                    names[cls] = q
            elif e.kind == "call" and isinstance(e.info, dict):
                cls = e.info.get("cls") or ""
                m = e.info.get("m") or (e.info.get("fn") or "").split("::")[-1]
                if cls.startswith("nanobind::enum_<") and m == "value" and cls in names:
                    a = e.info["a"]
                    en = find(a[1], lambda n: n.get("dk") == "enum")
                    self.enums[names[cls]][text(a[0])] = (en or {}).get("qn")
                elif cls.startswith("nanobind::class_<") and m.startswith("def") and cls in names:
                    self.method(names[cls], m, e)
                elif cls.startswith("nanobind::module_") and m == "def":
                    mm = self.mk("def", e, e.info["a"])
                    if mm.name:
                        self.funcs[self.module(e) + "." + mm.name] = mm

    def method(self, c, kind, e):
        a = e.info["a"]
        if not a:
            return
        init = find(a[0], lambda n: (n.get("cls") or "").startswith("nanobind::init<"))
        if init is not None and text(a[0]) is None:
            mm = Method()
            mm.kind, mm.name = "init", "__init__"
            mm.init = targs(init["cls"])
            mm.file, mm.line = e.file, e.line
            self.extras(mm, a[1:])
            mm.params = [("", t) for t in mm.init]
        else:
            mm = self.mk(kind, e, a)
        c.methods.setdefault(mm.name, []).append(mm)

    def mk(self, kind, e, a):
        mm = Method()
        mm.kind = kind
        mm.name = text(a[0])
        mm.file, mm.line = e.file, e.line
        ref = find(a[1], lambda n: n.get("dk") == "func") if len(a) > 1 else None
        if ref is not None:
            mm.fnid, mm.fn = ref["id"], strip_targs(ref["fn"])
            f = self.F.fns.get(mm.fnid)
            if f is not None:
                ps = [(p["n"], p["t"]) for p in f.get("ps") or []]
                mm.ret = f.get("rt") or ref.get("t")
                mm.const = f.get("cm")
                if not f.get("cls") or f.get("static"):
                    ps = ps[1:] if kind == "def" and ps and e.info.get("cls", "").startswith("nanobind::class_") else ps
                mm.params = ps
            mm.rt = ref.get("t")
        else:
            fld = find(a[1], lambda n: n.get("dk") in ("other", "field", "member") and n.get("k") == "ref") if len(a) > 1 else None
            lam = find(a[1], lambda n: n.get("k") == "lambda") if len(a) > 1 else None
            if lam is not None:
                mm.lam = lam
            elif fld is not None:
                mm.field = fld["n"]
                mm.ftype = fld.get("t")
        mm.nargs = a
        self.extras(mm, a[2:])
        return mm

    def extras(self, mm, rest):
        for x in rest:
            s = find(x, lambda n: (n.get("cls") or "").startswith("nanobind::arg"))
            t = text(x)
            if s is not None and t is not None:
                mm.argnames.append(t)
                if find(x, lambda n: n.get("m") == "none") is not None:
                    mm.nones.add(t)
            else:
                mm.extras.append(x)

    def lookup(self, q, name):
        """Methods of bound class q (following bound bases)."""
        c = self.classes.get(q)
        seen = 0
        while c is not None and seen < 6:
            if name in c.methods:
                return c, c.methods[name]
            c = self.bycxx.get(c.base) if c.base else None
            seen += 1
        return None, []


def load(ctx):
    F = ctx.cxx(None, "only")
    return Bindings(F)
