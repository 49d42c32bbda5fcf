"""Parsed Python sources of the library: modules, classes with resolved bases, functions, imports."""
import ast, os
from .facts import REPO, Broken

PLOT = {"plot", "_repr_png_", "to_image"}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = []
        self.defs = {}      # name -> list of (kind, FunctionDef) kind: method/property/setter/computed/classmethod/staticmethod
        self.attrs = {}     # class-level assignments

    @property
    def q(self):
        return "%s.%s" % (self.mod.name, self.name)

    def __repr__(self):
        return "<Cls %s>" % self.q


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src, path)
        self.imports = {}   # local name -> dotted target
        self.classes, self.funcs, self.assigns = {}, {}, {}


def decos(fn):
    return [ast.unparse(d) for d in fn.decorator_list]


def kind(fn):
    for d in decos(fn):
        if d.endswith("_computed_property"):
            return "computed"
        if d == "property" or d.endswith("cached_property"):
            return "property"
        if d.endswith(".setter"):
            return "setter"
        if d.endswith("classmethod"):
            return "classmethod"
        if d.endswith("staticmethod"):
            return "staticmethod"
        if d.endswith(".deleter"):
            return "deleter"
    return "method"


class Py:
    def __init__(self):
        self.mods = {}
        d = REPO + "/freud"
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                n = "freud" if f == "__init__.py" else "freud." + f[:-3]
                try:
                    self.mods[n] = Mod(n, os.path.join(d, f))
                except SyntaxError as e:
                    raise Broken("%s does not parse: %s" % (f, e))
        for m in self.mods.values():
            self.scan(m, m.tree.body)
        for m in self.mods.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Cls):
                        c.bases.append(r)

    def scan(self, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                src = n.module or ""
                if n.level:
                    src = "freud" + ("." + src if src else "")
                for a in n.names:
                    m.imports[a.asname or a.name] = src + "." + a.name
            elif isinstance(n, ast.ClassDef):
                c = Cls(m, n)
                m.classes[n.name] = c
                for x in n.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        c.defs.setdefault(x.name, []).append((kind(x), x))
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = x.value
                    elif isinstance(x, ast.AnnAssign) and x.value is not None and isinstance(x.target, ast.Name):
                        c.attrs[x.target.id] = x.value
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.funcs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.assigns[n.target.id] = n.value
            elif isinstance(n, ast.If):
                self.scan(m, n.body)
                self.scan(m, n.orelse)
            elif isinstance(n, ast.Try):
                # a definition in the last handler is the always-available fallback; the first wins here
                for h in n.handlers:
                    self.scan(m, h.body)
                self.scan(m, n.body)
                self.scan(m, n.orelse)

    def lookup(self, m, name, depth=0):
        """A module-level name: Cls | ('func', mod, node) | ('mod', dotted) | ('val', mod, expr) | ('ext', dotted) | None"""
        if depth > 8:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return ("func", m, m.funcs[name])
        if name in m.imports:
            return self.dotted(m.imports[name], depth + 1)
        if name in m.assigns:
            return ("val", m, m.assigns[name])
        return None

    def dotted(self, d, depth=0):
        if d in self.mods:
            return ("mod", d)
        if "." in d:
            p, n = d.rsplit(".", 1)
            if p in self.mods:
                r = self.lookup(self.mods[p], n, depth + 1)
                if r is not None:
                    return r
            if p + "." + n in self.mods:
                return ("mod", p + "." + n)
        return ("ext", d)

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, tuple) and b[0] in ("mod", "ext"):
                return self.dotted(b[1] + "." + e.attr)
        return None

    def mro(self, c):
        out, st = [], [c]

        def rec(k):
            if k in out:
                return
            out.append(k)
            for b in k.bases:
                rec(b)
        rec(c)
        return out

    def find(self, c, name, after=None):
        """(owner class, [(kind, node)...]) of attribute name along the MRO."""
        seen = after is None
        for k in self.mro(c):
            if not seen:
                seen = k is after
                continue
            if name in k.defs:
                return k, k.defs[name]
            if name in k.attrs:
                return k, [("attr", k.attrs[name])]
        return None, None

    def classes(self, skip=("freud.plot",)):
        for m in self.mods.values():
            if m.name in skip:
                continue
            for c in m.classes.values():
                yield c

    def members(self, c):
        """name -> (owner, defs) over the MRO."""
        out = {}
        for k in self.mro(c):
            for n in list(k.defs) + list(k.attrs):
                if n not in out:
                    out[n] = self.find(c, n)
        return out


def load():
    p = Py()
    if len(p.mods) < 10:
        raise Broken("only %d Python modules found" % len(p.mods))
    return p
