"""Constructor/representation agreement over the Python syntax: for every public class with a __repr__, the constructor
and then __repr__ are evaluated abstractly in one state, and the resulting string template (f-string, str.format,
concatenation) is parsed as a constructor call of the class. The rule: the template names the class in its public module,
gives every constructor parameter exactly once, and the value placed at a parameter comes from the same source as the
property of that name (same native accessor and element, same attribute, or the constructor parameter itself); axis
parameters of histogram classes (r_max, x_max, bins ...) come from the matching axis and end of the bounds or bin arrays."""
import string
from ..terms import T, mk, lit, walk, islit, show
from .. import pyeval
from ..link import Link


def sources(t, path=()):
    """Where a value comes from: native accessor + element path, or constructor parameter."""
    out = set()
    o = t.op
    if o == "param":
        return {("param", t.a[0])}
    if o == "sub":
        i = t.a[1]
        if islit(i):
            k = "last" if i.a[0] == -1 else i.a[0]
        elif i.op == "op" and i.a[0] == "-" and islit(i.a[2]) and i.a[2].a[0] == 1 and any(x.op == "bi" and x.a[0] == "len" for x in walk(i)):
            k = "last"
        elif i.op == "slice":
            return sources(t.a[0], path)
        else:
            k = "?"
        return sources(t.a[0], (k,) + path)
    if o == "call":
        f = t.a[0]
        if f.op == "attr" and (f.a[0].op == "nat" or (f.a[0].op == "attr" and f.a[0].a[1] == "_cpp_obj")):
            return {("get", f.a[1], path)}
        if f.op == "attr" and f.a[1] in ("toNumpyArray", "tolist", "item", "copy", "format", "join", "to_dict"):
            out |= sources(f.a[0], path)
            for x in t.a[1]:
                out |= sources(x)
            return out
        if f.op == "attr":
            out |= sources(f.a[0])
        for x in t.a[1]:
            p = path if f.op in ("bi", "ext") and f.a[0].split(".")[-1] in ("array", "asarray", "list", "tuple", "float", "int", "copy", "squeeze") else ()
            out |= sources(x, p)
        for k, x in t.a[2]:
            out |= sources(x)
        return out
    if o == "attr":
        if t.a[0].op == "nat" or (t.a[0].op == "attr" and t.a[0].a[1] == "_cpp_obj"):
            return {("get", t.a[1], path)}
        if t.a[0].op == "self":
            return {("attr", t.a[1], path)}
        return sources(t.a[0], path)
    if o in ("lit", "null", "cls", "bi", "ext", "native", "self", "mod", "fn"):
        return set()
    if o == "nat":
        return set()
    if o in ("new",):
        return {("new", t.a[0].q)}
    if o == "comp":
        for x in t.a[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    out |= sources(y)
        return out
    if o == "elt":
        return sources(t.a[1])
    if o == "ite":
        for x in t.a:
            out |= sources(x, path)
        return out
    if o == "exc":
        for x in t.a[2]:
            out |= sources(x)
        return out
    for x in t.a:
        if isinstance(x, T):
            out |= sources(x, ())
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    out |= sources(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            out |= sources(z)
    return out


def template(v):
    """Flatten a string-valued term to a list of text pieces and holes, or None."""
    if v.op == "lit" and isinstance(v.a[0], str):
        return [v.a[0]]
    if v.op == "fstr":
        out = []
        for x in v.a[0]:
            r = template(x)
            out += r if r is not None and x.op == "lit" else [x]
        return out
    if v.op == "op" and v.a[0] == "+":
        a, b = template(v.a[1]), template(v.a[2])
        a = [v.a[1]] if a is None else a
        b = [v.a[2]] if b is None else b
        return a + b
    if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] == "format" and islit(v.a[0].a[0]):
        out = []
        kw = {k: x for k, x in v.a[2]}
        n = 0
        for text, name, spec, conv in string.Formatter().parse(v.a[0].a[0].a[0]):
            out.append(text)
            if name is not None:
                if name == "":
                    x = v.a[1][n] if n < len(v.a[1]) else None
                    n += 1
                elif name.isdigit():
                    x = v.a[1][int(name)] if int(name) < len(v.a[1]) else None
                else:
                    x = kw.get(name)
                if x is None:
                    return None
                out.append(mk("call", mk("bi", "repr"), (x,), ()) if conv == "r" else x)
        return out
    if v.op == "ite":
        return None
    return None


def holes(v):
    """(prefix text, [(name or None, [pieces])]) of a constructor-call template, or None."""
    ps = template(v)
    if ps is None:
        return None
    text, hs = "", []
    for p in ps:
        if isinstance(p, str):
            text += p
        else:
            text += "\x00%d\x01" % len(hs)
            hs.append(p)
    i = text.find("(")
    if i < 0 or not text.rstrip().endswith(")"):
        return None
    head, body = text[:i], text.rstrip()[i + 1:-1]
    args, d, cur, q = [], 0, "", None
    for ch in body:
        if q:
            q = None if ch == q else q
        elif ch in "'\"":
            q = ch
        elif ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0 and not q:
            args.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        args.append(cur)
    out = []
    for a in args:
        a = a.strip()
        name, eq, val = a.partition("=")
        if eq and name.strip().isidentifier():
            out.append((name.strip(), val.strip()))
        else:
            out.append((None, a))
    return head, out, hs


AXIS = {"r": 0, "x": 0, "k": 0, "y": 1, "z": 2}


def alias(p, src):
    if src[0] != "get":
        return False
    g, path = src[1].lower(), src[2]
    if "bound" in g:
        if "_" in p and p.split("_")[0] in AXIS:
            end = {"max": 1, "min": 0}.get(p.split("_")[1])
            return path in ((AXIS[p.split("_")[0]], end), (end,)) or (path and path[-1] == "last" and end == 1 and len(path) == 1)
        return False
    if "axissize" in g or "nbins" in g:
        return p in ("bins", "num_k_values")
    if "bincenter" in g or "binedge" in g:
        if p in ("bins", "num_k_values"):
            return len(path) <= 1 and "last" not in path
        if p.endswith("_max"):
            return bool(path) and path[-1] == "last"
        if p.endswith("_min"):
            return bool(path) and path[-1] == 0
    return False


def arith(t):
    return sorted({x.a[0] for x in walk(t) if x.op == "op" and x.a[0] in ("+", "*", "/", "**", "%", "//", "neg")})


def stringy(v):
    """The value is a string in every case."""
    if v.op == "ite":
        return all(stringy(x) or x.op == "null" for x in v.a[1:]) and any(stringy(x) for x in v.a[1:])
    return v.op == "lit" and isinstance(v.a[0], str)


def check(ctx):
    ctx.rule("R1: the representation names every constructor parameter exactly once and nothing else, in the class's own module")
    ctx.rule("R2: the value given for a parameter comes from the source of the property of that name")
    L = Link(ctx)
    n = nh = 0
    for c in L.P.classes():
        o, ds = L.P.find(c, "__repr__")
        if not o or c.name.startswith("_") or c.q not in L.ctor:
            continue
        node = ds[0][1]
        file = "freud/%s.py" % o.mod.name.split(".")[-1]
        Ei, si = L.ctor[c.q]
        io, ids = L.P.find(c, "__init__")
        a = ids[0][1].args
        params = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
        E = L.engine()
        s0 = si.copy() if si else pyeval.State()
        s0.guards = ()
        s, v = E.run(c, "__repr__", s=s0.copy())
        ctx.fnset |= E.visited
        n += 1
        if v is None:
            continue
        h = holes(v)
        if h is None:
            # not one template: at least every parameter's value has to appear in it
            have = sources(v)
            for p in params:
                want = expected(L, c, p, s0)
                ok = any(s1 in want or alias(p, s1) for s1 in have)
                ctx.ob(ok, "R1", "%s.__repr__ gives %s" % (c.q, p), "constructor parameter %s does not appear in the representation" % p, file, node.lineno)
            continue
        head, args, hs = h
        hd = head
        import re as _re
        mod = c.mod.name + "."
        ids_ = [int(x) for x in _re.findall("\x00(\\d+)\x01", head)]
        rest = _re.sub("\x00\\d+\x01", "", head)
        okh = (rest == mod and len(ids_) == 1) or rest == mod + c.name or (len(ids_) == 2 and rest == ".")
        ctx.ob(okh, "R1", "%s.__repr__ names the class" % c.q, "the representation starts with %r, which does not name %s" % (rest, c.q), file, node.lineno)
        seen = {}
        pos = list(params)
        for nm, val in args:
            if nm is None:
                nm = next((p for p in pos if p not in seen), None)
            if nm is None:
                ctx.fail("R1", "%s.__repr__ argument %s" % (c.q, val), "more arguments than constructor parameters", file, node.lineno)
                continue
            ctx.ob(nm in params, "R1", "%s.__repr__ argument %s" % (c.q, nm), "%s is not a constructor parameter" % nm, file, node.lineno)
            ctx.ob(nm not in seen, "R1", "%s.__repr__ %s once" % (c.q, nm), "%s is given twice" % nm, file, node.lineno, sample=False)
            seen[nm] = val
        for p in params:
            if p not in seen:
                ctx.fail("R1", "%s.__repr__ gives %s" % (c.q, p), "constructor parameter %s is missing from the representation: eval(repr(obj)) falls back to its default" % p, file, node.lineno)
                continue
            val = seen[p]
            idx = [int(x) for x in _re.findall("\x00(\\d+)\x01", val)]
            nh += 1
            if not idx:
                ctx.fail("R2", "%s.__repr__ value of %s" % (c.q, p), "%s is a constant in the representation" % p, file, node.lineno)
                continue
            bad = None
            for i in idx:
                t = hs[i]
                src = sources(t)
                want = expected(L, c, p, s0)
                for s1 in src:
                    if s1 in want or alias(p, s1) or s1 == ("param", p) or s1[0] == "new":
                        continue
                    bad = "%s is taken from %s, but the property %s comes from %s" % (p, s1, p, sorted(map(str, want)) or "nothing")
                if not src:
                    bad = "%s does not depend on the object" % p
                ar = [x for x in arith(t) if x not in wantarith(L, c, p, s0)]
                if ar and not bad:
                    bad = "%s is changed by %s before it is printed" % (p, "/".join(ar))
                if stringy(t) and not any(q in val for q in "'\"") and not bad:
                    bad = "the string value of %s is printed without quotes" % p
            ctx.ob(bad is None, "R2", "%s.__repr__ value of %s" % (c.q, p), bad or "", file, node.lineno)
    ctx.need(n, 25, "classes with a representation")
    ctx.need(nh, 40, "constructor parameters in representations")


def prop(L, c, p, s0):
    o, ds = L.P.find(c, p)
    E = L.engine()
    me = mk("self", c)
    if o and any(k in ("property", "computed") for k, _ in ds):
        s, v = E.run(c, p, s=s0.copy())
        return v
    return s0.heap.get((me, p))


def expected(L, c, p, s0):
    v = prop(L, c, p, s0)
    out = sources(v) if v is not None else set()
    me = mk("self", c)
    for nm in (p, "_" + p):
        v = s0.heap.get((me, nm))
        if v is not None:
            out |= sources(v)
    return out | {("param", p), ("attr", p, ()), ("attr", "_" + p, ())}


def wantarith(L, c, p, s0):
    v = prop(L, c, p, s0)
    return arith(v) if v is not None else []
