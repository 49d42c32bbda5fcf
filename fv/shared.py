"""Notions shared by several rules over evaluator terms."""
from .terms import T, mk, lit, islit, walk, root, show, ancestors
from .facts import strip_targs
from . import cxx

OPAQUE = {"freud::locality::NeighborList::find_first_index", "freud::locality::NeighborList::bisection_search"}


def entries(F, lam=False):
    """Functions analysed as entry points: everything with a body that is not a lambda nor a template helper
    whose parameter is a closure (those are analysed where they are called)."""
    out = []
    for i, f in sorted(F.fns.items()):
        if not f.get("body") and not f.get("ctor"):
            continue
        if f.get("lam") or "(lambda at" in i:
            continue
        if f.get("implicit"):
            continue
        if f.get("file", "").endswith(("VectorMath.h", "Wigner3j.cc")):
            continue
        if any("std::function" in p["t"] for p in f.get("ps") or []) and not f.get("cls"):
            continue
        out.append(i)
    return out


def simple(fn):
    """fn id without parameter text, for stable construct names."""
    n = strip_targs(fn)
    n = n.split("@")[0] if n.startswith("lambda@") else n
    i = n.find("(")
    return n[:i] if i > 0 else n


def evfn(ev):
    """The named function an event happens in (the innermost non-lambda function on the stack)."""
    for f, _ in reversed(ev.stack):
        if not f.startswith("lambda@"):
            return simple(f)
    return simple(ev.fn)


def owner_fn(ev):
    """Innermost function, naming lambdas by their enclosing function."""
    f = ev.fn
    while f.startswith("lambda@"):
        i = f.find("@", 7)
        if i < 0:
            break
        f = f[i + 1:]
    return simple(f)


def placename(p):
    """Stable human-readable name of a place: field/variable path without positions."""
    o = p.op
    if o == "fld":
        return placename(p.a[0]) + "." + p.a[1]
    if o == "idx":
        return placename(p.a[0]) + "[]"
    if o == "var":
        v = p.a[0]
        return v.split(":")[2] if v.startswith("p:") else v.split(":")[0]
    if o == "this":
        return "this"
    if o in ("deref",):
        v = p.a[0]
        if v.op in ("ld", "hv", "ho"):
            return "*" + placename(v.a[-1])
        return "*" + show(v, 2)
    if o == "pobj":
        return str(p.a[0])
    if o == "obj":
        return "new " + strip_targs(str(p.a[1]))
    if o == "tls":
        return "tls " + placename(p.a[0])
    if o == "glob":
        return str(p.a[0])
    if o == "slocal":
        return "static " + str(p.a[0]).split(":")[0]
    if o == "tmp":
        return "tmp"
    return o
