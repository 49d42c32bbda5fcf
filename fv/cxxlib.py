"""Models of the library types the sources use (std containers and pointers, TBB, ManagedArray)."""
from .terms import T, mk, lit, islit, truth, NULL, UNDEF, TRUE, FALSE, root, show
from .facts import strip_targs
import re

CONT = {"std::vector", "std::array", "std::deque", "std::list", "std::map", "std::unordered_map", "std::set",
        "std::unordered_set", "std::basic_string", "std::__cxx11::basic_string", "tbb::detail::d1::concurrent_vector",
        "std::multimap", "std::queue", "std::stack", "std::initializer_list"}
PURE = {"sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "floor", "ceil", "abs", "fabs", "exp", "log",
        "pow", "fmod", "min", "max", "round", "rint", "cbrt", "cbrtf", "sqrtf", "sinf", "cosf", "powf", "conj", "real",
        "imag", "arg", "polar", "norm", "hypot", "isnan", "isinf", "clamp", "fmin", "fmax", "lround", "trunc", "erf",
        "cyl_bessel_j", "cyl_j0", "infinity", "epsilon", "lowest", "to_string", "isfinite", "signbit", "copysign", "exp2",
        "log2", "log10", "floorf", "ceilf", "fabsf", "expf", "remainder", "fma", "nearbyint", "lrint"}


def par(E, s, e, kind, n_body, ranges, callargs, body):
    """Evaluate a closure as the body of a parallel construct."""


def intrinsic(E, s, e, name):
    f = M.get(name)
    if f is not None:
        return f(E, s, e)
    cls = strip_targs(e.get("cls") or "") if e.get("obj") is not None else ""
    m = name.rsplit("::", 1)[-1]
    if "<" in name and e.get("op"):
        m = "operator" + e["op"]    # a long template name was cut
    a = e.get("a") or []
    # smart pointers
    if cls in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::weak_ptr", "std::__uniq_ptr_impl"):
        return smart(E, s, e, cls, m)
    if name.startswith("std::") and m in ("make_shared", "make_unique", "allocate_shared"):
        return make(E, s, e, m)
    if cls == "freud::util::ManagedArray":
        r = managed(E, s, e, m)
        if r is not None:
            return r
    if "enumerable_thread_specific_iterator" in cls or "enumerable_thread_specific_iterator" in name:
        return etsit(E, s, e, m)
    if cls.endswith("enumerable_thread_specific") or cls.endswith("combinable"):
        return ets(E, s, e, m)
    if "flattened2d" in cls or "flattened2d" in name:
        p = E.objplace(s, e)
        v = E.load(s, p)
        if m == "begin":
            return "V", mk("ptr", E.idx(p, lit(0)))
        if m == "end":
            return "V", mk("ptr", E.idx(p, E.get(v, "#size")))
        return "V", mk("call", "flat." + m, v)
    if cls.endswith("blocked_range"):
        p = E.objplace(s, e)
        v = E.load(s, p)
        return "V", E.get(v, {"begin": "#b", "end": "#e"}.get(m, "#" + m))
    if cls.endswith("blocked_range2d"):
        p = E.objplace(s, e)
        return "P", E.fld(p, "#" + m)
    if cls in CONT:
        r = container(E, s, e, cls, m)
        if r is not None:
            return r
    if cls.endswith("__normal_iterator") or cls.endswith("_iterator") or "_iterator" in cls or name.startswith("__gnu_cxx::operator"):
        r = iterator(E, s, e, m)
        if r is not None:
            return r
    if cls == "std::atomic" or cls.startswith("std::__atomic"):
        return atomic(E, s, e, m)
    if cls == "std::complex" or name.startswith("std::operator") and "complex" in (e.get("t") or ""):
        r = arith(E, s, e, m)
        if r is not None:
            return r
    if cls in ("std::pair", "std::tuple") and m == "operator=":
        p = E.objplace(s, e)
        E.store(s, p, E.rval(s, a[0]), "=", e)
        return "P", p
    if cls == "std::function" and m == "operator=":
        p = E.objplace(s, e)
        E.store(s, p, E.rval(s, a[0]), "=", e)
        return "P", p
    if "basic_ostream" in name or "basic_ostringstream" in name or "stringstream" in cls or (e.get("op") == "<<" and a and "stream" in (a[0].get("t") or "")):
        for x in a[1:] if e.get("obj") is None else a:
            E.rval(s, x)
        return "V", mk("opaque", "stream", id(e))
    if cls in ("std::mutex", "std::recursive_mutex", "std::shared_mutex") or cls.endswith("mutex"):
        p = E.objplace(s, e)
        if m == "lock":
            s.locks = s.locks + (p,)
        elif m == "unlock":
            s.locks = tuple(x for x in s.locks if x is not p)
        return "V", UNDEF
    if (name.startswith("std::") or "::" not in name) and m in PURE and e.get("obj") is None:
        return "V", mk("call", m.rstrip("f") if m in ("sqrtf", "sinf", "cosf", "cbrtf", "powf", "floorf", "ceilf", "fabsf", "expf") else m, *[E.rval(s, x) for x in a])
    if m == "_mm_load_ss" and len(a) == 1:
        x = E.rval(s, a[0])
        return "V", E.load(s, x.a[0]) if x.op == "ptr" else mk("call", m, x)
    if m in ("_mm_cvtt_ss2si", "_mm_cvttss_si32") and len(a) == 1:
        return "V", mk("op", "toint", E.rval(s, a[0]))
    if name.startswith("std::") and "mersenne_twister" not in cls and m in ALG and e.get("obj") is None:
        return algorithm(E, s, e, m)
    if name.startswith("tbb::") and m == "parallel_sort":
        return algorithm(E, s, e, "sort")
    if name.startswith("tbb::") and m in ("parallel_for", "parallel_for_each", "parallel_reduce", "parallel_invoke", "parallel_scan", "parallel_deterministic_reduce"):
        return parallel(E, s, e, m)
    if name.startswith("tbb::") and m == "flatten2d":
        p = E.lval(s, a[0])
        return "V", mk("call", "flattened", mk("tls", p))
    if name.startswith("std::operator") and e.get("op") in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/") and len(a) == 2:
        x, y = E.rval(s, a[0]), E.rval(s, a[1])
        return "V", E.binop(e["op"], x, y)
    if name.startswith("tbb::") and e.get("op") in ("==", "!="):
        xs = [E.rval(s, x) for x in a]
        return "V", E.binop(e["op"], *xs) if len(xs) == 2 else UNDEF
    if name.startswith("freud::box::Box::") and m == "operator=":
        p = E.objplace(s, e)
        E.store(s, p, E.rval(s, a[0]), "=", e)
        return "P", p
    if m == "operator=" and e.get("obj") is not None and len(a) == 1:
        fn = E.F.fns.get(e.get("f"))
        if fn is None or fn.get("implicit") or not fn.get("body"):
            v = E.rval(s, a[0])
            p = E.objplace(s, e)
            E.store(s, p, v, "=", e)
            return "P", p
    return None


def move(E, s, e):
    return "P", E.lval(s, e["a"][0])


def refwrap(E, s, e):
    return "P", E.lval(s, e["a"][0])


def swap(E, s, e):
    a, b = [E.lval(s, x) for x in e["a"]]
    va, vb = E.load(s, a), E.load(s, b)
    E.store(s, a, vb, "swap", e)
    E.store(s, b, va, "swap", e)
    return "V", UNDEF


def memset(E, s, e):
    p = E.deref(E.rval(s, e["a"][0]))
    c = E.norm(p)
    sz = E.rval(s, e["a"][2]) if len(e["a"]) > 2 else None
    E.store(s, c, E.rval(s, e["a"][1]), "memset", e)
    return "V", UNDEF


def memcpy(E, s, e):
    p = E.deref(E.rval(s, e["a"][0]))
    q = E.deref(E.rval(s, e["a"][1]))
    E.store(s, E.norm(p), E.load(s, E.norm(q)), "memcpy", e)
    return "V", UNDEF


M = {"std::move": move, "std::forward": move, "std::ref": refwrap, "std::cref": refwrap, "std::swap": swap,
     "memset": memset, "std::memset": memset, "memcpy": memcpy, "std::memcpy": memcpy, "std::as_const": move}


def smart(E, s, e, cls, m):
    p = E.objplace(s, e)
    a = e.get("a") or []
    if m == "operator=":
        v = E.rval(s, a[0]) if a else NULL
        E.store(s, p, v, "=", e)
        return "P", p
    if m == "reset":
        v = E.rval(s, a[0]) if a else NULL
        E.store(s, p, v, "=", e)
        return "V", UNDEF
    v = E.load(s, p)
    if m == "operator*":
        return "P", E.deref(v)
    if m in ("operator->", "get", "lock"):
        return "V", v
    if m in ("operator bool",):
        return "V", E.neg(E.binop("==", v, NULL))
    if m == "operator[]":
        return "P", E.index(v, E.rval(s, a[0]))
    if m == "swap":
        q = E.lval(s, a[0])
        w = E.load(s, q)
        E.store(s, p, w, "swap", e)
        E.store(s, q, v, "swap", e)
        return "V", UNDEF
    if m == "release":
        E.store(s, p, NULL, "=", e)
        return "V", v
    return "V", mk("call", "sp." + m, v)


def make(E, s, e, m):
    """make_shared/make_unique: a new heap object of the element type, constructed from the arguments."""
    t = e.get("t") or ""
    i = t.find("<")
    elem = t[i + 1:t.rfind(">")]
    if elem.startswith("freud") or True:
        # cut a second template argument (deleter) at depth 0
        d = 0
        for j, ch in enumerate(elem):
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif ch == "," and d == 0:
                elem = elem[:j]
                break
    elem = elem.strip()
    p = mk("obj", E.ctx(E.frame.ctx, e), elem)
    a = e.get("a") or []
    b = strip_targs(elem)
    if b.startswith("const "):
        b = b[6:]
    E.store(s, p, UNDEF, "new", e, declare=True)
    if b == "freud::util::ManagedArray":
        if a and strip_targs(a[0].get("t", "")).replace("const ", "").strip(" &") == b:
            v = E.rval(s, a[0])
            E.store(s, p, v, "new", e, declare=True)
        else:
            sh = E.rval(s, a[0]) if a else mk("ilist", lit(0))
            E.store(s, E.fld(p, "#shape"), sh, "init", e, declare=True)
            E.store(s, E.fld(p, "#data"), lit(0), "init", e, declare=True)
        E.emit(s, "alloc", p, E.load(s, p), "new", e, info=elem)
        return "V", mk("ptr", p)
    # find the constructor by argument count and types
    ct = pickctor(E, elem, a)
    if ct is not None and E.caninline(ct, e):
        for r in E.recs:
            r["declared"].add(p)
        r, _ = E.invoke(s, ct, p, a, e)
        if r is not s:
            s.assign(r)
        E.emit(s, "alloc", p, None, "new", e, info=elem)
        return "V", mk("ptr", p)
    vs = [E.rval(s, x) for x in a]
    if b in ("std::vector",):
        if len(vs) == 1 and not (a[0].get("t") or "").startswith(("std::vector", "const std::vector")):
            E.store(s, p, mk("fill", lit(0), vs[0]), "new", e, declare=True)
            E.store(s, E.fld(p, "#size"), vs[0], "init", e, declare=True)
        elif vs:
            E.store(s, p, vs[0], "new", e, declare=True)
        else:
            E.store(s, p, mk("empty"), "new", e, declare=True)
            E.store(s, E.fld(p, "#size"), lit(0), "init", e, declare=True)
    elif len(vs) == 1 and strip_targs((a[0].get("t") or "").replace("const ", "").strip(" &")) == b:
        E.store(s, p, vs[0], "new", e, declare=True)
    else:
        E.store(s, p, mk("call", "new:" + b, *vs), "new", e, declare=True)
    E.emit(s, "alloc", p, mk("ilist", *vs), "new", e, info=elem)
    return "V", mk("ptr", p)


def norm_t(t):
    t = (t or "").replace("const ", "").replace("&", "").strip()
    return t


NUM = ("float", "double", "int", "unsigned", "long", "short", "char", "bool", "size_t", "enum")


def pickctor(E, elem, a):
    elem = elem.replace("const ", "") if elem.startswith("const ") else elem
    c = []
    for i, f in E.F.fns.items():
        if f.get("ctor") and f.get("cls") == elem:
            c.append(f)
    best = None
    bs = -1
    for f in c:
        ps = f.get("ps") or []
        req = len([p for p in ps if p.get("def") is None])
        if not (req <= len(a) <= len(ps)):
            continue
        sc = 0
        bad = False
        for p, x in zip(ps, a):
            pt, xt = norm_t(p["t"]), norm_t(x.get("t"))
            if pt == xt or strip_targs(pt) == strip_targs(xt):
                sc += 2
            elif pt.split()[0] in NUM and xt.split()[0:1] and xt.split()[0] in NUM:
                sc += 1
            elif strip_targs(pt) in ("std::shared_ptr", "std::function") or pt.endswith("*"):
                sc += 0 if xt.split()[0:1] and xt.split()[0] not in NUM else -5
            elif pt == elem or xt == elem:
                bad = True
        if bad or sc < 0:
            continue
        if sc > bs:
            best, bs = f, sc
    return best


def managed(E, s, e, m):
    a = e.get("a") or []
    if m == "operator()":
        p = E.objplace(s, e)
        q = E.idx(E.fld(p, "#data"), *[E.rval(s, x) for x in a])
        if E.accesses:
            E.emit(s, "acc", q, None, "()", e)
        return "P", q
    if m == "operator[]":
        p = E.objplace(s, e)
        q = E.idx(E.fld(p, "#data"), E.rval(s, a[0]))
        if E.accesses:
            E.emit(s, "acc", q, None, "[]", e)
        return "P", q
    if m in ("get", "data", "begin", "cbegin"):
        p = E.objplace(s, e)
        if m == "data":
            return "V", mk("ptr", E.idx(E.fld(p, "#data"), lit(0)))
        return "V", mk("ptr", E.idx(E.fld(p, "#data"), lit(0)))
    if m in ("end", "cend"):
        p = E.objplace(s, e)
        return "V", mk("ptr", E.idx(E.fld(p, "#data"), mk("call", "masize", E.base(s, E.fld(p, "#shape")))))
    if m == "size":
        p = E.objplace(s, e)
        sh = E.base(s, E.fld(p, "#shape"))
        if sh.op == "ilist" and len(sh.a) == 1:
            return "V", sh.a[0]
        return "V", mk("call", "masize", sh)
    if m == "shape":
        p = E.objplace(s, e)
        return "P", E.fld(p, "#shape")
    if m == "reset":
        p = E.objplace(s, e)
        E.store(s, E.fld(p, "#data"), lit(0), "reset", e)
        return "V", UNDEF
    if m == "prepare":
        p = E.objplace(s, e)
        E.store(s, E.fld(p, "#shape"), E.rval(s, a[0]), "=", e)
        E.store(s, E.fld(p, "#data"), lit(0), "reset", e)
        return "V", UNDEF
    if m == "copy":
        p = E.objplace(s, e)
        q = mk("obj", E.ctx(E.frame.ctx, e), "freud::util::ManagedArray")
        E.store(s, q, E.load(s, p), "new", e, declare=True)
        return "V", mk("ptr", q)
    if m == "operator=":
        p = E.objplace(s, e)
        E.store(s, p, E.rval(s, a[0]), "=", e)
        return "P", p
    if m == "getIndex":
        p = E.objplace(s, e)
        return "V", mk("call", "maindex", E.base(s, E.fld(p, "#shape")), *[E.rval(s, x) for x in a])
    if m == "getMultiIndex":
        p = E.objplace(s, e)
        return "V", mk("call", "mamulti", E.base(s, E.fld(p, "#shape")), *[E.rval(s, x) for x in a])
    return None


def ets(E, s, e, m):
    p = E.objplace(s, e)
    a = e.get("a") or []
    t = mk("tls", p)
    if m == "local":
        # looked up outside every parallel region: the copy of the calling thread, not of whoever uses it later
        return "P", t if E.parstack else mk("tls", p, "outer")
    if m == "clear":
        iv = E.base(s, p)
        v = UNDEF
        E.store(s, t, mk("fresh", p), "clear", e)
        return "V", UNDEF
    if m in ("begin", "end"):
        return "V", mk("etsit", p, m)
    if m == "operator=":
        v = E.rval(s, a[0])
        E.store(s, p, v, "=", e)
        E.store(s, t, E.get(v, "#init0"), "clear", e, silent=True)
        return "P", p
    if m == "combine_each":
        c = E.rval(s, a[0])
        if c.op == "clo":
            def once(x):
                r, _ = E.closure_call(x, c, [("P", t)], e)
                if r is not x:
                    x.assign(r)
            E.loopgen(s, e, once, None, "combine")
        return "V", UNDEF
    if m == "combine":
        c = E.rval(s, a[0])
        return "V", mk("call", "combine", E.load(s, t), c)
    if m == "size":
        return "V", mk("call", "nthreads", mk("ptr", p))
    return "V", mk("call", "ets." + m, mk("ptr", p))


def etsit(E, s, e, m):
    a = e.get("a") or []
    if e.get("obj") is not None:
        p = E.objplace(s, e)
        v = E.load(s, p)
        base = v
        while base.op in ("hv", "lv", "ho", "op", "amb", "upd"):
            nxt = None
            if base.op == "lv":
                nxt = (E.lvs or {}).get(base, (None,))[0]
            elif base.op in ("hv", "ho"):
                nxt = E.loops.get(base.a[0], {}).get("upd", {}).get(base.a[1], (None,))[0]
                if nxt is None:
                    nxt = E.etsinit.get(p) if hasattr(E, "etsinit") else None
            else:
                nxt = base.a[1]
            if nxt is None:
                break
            base = nxt
        if m in ("operator*", "operator->"):
            if base.op == "etsit":
                t = mk("tls", base.a[0])
                return ("P", t) if m == "operator*" else ("V", mk("ptr", t))
            return "V", mk("opaque", "ets*", id(e))
        if m.startswith("operator++"):
            E.store(s, p, mk("op", "+", v, lit(1)), "++", e)
            return "P", p
        if m in ("operator==", "operator!="):
            return "V", mk("op", m[8:], v, E.rval(s, a[0]))
    xs = [E.rval(s, x) for x in a]
    return "V", mk("op", m.replace("operator", ""), *xs)


def container(E, s, e, cls, m):
    a = e.get("a") or []
    p = E.objplace(s, e)
    if s.dead:
        return "V", UNDEF
    sz = E.fld(p, "#size")
    if m in ("operator[]", "at"):
        q = E.idx(p, E.rval(s, a[0]))
        if m == "at":
            E.emit(s, "at", q, None, "at", e)
        elif E.accesses:
            E.emit(s, "acc", q, None, "[]", e)
        if cls in ("std::map", "std::unordered_map"):
            for r in E.recs:
                r["changed"].setdefault(p, []).append(("insert", s.guards))
            E.emit(s, "insert", p, None, "operator[]", e)
        return "P", q
    if m in ("size", "length"):
        t = e.get("obj", {}).get("t", "")
        if cls == "std::array":
            mm = re.search(r",\s*(\d+)U?L?>", t)
            if mm:
                return "V", lit(int(mm.group(1)))
        return "V", E.base(s, sz)
    if m == "empty":
        return "V", E.binop("==", E.base(s, sz), lit(0))
    if m in ("data", "begin", "cbegin"):
        return "V", mk("ptr", E.idx(p, lit(0)))
    if m in ("end", "cend"):
        return "V", mk("ptr", E.idx(p, E.base(s, sz)))
    if m == "front":
        return "P", E.idx(p, lit(0))
    if m == "back":
        return "P", E.idx(p, E.binop("-", E.base(s, sz), lit(1)))
    if m in ("push_back", "emplace_back"):
        n = E.base(s, sz)
        if m == "push_back" or len(a) == 1:
            v = E.rval(s, a[0])
        else:
            t = e.get("cls") or ""
            elem = t[t.find("<") + 1:t.rfind(">")]
            d = 0
            for j, ch in enumerate(elem):
                d += ch == "<"
                d -= ch == ">"
                if ch == "," and d == 0:
                    elem = elem[:j]
                    break
            ct = pickctor(E, elem.strip(), a)
            q = mk("tmp", E.ctx(E.frame.ctx, e))
            if ct is not None and E.caninline(ct, e):
                E.store(s, q, UNDEF, "new", e, declare=True)
                r, _ = E.invoke(s, ct, q, a, e)
                if r is not s:
                    s.assign(r)
                v = E.load(s, q)
            else:
                v = mk("call", "new:" + strip_targs(elem), *[E.rval(s, x) for x in a])
        if s.dead:
            return "V", UNDEF
        E.emit(s, "append", p, v, m, e)
        q = E.idx(p, n)
        E.store(s, q, v, "append", e, silent=True)
        E.store(s, sz, E.binop("+", n, lit(1)), "++", e, silent=True)
        return "P", q
    if m == "insert" or m == "emplace":
        vs = [E.rval(s, x) for x in a]
        E.emit(s, "insert", p, mk("ilist", *vs), m, e)
        old = E.load(s, p)
        E.store(s, p, mk("call", "inserted", old, *vs), "insert", e, silent=True)
        return "V", mk("call", "insert", *vs)
    if m in ("clear",):
        E.emit(s, "clear", p, None, m, e)
        E.store(s, p, mk("empty"), "clear", e, silent=True)
        E.store(s, sz, lit(0), "=", e, silent=True)
        return "V", UNDEF
    if m in ("resize",):
        n = E.rval(s, a[0])
        E.emit(s, "resize", p, n, m, e)
        old = E.load(s, p)
        fillv = E.rval(s, a[1]) if len(a) > 1 else lit(0)
        E.store(s, p, mk("fill", fillv, n) if old.op in ("empty", "undef") or (old.op == "upd" and old.a[0].op == "empty") else mk("call", "resized", old, n), "resize", e, silent=True)
        E.store(s, sz, n, "=", e, silent=True)
        return "V", UNDEF
    if m == "assign":
        vs = [E.rval(s, x) for x in a]
        E.emit(s, "assign", p, mk("ilist", *vs), m, e)
        if len(vs) == 2 and vs[0].op != "ptr":
            E.store(s, p, mk("fill", vs[1], vs[0]), "=", e, silent=True)
            E.store(s, sz, vs[0], "=", e, silent=True)
        else:
            E.store(s, p, mk("call", "range", *vs), "=", e, silent=True)
        return "V", UNDEF
    if m in ("reserve", "shrink_to_fit"):
        for x in a:
            E.rval(s, x)
        return "V", UNDEF
    if m == "operator=":
        v = E.rval(s, a[0])
        E.store(s, p, v, "=", e)
        if v.op == "ilist":
            E.store(s, sz, lit(len(v.a)), "=", e, silent=True)
        return "P", p
    if m == "swap":
        q = E.lval(s, a[0])
        v, w = E.load(s, p), E.load(s, q)
        E.store(s, p, w, "swap", e)
        E.store(s, q, v, "swap", e)
        return "V", UNDEF
    if m == "fill":
        v = E.rval(s, a[0])
        E.store(s, p, mk("fill", v, lit(0)), "fill", e)
        return "V", UNDEF
    if m in ("erase", "pop_back", "pop_front", "push_front"):
        vs = [E.rval(s, x) for x in a]
        E.emit(s, m, p, mk("ilist", *vs), m, e)
        old = E.load(s, p)
        E.store(s, p, mk("call", m, old, *vs), m, e, silent=True)
        return "V", UNDEF
    if m in ("count", "find", "contains", "lower_bound", "upper_bound", "str", "substr", "compare", "c_str"):
        vs = [E.rval(s, x) for x in a]
        if m == "find" and cls in ("std::map", "std::unordered_map"):
            return "V", mk("ptr", E.idx(p, vs[0]))
        return "V", mk("call", "c." + m, E.load(s, p), *vs)
    if m == "operator+=":
        E.rval(s, a[0])
        return "P", p
    return None


def iterator(E, s, e, m):
    a = e.get("a") or []
    op = e.get("op")
    xs = []
    p = None
    if e.get("obj") is not None:
        p = E.objplace(s, e)
        v = E.load(s, p)
        xs.append(v)
    if m == "operator*":
        return "P", E.deref(xs[0])
    if m == "operator->":
        return "V", xs[0]
    if m == "operator[]":
        return "P", E.index(xs[0], E.rval(s, a[0]))
    if m.startswith("operator++") or m.startswith("operator--"):
        E.store(s, p, E.binop("+" if "++" in m else "-", xs[0], lit(1)), "++" if "++" in m else "--", e)
        if a:
            return "V", xs[0]
        return "P", p
    if m in ("operator+=", "operator-="):
        v = E.rval(s, a[0])
        E.store(s, p, E.binop(m[8], xs[0], v), m[8:], e)
        return "P", p
    xs += [E.rval(s, x) for x in a]
    if op and len(xs) == 2 and op in ("+", "-", "==", "!=", "<", ">", "<=", ">="):
        return "V", E.binop(op, xs[0], xs[1])
    if m == "base":
        return "V", xs[0]
    return None


def atomic(E, s, e, m):
    p = E.objplace(s, e)
    a = e.get("a") or []
    v = E.load(s, p)
    if m in ("load",) or m.startswith("operator ") or m.startswith("operator_"):
        return "V", v
    vs = [E.rval(s, x) for x in a]
    E.store(s, p, mk("call", "atomic." + m, v, *vs), "atomic:" + m, e)
    return "V", mk("call", "atomic." + m, v, *vs)


def arith(E, s, e, m):
    a = e.get("a") or []
    op = e.get("op")
    if e.get("obj") is not None:
        p = E.objplace(s, e)
        if m == "operator=":
            E.store(s, p, E.rval(s, a[0]), "=", e)
            return "P", p
        if op in ("+=", "-=", "*=", "/="):
            v = E.rval(s, a[0])
            E.store(s, p, E.binop(op[:-1], E.load(s, p), v), op, e)
            return "P", p
        if m in ("real", "imag") and not a:
            return "V", mk("call", m, E.load(s, p))
        return None
    if op and len(a) == 2:
        return "V", E.binop(op, E.rval(s, a[0]), E.rval(s, a[1]))
    if op == "-" and len(a) == 1:
        return "V", mk("op", "neg", E.rval(s, a[0]))
    return None


ALG = {"for_each", "transform", "sort", "stable_sort", "copy", "copy_if", "copy_n", "fill", "fill_n", "accumulate", "any_of", "all_of",
       "none_of", "count_if", "count", "iota", "lower_bound", "upper_bound", "find_if", "find", "generate", "partition",
       "stable_partition", "remove_if", "remove", "unique", "reverse", "max_element", "min_element", "transform_reduce",
       "reduce", "inner_product", "partial_sum", "nth_element", "partial_sort", "equal", "is_sorted", "back_inserter", "distance", "next",
       "prev", "advance", "get", "make_pair", "tie", "make_tuple", "adjacent_find", "begin", "end", "minmax_element", "size", "plus"}


def seqof(E, v):
    """(container place, start index) of an iterator value."""
    if v.op == "ptr":
        p = v.a[0]
        if p.op == "idx" and len(p.a) == 2:
            return p.a[0], p.a[1]
        return p, lit(0)
    if v.op == "op" and v.a[0] == "+" and len(v.a) == 3:
        c, i = seqof(E, v.a[1])
        return c, E.add(i, v.a[2])
    if v.op == "op" and v.a[0] == "-" and len(v.a) == 3:
        c, i = seqof(E, v.a[1])
        return c, E.binop("-", i, v.a[2])
    d = E.deref(v)
    if d.op == "idx" and len(d.a) == 2:
        return d.a[0], d.a[1]
    return d, lit(0)


def callfn(E, s, e, c, args):
    """Call a predicate/function value on ('P'/'V') arguments."""
    if c.op == "clo":
        r, v = E.closure_call(s, c, args, e)
        if r is not s:
            s.assign(r)
        return v
    if c.op == "fnref":
        ids = [i for i in E.F.byname.get(strip_targs(str(c.a[0])), []) if E.F.fns[i].get("body")]
        if len(ids) == 1:
            r, v = E.invoke(s, E.F.fns[ids[0]], None, args, e, preval=None)
            if r is not s:
                s.assign(r)
            return v
    return mk("call", "apply", c, *[E.load(s, x) if k == "P" else x for k, x in args])


def algorithm(E, s, e, m):
    a = e.get("a") or []
    if a and "execution" in (a[0].get("t") or ""):
        a = a[1:]
    if m == "get":
        p = E.lval(s, a[0])
        f = e.get("f") or ""
        mm = re.search(r"get<(\d+)", f)
        return "P", E.fld(p, ("first", "second")[int(mm.group(1))] if mm and int(mm.group(1)) < 2 else "b" + (mm.group(1) if mm else "?"))
    if m in ("make_pair",):
        return "V", mk("struct", "std::pair", (("first", E.rval(s, a[0])), ("second", E.rval(s, a[1]))))
    if m in ("begin", "end", "size"):
        p = E.lval(s, a[0])
        if m == "begin":
            return "V", mk("ptr", E.idx(p, lit(0)))
        if m == "end":
            return "V", mk("ptr", E.idx(p, E.base(s, E.fld(p, "#size"))))
        return "V", E.base(s, E.fld(p, "#size"))
    if m == "back_inserter":
        p = E.lval(s, a[0])
        return "V", mk("backins", p)
    vs = [E.rval(s, x) for x in a]
    if s.dead:
        return "V", UNDEF
    if m in ("distance",):
        return "V", E.binop("-", vs[1], vs[0])
    if m in ("next", "prev"):
        return "V", E.binop("+" if m == "next" else "-", vs[0], vs[1] if len(vs) > 1 else lit(1))
    if m in ("sort", "stable_sort", "nth_element", "partial_sort"):
        c, i = seqof(E, vs[0])
        cmpv = next((v for v in vs[1:] if v.op in ("clo", "fnref") or (v.op == "call" and str(v.a[0]).startswith("new:"))), None)
        E.emit(s, "sort", c, vs[-1], m, e, info=(i, vs[1], cmpv, e))
        old = E.load(s, c)
        size = E.base(s, E.fld(c, "#size"))
        E.store(s, c, mk("call", "sorted", old, cmpv if cmpv is not None else NULL), "sort", e, silent=True)
        E.store(s, E.fld(c, "#size"), size, "=", e, silent=True)
        return "V", UNDEF
    if m in ("fill", "fill_n", "iota", "generate"):
        c, i = seqof(E, vs[0])
        v = vs[-1]
        E.store(s, c, mk("fill", v, mk("opaque", "len", id(e))) if m.startswith("fill") else mk("call", m, v), m, e)
        return "V", UNDEF
    L = "%s:%s:%d" % (E.frame.fn.get("file", ""), e.get("l"), E.ctx(E.frame.ctx, e))
    lv = mk("lv", L)
    if m in ("for_each", "any_of", "all_of", "none_of", "count_if", "find_if", "remove_if", "partition", "stable_partition"):
        c, i = seqof(E, vs[0])
        E.lvinfo(lv, i, "++", L)
        el = E.idx(c, lv)
        res = []

        def once(t):
            res.append(callfn(E, t, e, vs[2], [("P", el)]))
        E.loopgen(s, e, once, None, m)
        if m in ("remove_if", "partition", "stable_partition"):
            E.store(s, c, mk("call", m, E.load(s, c), res[-1]), m, e)
        return "V", mk("call", m, vs[0], vs[1], res[-1] if res else NULL)
    if m in ("transform", "copy", "copy_if", "copy_n"):
        c, i = seqof(E, vs[0])
        E.lvinfo(lv, i, "++", L)
        if m == "transform" and len(vs) == 5:
            c2, i2 = seqof(E, vs[2])
            out, fnv, srcs = vs[3], vs[4], [("P", E.idx(c, lv)), ("P", E.idx(c2, lv))]
        elif m == "transform":
            out, fnv, srcs = vs[2], vs[3], [("P", E.idx(c, lv))]
        else:
            out, fnv, srcs = vs[2], vs[3] if m == "copy_if" else None, [("P", E.idx(c, lv))]

        def once(t):
            if m == "transform":
                v = callfn(E, t, e, fnv, srcs)
            else:
                if m == "copy_if":
                    E.guard(t, callfn(E, t, e, fnv, srcs), True)
                    if t.dead:
                        return
                v = E.load(t, srcs[0][1])
            if out.op == "backins":
                E.emit(t, "append", out.a[0], v, m, e)
                E.store(t, out.a[0], mk("call", "appended", v), "append", e, silent=True)
            else:
                oc, oi = seqof(E, out)
                E.store(t, E.idx(oc, lv), v, m, e)
        E.loopgen(s, e, once, None, m)
        return "V", mk("call", m, *vs)
    if m in ("accumulate", "reduce", "transform_reduce", "inner_product", "max_element", "min_element", "count"):
        conts = []
        for v in vs[:1]:
            c, i = seqof(E, v)
            conts.append(mk("call", "elems", E.load(s, c)))
        if m in ("max_element", "min_element"):
            c, i = seqof(E, vs[0])
            return "V", mk("ptr", E.idx(c, mk("call", "argext:" + m, conts[0])))
        return "V", mk("call", m, *(conts + vs[2:]))
    return "V", mk("call", m, *vs)


def parallel(E, s, e, m):
    a = e.get("a") or []
    vs = [None] * len(a)
    rng = E.rval(s, a[0])
    E.npar = getattr(E, "npar", 0)
    pid = "par:%s:%s:%d" % (E.frame.fn.get("file", ""), e.get("l"), E.ctx(E.frame.ctx, e))
    rt = (a[0].get("t") or "")
    rest = [E.rval(s, x) for x in a[1:]]
    clo = next((v for v in rest if v.op == "clo"), None)
    oldpar = E.parstack
    E.parstack = oldpar + (pid,)
    E.loops.setdefault(pid, {})["range"] = rng
    E.loops[pid]["isrange"] = "blocked_range" in rt
    try:
        if "blocked_range2d" in rt:
            v = mk("struct", "blocked_range2d", (
                ("#rows", mk("struct", "blocked_range", (("#b", mk("pb", pid, "r")), ("#e", mk("pe", pid, "r"))))),
                ("#cols", mk("struct", "blocked_range", (("#b", mk("pb", pid, "c")), ("#e", mk("pe", pid, "c")))))))
        elif "blocked_range" in rt:
            v = mk("struct", "blocked_range", (("#b", mk("pb", pid)), ("#e", mk("pe", pid))))
        else:
            v = mk("pi", pid)
        if clo is None:
            E.unknown["parallel body"] = E.unknown.get("parallel body", 0) + 1
            return "V", UNDEF
        res = []

        def once(t):
            args = [("V", v)]
            if m in ("parallel_reduce", "parallel_deterministic_reduce"):
                args.append(("V", rest[0]))
            r, x = E.closure_call(t, clo, args, e)
            res.append(x)
            if r is not t:
                t.assign(r)
        E.loopgen(s, e, once, None, "par")
        if m == "parallel_for_each":
            pass
    finally:
        E.parstack = oldpar
    if m in ("parallel_reduce", "parallel_deterministic_reduce"):
        return "V", mk("call", "parallel_reduce", rest[0], res[-1] if res else NULL)
    return "V", UNDEF
