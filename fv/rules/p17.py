"""P17: the derived quantities of a box follow from its current parameters.

The methods of the native box are evaluated symbolically along histories (every constructor, in 2D and 3D, then every setter, with every
accessor read before and after; the thorough tier takes every pair of setters), and each accessor's term is brought into a normal form and
compared with the formula in the current lengths, tilt factors, dimensionality and periodic flags:
R1 lengths, inverse lengths, tilts, dimensionality, periodic flags, volume, lowest and highest coordinates, lattice vectors, plane distances.
R2 fractional coordinates, absolute coordinates, wrapping, images and unwrapping.
R3 two boxes compare equal exactly when all parameters are equal (native == and !=, and the Python ==).
R4 the Python class keeps no other copy of box parameters.
R5 the Python class's exports (dictionary, parameter tuple, matrix, lengths and angles) are the current parameters under those names.
"""
from .. import cxx
from ..link import Link
from ..ratfun import Norm, Undefined
from ..region import Region
from ..shared import OPAQUE, simple
from ..terms import T, mk, lit, islit, walk, root, show
from ..vec import comp, AXES

BOX = "freud::box::Box"
TILTS = ("xy", "xz", "yz")
P = lambda n: mk("param", n)
O = lambda o, *a: mk("op", o, *a)


class Model:
    def __init__(self, L, tilt, d2, per=(True, True, True)):
        self.d2 = d2
        self.L = (L[0], L[1], lit(0) if d2 else L[2])
        self.tilt = dict(zip(TILTS, tilt))
        self.per = tuple(per)

    def lattice(self, i):
        L, t = self.L, self.tilt
        if i == 0:
            return (L[0], lit(0), lit(0))
        if i == 1:
            return (O("*", L[1], t["xy"]), L[1], lit(0))
        return (O("*", L[2], t["xz"]), O("*", L[2], t["yz"]), L[2])

    def absolute(self, f):
        """origin + sum of f_k a_k, the box centred at zero."""
        out = []
        for c in range(3):
            if c == 2 and self.d2:
                out.append(lit(0))
                continue
            s = lit(0)
            for k in range(2 if self.d2 else 3):
                s = O("+", s, O("*", O("-", f[k], lit(0.5)), self.lattice(k)[c]))
            out.append(s)
        return out

    def fractional(self, v):
        L, t = self.L, self.tilt
        vx, vy, vz = v
        half = lit(0.5)
        if self.d2:
            return [O("+", O("/", O("-", vx, O("*", t["xy"], vy)), L[0]), half), O("+", O("/", vy, L[1]), half), lit(0)]
        y = O("-", vy, O("*", t["yz"], vz))
        x = O("-", O("-", vx, O("*", t["xy"], vy)), O("*", O("-", t["xz"], O("*", t["xy"], t["yz"])), vz))
        return [O("+", O("/", x, L[0]), half), O("+", O("/", y, L[1]), half), O("+", O("/", vz, L[2]), half)]


class Boxes:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = ctx.cxx(None, True)
        self.this = mk("this", BOX)
        self.m = {}
        for i, f in sorted(self.F.fns.items()):
            if f.get("cls") == BOX and not f.get("implicit") and (f.get("body") or f.get("ctor")) and not f.get("lam"):
                self.m.setdefault(simple(i).split("::")[-1], []).append((i, f))
        self.seen = set()

    def find(self, name, n, kind=None):
        for i, f in self.m.get(name, []):
            ps = f.get("ps") or []
            if len(ps) == n and (kind is None or all(k in str(p["t"]) for k, p in zip(kind, ps))):
                return i, f
        return None

    def run(self, i, f, mem, args=()):
        E = cxx.Engine(self.F, inline_box=True, opaque=OPAQUE)
        mem = {p: x for p, x in mem.items() if root(p).op in ("this", "pobj")}     # no locals of earlier calls
        s, v = E.run(i, cxx.S(mem, ()), self.this, {p["n"]: a for p, a in zip(f.get("ps") or [], args)})
        self.ctx.visited(E)
        return E, (dict(s.mem) if s is not None else None), v

    def ob(self, ok, rule, name, hist, msg, f):
        """One obligation per accessor; the first failing history is reported."""
        k = (rule, name)
        if ok is None:
            return
        if not ok:
            if k in self.seen:
                return
            self.seen.add(k)
            self.ctx.ob(False, rule, name, "%s after %s" % (msg, hist), f.get("file"), f.get("line"))
        else:
            self.ctx.ob(True, rule, "%s after %s" % (name, hist), msg, f.get("file"), f.get("line"))


def check(ctx):
    B = Boxes(ctx)
    ctors, nset = constructors(B), 0
    ctx.need(len(ctors), 3, "constructors of the box")
    start = []
    for name, i, f, args, M in ctors:
        E, mem, v = B.run(i, f, {}, args)
        if mem is None:
            continue
        mem = observe(B, mem, M, name)
        if sum(1 for p in f["ps"] if "float" in str(p["t"])) == 6:
            start.append((name, mem, M))
    sets = setters(B)
    ctx.need(len(sets), 8, "setters of the box")
    for name, mem, M in start:
        level = [(name, mem, M)]
        for depth in range(2 if ctx.tier == "thorough" else 1):
            nxt = []
            for nm, me, mo in level:
                for sn, i, f, args, new in sets:
                    E, m2, v = B.run(i, f, me, args)
                    if m2 is None:
                        continue
                    h = nm + ", " + sn
                    M2 = new(mo, M)
                    m2 = observe(B, m2, M2, h)
                    nxt.append((h, m2, M2))
            level = nxt
        # the three periodic flags together, symbolically
        for sn, i, f, args, new in sets:
            if sn != "setPeriodic":
                continue
            fl = [P("p" + x) for x in AXES]
            E, m1, v = B.run(i, f, mem, fl)
            if m1 is None:
                continue
            flags(B, m1, fl, name + ", setPeriodic")
            for k, x in enumerate(AXES):
                w = B.find("setPeriodic" + x.upper(), 1)
                if w:
                    E, m2, v = B.run(w[0], w[1], m1, [P("new")])
                    if m2 is not None:
                        flags(B, m2, [P("new") if j == k else q for j, q in enumerate(fl)], name + ", setPeriodic, setPeriodic" + x.upper())
    equality(B)
    pyequal(ctx)


def constructors(B):
    out = []
    for i, f in B.m.get("Box", []):
        ps = f.get("ps") or []
        k = [("b" if "bool" in str(p["t"]) else "f" if "float" in str(p["t"]) else "?") for p in ps]
        if not ps or "?" in k:
            continue
        nf = k.count("f")
        for d2 in (False, True):
            if nf == 1:
                fl = [P("L")]
                M = Model([P("L")] * 3, [lit(0)] * 3, d2)
            elif nf == 3:
                fl = [P("Lx"), P("Ly"), P("Lz")]
                M = Model(fl, [lit(0)] * 3, d2)
            elif nf == 6:
                fl = [P(x) for x in ("Lx", "Ly", "Lz") + TILTS]
                M = Model(fl[:3], fl[3:], d2)
            else:
                continue
            it = iter(fl)
            args = [next(it) if x == "f" else lit(d2) for x in k]
            out.append(("Box(%d lengths and tilts%s)" % (nf, ", 2D" if d2 else ""), i, f, args, M))
    return out


def setters(B):
    out = []

    def put(name, n, args, new, label=None):
        w = B.find(name, n)
        if w:
            out.append((label or name, w[0], w[1], args, new))
    put("setL", 3, [P("nx"), P("ny"), P("nz")], lambda m, o: Model([P("nx"), P("ny"), P("nz")], [m.tilt[t] for t in TILTS], m.d2, m.per))
    for t in TILTS:
        put("setTiltFactor" + t.upper(), 1, [P("new" + t)], lambda m, o, t=t: Model(m.L, [P("new" + t) if u == t else m.tilt[u] for u in TILTS], m.d2, m.per))
    for v in (True, False):
        put("set2D", 1, [lit(v)], lambda m, o, v=v: Model(m.L, [m.tilt[u] for u in TILTS], v, m.per), "set2D(%s)" % str(v).lower())
    put("setPeriodic", 3, [lit(False), lit(True), lit(False)], lambda m, o: Model(m.L, [m.tilt[u] for u in TILTS], m.d2, (False, True, False)))
    for k, a in enumerate(AXES):
        for v in (False, True):
            put("setPeriodic" + a.upper(), 1, [lit(v)], lambda m, o, k=k, v=v: Model(m.L, [m.tilt[u] for u in TILTS], m.d2, tuple(v if j == k else p for j, p in enumerate(m.per))),
                "setPeriodic%s(%s)" % (a.upper(), str(v).lower()))
    return out


def flags(B, mem, want, hist):
    for k, a in enumerate(AXES):
        w = B.find("getPeriodic" + a.upper(), 0)
        if w:
            E, m2, v = B.run(w[0], w[1], mem)
            B.ob(v is want[k] if isinstance(v, T) else None, "R1", "Box::getPeriodic" + a.upper(), hist, "the periodic flag is not the current one", w[1])
    w = B.find("getPeriodic", 0)
    if w:
        E, m2, v = B.run(w[0], w[1], mem)
        for k, a in enumerate(AXES):
            B.ob(component(v, a, k) is want[k] if isinstance(v, T) else None, "R1", "Box::getPeriodic " + a, hist, "the periodic flag is not the current one", w[1])


def observe(B, mem, M, hist):
    """Every accessor, in order, on the state; the state after reading (accessors may fill caches)."""
    N = Norm()
    flat = islit(M.L[2]) and M.L[2].a[0] == 0

    def eq(a, b):
        try:
            return N.same(a, b)
        except Undefined:
            return None

    def read(name, n=0, args=(), kind=None):
        nonlocal mem
        w = B.find(name, n, kind)
        if not w:
            return None
        E, m2, v = B.run(w[0], w[1], mem, args)
        if m2 is None or not isinstance(v, T):
            return None
        mem = m2
        return w[1], v

    def scalar(name, want, rule="R1"):
        r = read(name)
        if r:
            B.ob(eq(r[1], want), rule, "Box::" + name, hist, "%s does not follow from the current parameters" % name, r[0])

    def vector(name, want, rule="R1", n=0, args=(), kind=None, label=None):
        r = read(name, n, args, kind)
        if not r:
            return
        for k, a in enumerate(AXES):
            if want[k] is None:
                continue
            B.ob(eq(component(r[1], a, k), want[k]), rule, "Box::%s %s" % (label or name, a), hist, "the %s component does not follow from the current parameters" % a, r[0])

    for k, a in enumerate(AXES):
        scalar("getL" + a, M.L[k])
        p = read("getPeriodic" + a.upper())
        if p:
            B.ob(islit(p[1]) and bool(p[1].a[0]) == M.per[k] if islit(p[1]) else None, "R1", "Box::getPeriodic" + a.upper(), hist, "the periodic flag is not the current one", p[0])
    p = read("getPeriodic")
    if p:
        for k, a in enumerate(AXES):
            c = component(p[1], a, k)
            B.ob(bool(c.a[0]) == M.per[k] if islit(c) else None, "R1", "Box::getPeriodic " + a, hist, "the periodic flag is not the current one", p[0])
    d = read("is2D")
    if d:
        B.ob(bool(d[1].a[0]) == M.d2 if islit(d[1]) else None, "R1", "Box::is2D", hist, "the dimensionality is not the current one", d[0])
    for t in TILTS:
        scalar("getTiltFactor" + t.upper(), M.tilt[t])
    vector("getL", M.L)
    vector("getLinv", [O("/", lit(1), M.L[0]), O("/", lit(1), M.L[1]), lit(0) if M.d2 else None if flat else O("/", lit(1), M.L[2])])
    vector("getMaxCoord", [O("/", x, lit(2)) for x in M.L])
    vector("getMinCoord", [O("neg", O("/", x, lit(2))) for x in M.L])
    scalar("getVolume", O("*", M.L[0], M.L[1]) if M.d2 else O("*", O("*", M.L[0], M.L[1]), M.L[2]))
    for i in range(2 if M.d2 else 3):
        vector("getLatticeVector", M.lattice(i), n=1, args=[lit(i)], label="getLatticeVector(%d)" % i)
    planes(B, M, N, read, hist, flat)
    if flat and not M.d2:
        return mem
    f = [P("fx"), P("fy"), P("fz")]
    fs = mk("struct", "vec3<float>", tuple(zip(AXES, f)))
    v = [P("vx"), P("vy"), lit(0) if M.d2 else P("vz")]
    vs = mk("struct", "vec3<float>", tuple(zip(AXES, v)))
    if B.find("makeAbsolute", 1):
        vector("makeAbsolute", M.absolute(f), "R2", 1, [ref(fs, mem)])
    mem = unref(mem)
    vector("makeFractional", M.fractional(v), "R2", 1, [ref(vs, mem)])
    mem = unref(mem)
    wrapping(B, M, N, read, hist, vs, v, mem)
    mem = unref(mem)
    image(B, M, N, hist, vs, v, mem)
    mem = unref(mem)
    unwrapping(B, M, N, hist, mem)
    return mem


def ref(val, mem):
    """A by-reference argument."""
    p = mk("pobj", "arg")
    mem[p] = val
    return mk("ptr", p)


def unref(mem):
    return {p: x for p, x in mem.items() if p.op != "pobj"}


def component(v, a, k):
    while v.op == "upd" and isinstance(v.a[1], tuple) and v.a[1] == ("f", "#size"):
        v = v.a[0]
    if v.op == "ilist" and len(v.a) == 3:
        return v.a[k]
    return comp(v, a)


def planes(B, M, N, read, hist, flat):
    """Distance of opposite faces: volume over the area of the face, compared squared."""
    r = read("getNearestPlaneDistance")
    if not r or flat and not M.d2:
        return
    L, t = M.L, M.tilt
    lx, ly, lz = L
    sq = lambda x: O("*", x, x)
    if M.d2:
        want = [None if not zero(t["xz"]) or not zero(t["yz"]) else O("/", sq(lx), O("+", lit(1), sq(t["xy"]))), None if not zero(t["yz"]) else sq(ly), None]
    else:
        g = O("-", O("*", t["xy"], t["yz"]), t["xz"])
        want = [O("/", sq(lx), O("+", O("+", lit(1), sq(t["xy"])), sq(g))), O("/", sq(ly), O("+", lit(1), sq(t["yz"]))), sq(lz)]
    for k, a in enumerate(AXES):
        if want[k] is None:
            continue
        c = comp(r[1], a)
        try:
            # sqrt(u)^2 = u
            roots = {}
            n, d = square(N, c)
            n2, d2 = N.norm(want[k])
            from ..ratfun import pmul
            ok = pmul(n, d2) == pmul(n2, d)
        except Undefined:
            ok = None
        B.ob(ok, "R1", "Box::getNearestPlaneDistance " + a, hist, "the distance of the faces along %s does not follow from the current parameters" % a, r[0])


def zero(t):
    return islit(t) and t.a[0] == 0


def square(N, c):
    """Normal form of the square of a product or quotient containing roots."""
    from ..ratfun import mul, div
    if c.op == "op" and c.a[0] == "*":
        r = square(N, c.a[1])
        for x in c.a[2:]:
            r = mul(r, square(N, x))
        return r
    if c.op == "op" and c.a[0] == "/":
        return div(square(N, c.a[1]), square(N, c.a[2]))
    if c.op == "call" and str(c.a[0]).split("::")[-1].split("(")[0].split("<")[0] in ("sqrt", "sqrtf") or c.op == "sqrt":
        return N.norm(c.a[-1])
    n = N.norm(c)
    return mul(n, n)


def wrapping(B, M, N, read, hist, vs, v, mem):
    """The fractional coordinates of a wrapped vector are those of the vector, reduced to [0, 1) in periodic directions."""
    w = B.find("wrap", 1)
    if not w:
        return
    E, m2, r = B.run(w[0], w[1], mem, [ref(vs, mem)])
    if not isinstance(r, T):
        return
    frac = M.fractional(v)
    if not any(M.per):
        got, want = [comp(r, a) for a in AXES], v
    else:
        got, want = M.fractional([comp(r, a) for a in AXES]), frac
    for k, a in enumerate(AXES):
        if M.d2 and k == 2:
            continue
        try:
            n, d = N.norm(got[k])
            if not M.per[k] or not any(M.per):
                ok = N.same(got[k], want[k])
            else:
                ok = reduced(N, got[k], want[k])
        except Undefined:
            ok = None
        B.ob(ok, "R2", "Box::wrap " + a, hist, "wrapping along %s does not follow from the current parameters" % a, w[1])


def reduced(N, got, want):
    """got is one atom, a remainder (of a remainder plus one) of want modulo one."""
    n, d = N.norm(got)
    if d != {(): 1} or len(n) != 1:
        return False
    (m, c), = n.items()
    if c != 1 or len(m) != 1:
        return False
    t = N.names[m[0]]
    if not remainder(t):
        return None if t.op in ("call", "phi", "op") else False
    if not one(t.a[-1]):
        return False
    a = t.a[-2]
    if N.same(a, want):
        return True
    # fmod(fmod(x, 1) + 1, 1)
    n, d = N.norm(a)
    inner = [m for m in n if len(m) == 1]
    if d == {(): 1} and len(n) == 2 and n.get(()) == 1 and len(inner) == 1 and n[inner[0]] == 1:
        u = N.names[inner[0][0]]
        return remainder(u) and one(u.a[-1]) and N.same(u.a[-2], want)
    return False


def remainder(t):
    return t.op == "call" and str(t.a[0]).split("(")[0].split("<")[0].split("::")[-1] in ("fmod", "modulusPositive", "fmodf") and len(t.a) >= 3


def one(t):
    return islit(t) and t.a[0] == 1


def image(B, M, N, hist, vs, v, mem):
    """Images count how many boxes away a vector is: the fractional coordinate, rounded down (away from the central box)."""
    w = B.find("getImage", 2)
    if not w:
        return
    tgt = mk("pobj", "image")
    m = dict(mem)
    a0 = ref(vs, m)
    E, m2, r = B.run(w[0], w[1], m, [a0, mk("ptr", tgt)])
    if m2 is None:
        return
    frac = M.fractional(v)
    for k, a in enumerate(AXES):
        x = m2.get(mk("fld", tgt, a))
        if x is None and tgt in m2:
            x = comp(m2[tgt], a)
        if x is None:
            continue
        x = noint(x)
        want = frac[k] if not (M.d2 and k == 2) else lit(0.5)
        ok = None
        try:
            if x.op == "phi":
                # rounding half away from zero of (want - 1/2)
                g = x.a[0]
                pos, neg = x.a[1], x.a[2]
                if not (g.op == "op" and g.a[0] in ("<", "<=") and (zero(g.a[1]) or zero(g.a[2]))):
                    continue
                if zero(g.a[2]):
                    pos, neg = neg, pos
                side = g.a[1] if zero(g.a[2]) else g.a[2]
                ok = N.same(side, O("-", want, lit(0.5))) and N.same(noint(pos), want) and N.same(noint(neg), O("-", want, lit(1)))
            elif x.op == "call" and str(x.a[0]).split("(")[0].split("::")[-1] in ("round", "lround", "rint", "roundf"):
                ok = N.same(x.a[-1], O("-", want, lit(0.5)))
            elif x.op == "call" and str(x.a[0]).split("(")[0].split("::")[-1] in ("floor", "floorf"):
                ok = N.same(x.a[-1], want)
            elif islit(x):
                ok = M.d2 and k == 2 and x.a[0] == 0
            elif x.op == "op" and any(N.same(x, O("-", want, lit(c))) for c in (0, 0.5, 1)):
                ok = False      # cutting off decimals rounds up below zero and down above
        except Undefined:
            ok = None
        B.ob(ok, "R2", "Box::getImage " + a, hist, "the image along %s does not follow from the current parameters" % a, w[1])


def noint(t):
    while t.op in ("call", "cast", "op") and "int" in str(t.a[0]).lower() and isinstance(t.a[-1], T):
        t = t.a[-1]
    return t


def unwrapping(B, M, N, hist, mem):
    w = B.find("unwrap", 4)
    if not w:
        return
    E, m2, r = B.run(w[0], w[1], mem, [mk("ptr", mk("idx", mk("pobj", "vecs"), lit(0))), mk("ptr", mk("idx", mk("pobj", "images"), lit(0))), P("Nvecs"), mk("ptr", mk("idx", mk("pobj", "out"), lit(0)))])
    st = {}
    for e in E.events:
        if e.kind in ("store", "acc") and e.place is not None and e.loops and any(x.op == "pobj" and x.a[0] == "out" for x in walk(e.place)):
            st.setdefault(e.place, []).append(e)
    for p, l in st.items():
        base = None
        for x in walk(l[0].value):
            if x.op == "ld" and x.a[0].op == "idx" and any(y.op == "pobj" and y.a[0] == "vecs" for y in walk(x.a[0])):
                base = x
            if x.op == "get" and x.a[0].op == "ld":
                pass
        if base is None:
            continue
        imgs = [x for x in walk(l[-1].value) if x.op in ("ld", "get") and any(y.op == "pobj" and y.a[0] == "images" for y in walk(x))]
        im = {}
        for x in imgs:
            for a in AXES:
                if x.op == "ld" and x.a[0].op == "fld" and x.a[0].a[1] == a or x.op == "get" and x.a[1] == a:
                    im[a] = x
        miss = [a for a in (AXES[:2] if M.d2 else AXES) if a not in im]
        if len(miss) == len(AXES[:2] if M.d2 else AXES):
            continue
        if miss:
            B.ob(False, "R2", "Box::unwrap", hist, "the image along %s is not used" % ", ".join(miss), w[1])
            continue
        total = l[0].value if len(l) == 1 else None
        if total is None:
            total = l[-1].value
            if l[-1].kind == "acc":
                total = O("+", l[0].value, l[-1].value)
        for k, a in enumerate(AXES):
            if M.d2 and k == 2:
                continue
            want = mk("get", base, a)
            for j, b in enumerate(AXES[:2] if M.d2 else AXES):
                want = O("+", want, O("*", im[b], M.lattice(j)[k]))
            try:
                ok = N.same(comp(total, a, lambda t: t in im.values() or t.op == "param"), want)
            except Undefined:
                ok = None
            B.ob(ok, "R2", "Box::unwrap " + a, hist, "unwrapping along %s does not follow from the current parameters" % a, w[1])


# ---------------------------------------------------------------- equality
FIELDS = ["Lx", "Ly", "Lz", "xy", "xz", "yz", "periodic x", "periodic y", "periodic z", "2D"]


def equality(B):
    """Both operands symbolic: the comparison is a conjunction over all parameters."""
    n = 0
    other = mk("pobj", "b")
    for name, positive in (("operator==", True), ("operator!=", False)):
        for i, f in B.m.get(name, []):
            E, m2, v = B.run(i, f, {}, [mk("ptr", other)])
            if not isinstance(v, T):
                continue
            n += 1
            B.ctx.ob(truth(v, set()) is positive, "R3", "Box::%s equal" % name, "boxes with equal parameters do not compare equal", f.get("file"), f.get("line"))
            for x in FIELDS:
                B.ctx.ob(truth(v, {x}) is (not positive), "R3", "Box::%s %s" % (name, x), "boxes that differ in %s compare equal" % x, f.get("file"), f.get("line"))
    B.ctx.need(n, 1, "comparisons of boxes")


def param(t):
    """Which parameter(s) of a box a term reads, and of which box."""
    axis = None
    if t.op == "get" and t.a[1] in AXES:
        axis, t = t.a[1], t.a[0]
    if t.op != "ld":
        return None
    p = t.a[0]
    if p.op == "fld" and p.a[1] in AXES:
        axis, p = p.a[1], p.a[0]
    if p.op != "fld" or p.a[0].op not in ("this", "pobj"):
        return None
    w, fld = p.a[0], p.a[1]
    if fld in ("m_L", "m_Linv", "m_hi", "m_lo"):
        return w, ["L" + a for a in (axis or "xyz")]
    if fld == "m_periodic":
        return w, ["periodic " + a for a in (axis or "xyz")]
    if fld == "m_2d":
        return w, ["2D"]
    if fld in ("m_xy", "m_xz", "m_yz"):
        return w, [fld[2:]]
    return None


def truth(t, diff):
    """Value of a comparison when exactly the parameters in diff differ."""
    if islit(t):
        return bool(t.a[0])
    if t.op == "phi":
        c = truth(t.a[0], diff)
        if c is None:
            a, b = truth(t.a[1], diff), truth(t.a[2], diff)
            return a if a == b else None
        return truth(t.a[1] if c else t.a[2], diff)
    if t.op != "op":
        return None
    o = t.a[0]
    if o == "!":
        c = truth(t.a[1], diff)
        return None if c is None else not c
    if o in ("&&", "and"):
        l = [truth(x, diff) for x in t.a[1:]]
        return False if False in l else None if None in l else True
    if o in ("||", "or"):
        l = [truth(x, diff) for x in t.a[1:]]
        return True if True in l else None if None in l else False
    if o in ("==", "!=") and len(t.a) == 3:
        if t.a[1].op == "struct" and t.a[2].op == "struct":
            l = [truth(mk("op", "==", x[1], y[1]), diff) for x, y in zip(t.a[1].a[1], t.a[2].a[1])]
            c = False if False in l else None if None in l else True
            return c if o == "==" or c is None else not c
        a, b = param(t.a[1]), param(t.a[2])
        if a and b and a[0] is not b[0] and a[1] == b[1]:
            return (o == "==") != any(x in diff for x in a[1])
        return None
    if o in ("<", "<=") and len(t.a) == 3:
        a, b = param(t.a[1]), param(t.a[2])
        if a and b and a[0] is not b[0] and a[1] == b[1] and not any(x in diff for x in a[1]):
            return o == "<="
    return None


# ---------------------------------------------------------------- Python
GETS = {"getLx": "Lx", "getLy": "Ly", "getLz": "Lz", "getTiltFactorXY": "xy", "getTiltFactorXZ": "xz", "getTiltFactorYZ": "yz",
        "getPeriodicX": "periodic x", "getPeriodicY": "periodic y", "getPeriodicZ": "periodic z", "is2D": "2D"}


# what a call of a native setter gives each parameter
SETS = {"setL": ("Lx", "Ly", "Lz"), "setTiltFactorXY": ("xy",), "setTiltFactorXZ": ("xz",), "setTiltFactorYZ": ("yz",), "set2D": ("2D",),
        "setPeriodic": ("periodic x", "periodic y", "periodic z"), "setPeriodicX": ("periodic x",), "setPeriodicY": ("periodic y",), "setPeriodicZ": ("periodic z",)}
PROPS = {"Lx": ("Lx",), "Ly": ("Ly",), "Lz": ("Lz",), "L": ("Lx", "Ly", "Lz"), "xy": ("xy",), "xz": ("xz",), "yz": ("yz",), "is2D": ("2D",), "dimensions": ("2D",),
         "periodic": ("periodic x", "periodic y", "periodic z"), "periodic_x": ("periodic x",), "periodic_y": ("periodic y",), "periodic_z": ("periodic z",),
         "volume": None, "L_inv": None}
OTHERS = {"getVolume": "volume", "getLinv": "L_inv"}


def native(t):
    """The box parameter a native accessor call returns."""
    if t.op == "call" and isinstance(t.a[0], T) and t.a[0].op == "attr":
        return t.a[0].a[1]
    return None


def pyequal(ctx):
    L = Link(ctx)
    cl = [c for c in L.P.classes() if c.q == "freud.box.Box"]
    ctx.need(len(cl), 1, "the Python class Box")
    c = cl[0]
    me = mk("self", c)
    si = L.ctor[c.q][1]

    def fresh():
        s = si.copy()
        s.guards = ()
        return s
    file = "freud/box.py"
    gets = {}
    n = 0
    for name, want in sorted(PROPS.items()):
        E = L.engine()
        s, v = E.run(c, name, s=fresh())
        if v is None:
            continue
        ctx.fnset |= E.visited
        got = {native(x) for x in walk(v)} - {None}
        pars = {GETS[g] for g in got if g in GETS}
        gets[name] = pars
        n += 1
        if want is not None:
            ctx.ob(pars == set(want) or not got, "R1", "Box.%s" % name, "reads %s" % (", ".join(sorted(pars)) or "something else"), file, None)
        elif got:
            ctx.ob(name in {OTHERS.get(g) for g in got} or len(pars) > 1, "R1", "Box.%s" % name, "does not read the box's %s" % name, file, None)
    ctx.need(n, 12, "Python properties of the box")
    setters_(ctx, L, c, me, fresh, file)
    exports(ctx, L, c, fresh, file)
    for v in (2, 3):
        E = L.engine()
        s = E.setter(c, "dimensions", fresh(), me, lit(v))
        for e in E.events:
            if e.kind == "ncall" and nname(e) == "set2D" and e.args:
                b = folded(e.args[0])
                ctx.ob(b is None or b == (v == 2), "R1", "Box.dimensions = %d" % v, "setting %d dimensions calls set2D(%s)" % (v, b), file, None)
        E = L.engine()
        two = v == 2
        s, r = E.run(c, "dimensions", s=fresh())
        if isinstance(r, T) and r.op == "ite" and native(r.a[0]) == "is2D" or r is not None and r.op == "ite" and any(native(x) == "is2D" for x in walk(r.a[0])) and folded(r.a[0]) is None and r.a[0].op == "call":
            w = r.a[1] if two else r.a[2]
            ctx.ob(not islit(w) or w.a[0] == v, "R1", "Box.dimensions of a %dD box" % v, "reports %s" % show(w), file, None)
    # equality
    E = L.engine()
    s, v = E.run(c, "__eq__", s=fresh())
    if v is not None:
        ctx.fnset |= E.visited
        bad = set()
        ctx.ob(ptruth(v, set(), gets, bad) is not False and not bad, "R3", "Box.__eq__ equal", "equal boxes do not compare equal" + (": compares " + " with ".join(map(str, sorted(bad)[0])) if bad else ""), file, None)
        for x in FIELDS:
            ctx.ob(ptruth(v, {x}, gets, set()) is not True, "R3", "Box.__eq__ %s" % x, "boxes that differ in %s compare equal" % x, file, None)
    # copies of parameters kept by the Python object
    o = L.P.members(c)
    stores, reads = {}, {}
    for mname, (own, ds) in o.items():
        for k, d in ds:
            if k == "attr":
                continue
            for x in astmod.walk(d):
                if isinstance(x, astmod.Attribute) and isinstance(x.value, astmod.Name) and x.value.id == "self" and x.attr not in o and x.attr != "_cpp_obj":
                    (stores if isinstance(x.ctx, astmod.Store) else reads).setdefault(x.attr, set()).add((mname, k))
    changing = {(m, k) for m, (own, ds) in o.items() for k, d in ds if k == "setter"}
    for a in sorted(set(stores) & set(reads)):
        miss = [m for m, k in changing if (m, k) not in stores[a] and not delegates(o, m, stores[a])]
        ctx.ob(not miss, "R4", "Box.%s" % a, "the copy kept in %s is not updated by setting %s" % (a, ", ".join(sorted(miss))), file, None)
    ctx.ob(True, "R4", "Box attributes", "", file, None)


def delegates(o, m, stored):
    """The setter only assigns another property whose setter keeps the copy up to date."""
    for k, d in o[m][1]:
        if k == "setter":
            tg = {x.attr for x in astmod.walk(d) if isinstance(x, astmod.Attribute) and isinstance(x.ctx, astmod.Store)}
            return bool(tg) and all((t, "setter") in stored for t in tg)
    return False


def setters_(ctx, L, c, me, fresh, file):
    n = 0
    for name, pars in sorted(PROPS.items()):
        if pars is None:
            continue
        E = L.engine()
        val = mk("param", "value")
        s = E.setter(c, name, fresh(), me, val)
        if not E.visited:
            continue
        ctx.fnset |= E.visited
        calls = [(native(mk("call", e.target)) if isinstance(e.target, T) and e.target.op == "attr" else None) or str(getattr(e, "value", "")).split(".")[-1] for e in E.events if e.kind == "ncall"]
        done = {}
        hit = False
        for e in E.events:
            if e.kind != "ncall":
                continue
            nm = nname(e)
            if nm not in SETS or len(e.args or ()) != len(SETS[nm]):
                continue
            hit = True
            for p, a in zip(SETS[nm], e.args):
                done.setdefault(p, []).append(whole(a))
        if not hit:
            continue
        n += 1
        for p, l in sorted(done.items()):
            for a in l:
                g = {GETS.get(native(x)) for x in walk(a)} - {None}
                fromval = any(x is val for x in walk(a))
                if p in pars:
                    ok = fromval
                    if ok and len(pars) > 1:
                        ix = index(a, val)
                        ok = ix is None or ix == pars.index(p)
                    ctx.ob(ok, "R1", "Box.%s setter: %s" % (name, p), "%s is not set to the given value" % p, file, None)
                else:
                    ctx.ob(not fromval and g <= {p}, "R1", "Box.%s setter: %s" % (name, p), "%s is changed by setting %s" % (p, name), file, None)
        miss = [p for p in pars if p not in done]
        ctx.ob(not miss, "R1", "Box.%s setter" % name, "setting %s leaves %s unchanged" % (name, ", ".join(miss)), file, None)
    ctx.need(n, 10, "Python setters of the box")


def folded(t):
    """Truth of a comparison of literals."""
    while t.op == "call" and len(t.a) == 2 and "bool" in str(t.a[0]):
        t = t.a[1]
    if islit(t):
        return bool(t.a[0])
    if t.op == "op" and len(t.a) == 3 and islit(t.a[1]) and islit(t.a[2]):
        f = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b}.get(t.a[0])
        return f(t.a[1].a[0], t.a[2].a[0]) if f else None
    if t.op == "op" and t.a[0] == "not":
        c = folded(t.a[1])
        return None if c is None else not c
    return None


ROOTS = ("numpy.sqrt", "math.sqrt")
NORMS = ("numpy.linalg.norm", "math.hypot", "numpy.hypot")


def ext(t):
    return t.a[0].a[0] if t.op == "call" and isinstance(t.a[0], T) and t.a[0].op in ("ext", "bi") and isinstance(t.a[0].a[0], str) else ""


def elements(t):
    """Elements of a sequence written out, through conversions to arrays, lists and tuples."""
    while ext(t) in ("numpy.asarray", "numpy.array", "tuple", "list") and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t.op == "tuple" and isinstance(t.a[0], tuple):
        return list(t.a[0])
    if t.op == "list" and len(t.a) > 1 and isinstance(t.a[1], tuple):
        return list(t.a[1])
    return None


def plain(t):
    """A Python value as arithmetic over the box's parameters; raises Undefined for anything else."""
    g = GETS.get(native(t))
    if g:
        return P(g)
    if t.op in ("sub", "getitem") and len(t.a) == 2 and isinstance(t.a[1], T) and islit(t.a[1]) and isinstance(t.a[1].a[0], int):
        el = elements(t.a[0])
        if el is not None and -len(el) <= t.a[1].a[0] < len(el):
            return plain(el[t.a[1].a[0]])
    if islit(t) and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return t
    if ext(t) in ("float", "numpy.float64", "numpy.float32") and len(t.a[1]) == 1:
        return plain(t.a[1][0])
    if t.op == "op" and t.a[0] in ("+", "-", "*", "/") and len(t.a) >= 3:
        return O(t.a[0], *[plain(x) for x in t.a[1:]])
    if t.op == "op" and t.a[0] in ("neg", "u-") and len(t.a) == 2:
        return O("-", lit(0), plain(t.a[1]))
    if t.op == "op" and t.a[0] == "**" and islit(t.a[2]) and t.a[2].a[0] in (2, 3, 4):
        return O("*", *[plain(t.a[1])] * int(t.a[2].a[0]))
    raise Undefined(show(t, 3))


def rooted(N, t):
    """(r, s): the value is r times the root of s, both quotients of polynomials."""
    from ..ratfun import mul, div, const
    one_ = const(1)
    if ext(t) in ROOTS and len(t.a[1]) == 1:
        return one_, N.norm(plain(t.a[1][0]))
    if ext(t) in NORMS:
        el = elements(t.a[1][0]) if len(t.a[1]) == 1 else list(t.a[1])
        if el is None:
            raise Undefined("norm")
        r = lit(0)
        for x in el:
            x = plain(x)
            r = O("+", r, O("*", x, x))
        return one_, N.norm(r)
    if t.op == "op" and t.a[0] == "**" and islit(t.a[2]) and t.a[2].a[0] == 0.5:
        return one_, N.norm(plain(t.a[1]))
    if t.op == "op" and t.a[0] in ("*", "/") and len(t.a) >= 3:
        r, q = rooted(N, t.a[1])
        for x in t.a[2:]:
            y, z = rooted(N, x)
            f = mul if t.a[0] == "*" else div
            r, q = f(r, y), f(q, z)
        return r, q
    return N.norm(plain(t)), one_


def agrees(N, got, want):
    """Is got the value want = (r, s)? None when its form is not understood."""
    from ..ratfun import mul, pmul
    eq = lambda a, b: pmul(a[0], b[1]) == pmul(b[0], a[1])
    try:
        r, q = rooted(N, got)
    except Undefined:
        return None
    if eq(q, want[1]):
        return eq(r, want[0])
    return eq(mul(mul(r, r), q), mul(mul(want[0], want[0]), want[1]))


def exports(ctx, L, c, fresh, file):
    from ..ratfun import const
    N = Norm()
    p = {k: P(k) for k in ("Lx", "Ly", "Lz", "xy", "xz", "yz")}
    m = lambda a, b: O("*", p[a], p[b])
    plus = lambda *a: O("+", *a)
    sq = lambda a: O("*", p[a], p[a])
    flat = lambda t: (N.norm(t), const(1))
    over = lambda num, den: (N.norm(num), N.norm(O("/", lit(1), den)))
    u2 = plus(lit(1), sq("xy"))
    u3 = plus(lit(1), sq("xz"), sq("yz"))
    length = lambda a, t: (const(1), N.norm(O("*", sq(a), t)))
    par = [flat(p[k]) for k in ("Lx", "Ly", "Lz", "xy", "xz", "yz")]
    names = ["Lx", "Ly", "Lz", "xy", "xz", "yz"]
    z = flat(lit(0))
    rows = [[flat(p["Lx"]), flat(m("xy", "Ly")), flat(m("xz", "Lz"))], [z, flat(p["Ly"]), flat(m("yz", "Lz"))], [z, z, flat(p["Lz"])]]
    angles = [over(plus(m("xy", "xz"), p["yz"]), O("*", u2, u3)), over(p["xz"], u3), over(p["xy"], u2)]
    n = 0

    def value(name):
        nonlocal n
        o, ds = L.P.find(c, name)
        if not o:
            return None, None
        E = L.engine()
        s, v = E.run(c, name, s=fresh())
        ctx.fnset |= E.visited
        n += 1
        return v, ds[0][1].lineno

    def cmp(name, part, got, want, line):
        if got is not None:
            ok = agrees(N, got, want)
            ctx.ob(ok, "R5", "Box.%s %s" % (name, part), "exports another value as %s: %s" % (part, show(got, 4)), file, line)

    v, line = value("to_dict")
    if v is not None and v.op == "dict" and isinstance(v.a[-1], tuple):
        d = {k.a[0]: x for k, x in v.a[-1] if isinstance(k, T) and islit(k)}
        for k, w in zip(names, par):
            if len(d) == len(v.a[-1]):
                ctx.ob(k in d, "R5", "Box.to_dict has %s" % k, "%s is missing" % k, file, line)
            if k in d:
                cmp("to_dict", k, d[k], w, line)
    for name, want, labels in (("to_box_params", par, names), ("L", par[:3], names[:3])):
        v, line = value(name)
        el = elements(v) if v is not None else None
        if el is not None:
            ctx.ob(len(el) == len(want), "R5", "Box.%s" % name, "%d values" % len(el), file, line)
            for g, w, k in zip(el, want, labels):
                cmp(name, k, g, w, line)
    v, line = value("to_matrix")
    el = elements(v) if v is not None else None
    if el is not None and all(elements(r) is not None for r in el):
        for i, r in enumerate(el):
            for j, g in enumerate(elements(r)):
                if i < 3 and j < 3:
                    cmp("to_matrix", "[%d][%d]" % (i, j), g, rows[i][j], line)
    v, line = value("to_box_lengths_and_angles")
    el = elements(v) if v is not None else None
    if el is not None:
        ctx.ob(len(el) == 6, "R5", "Box.to_box_lengths_and_angles", "%d values" % len(el), file, line)
        for g, w, k in zip(el, [flat(p["Lx"]), length("Ly", u2), length("Lz", u3)], ("L1", "L2", "L3")):
            cmp("to_box_lengths_and_angles", k, g, w, line)
        for g, w, k in zip(el[3:], angles, ("alpha", "beta", "gamma")):
            if ext(g) in ("numpy.arccos", "math.acos", "numpy.acos") and len(g.a[1]) == 1:
                cmp("to_box_lengths_and_angles", k, g.a[1][0], w, line)
    # named boxes
    for name, dim in (("cube", 3), ("square", 2)):
        o, ds = L.P.find(c, name)
        if not o or not ds[0][1].args.args[1:]:
            continue
        E = L.engine()
        s, r = E.run(c, name)
        if s is None or r is None or r.op != "new":
            continue
        val = mk("param", ds[0][1].args.args[1].arg)
        news = [x for x in s.heap.values() if isinstance(x, T) and x.op == "nat" and x.a[0].endswith("_box.Box")]
        for x in news[:1]:
            n += 1
            for i, k in enumerate(("Lx", "Ly", "Lz", "xy", "xz", "yz", "is2D")):
                if i >= len(x.a[1]):
                    continue
                g = x.a[1][i]
                while ext(g) in ("float", "bool") and len(g.a[1]) == 1:
                    g = g.a[1][0]
                want = lit(dim == 2) if k == "is2D" else lit(0) if i > 2 or i == 2 and dim == 2 else val
                ok = g is want or islit(g) and islit(want) and g.a[0] == want.a[0]
                ctx.ob(ok if islit(g) or g.op == "param" else None, "R5", "Box.%s %s" % (name, k), "the box gets %s = %s" % (k, show(g, 3)), file, ds[0][1].lineno)
    ctx.need(n, 4, "Python exports of the box")


def whole(t):
    """A length-three value never takes the branch for values without a length."""
    while t.op == "ite" and t.a[0].op == "exc" and any(native(x) for x in walk(t)):
        t = t.a[2]
    return t


def nname(e):
    t = e.target
    if isinstance(t, T) and t.op == "attr":
        return t.a[1]
    for x in (e.value, t, e.fn):
        if isinstance(x, str) and x.split(".")[-1] in SETS:
            return x.split(".")[-1]
    return None


def index(a, val):
    """Position of the given value's element an argument uses, None when the value is used as a whole."""
    for x in walk(a):
        if x.op in ("idx", "item", "sub", "getitem") and x.a and x.a[0] is val and len(x.a) > 1 and isinstance(x.a[1], T) and islit(x.a[1]):
            return x.a[1].a[0]
    return None


def ptruth(t, diff, gets, bad):
    if islit(t):
        return bool(t.a[0])
    if t.op == "ite":
        c = ptruth(t.a[0], diff, gets, bad)
        if c is None:
            c = True if t.a[0].op == "op" and t.a[0].a[0] == "is" else None
        if c is None:
            a, b = ptruth(t.a[1], diff, gets, bad), ptruth(t.a[2], diff, gets, bad)
            return a if a == b else None
        return ptruth(t.a[1] if c else t.a[2], diff, gets, bad)
    if t.op != "op":
        return None
    o = t.a[0]
    if o == "not":
        c = ptruth(t.a[1], diff, gets, bad)
        return None if c is None else not c
    if o in ("and", "or"):
        l = [ptruth(x, diff, gets, bad) for x in t.a[1:]]
        if o == "and":
            return False if False in l else None if None in l else True
        return True if True in l else None if None in l else False
    if o == "is":
        return True
    if o in ("==", "!=") and len(t.a) == 3:
        a, b = side(t.a[1], gets), side(t.a[2], gets)
        if a is None or b is None:
            return None
        if a != b:
            bad.add((",".join(sorted(a)), ",".join(sorted(b))))
            return None
        return (o == "==") != bool(a & diff)
    return None


def side(t, gets):
    """The parameters one side of a comparison reads."""
    got = {GETS.get(native(x)) for x in walk(t)} - {None}
    if got:
        return frozenset(got)
    for x in walk(t):
        if x.op == "attr" and len(x.a) == 2 and x.a[0].op == "param":
            if x.a[1] in gets:
                return frozenset(gets[x.a[1]])
            if x.a[1] == "_cpp_obj":
                return frozenset(FIELDS)
    if t.op == "nat":
        return frozenset(FIELDS)
    return None


import ast as astmod
