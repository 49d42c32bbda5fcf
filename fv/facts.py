"""Fact loading: runs the Clang-based extractor over /repo's current sources and indexes its records."""
import re
import concurrent.futures as cf, glob, hashlib, json, os, subprocess, sys, tempfile, shutil, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
SRC = os.path.join(VERIF, "extract", "extract.cc")
# Translation units whose external headers are not part of this checkout: the repository's own build
# here leaves them out as well (see DESIGN.md).
UNBUILT = {"util/diagonalize.cc", "diffraction/StaticStructureFactorDirect.cc", "diffraction/export-StaticStructureFactorDirect.cc",
           "environment/MatchEnv.cc", "environment/export-MatchEnv.cc", "order/Nematic.cc", "order/export-Nematic.cc",
           "environment/LocalDescriptors.cc", "environment/export-LocalDescriptors.cc", "order/Steinhardt.cc",
           "order/export-Steinhardt.cc", "order/SolidLiquid.cc", "order/export-SolidLiquid.cc", "locality/Voronoi.cc",
           "locality/export-Voronoi.cc", "order/Wigner3j.cc"}


class Broken(Exception):
    """The analysis itself cannot be carried out (exit 2)."""


def extractor():
    h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()
    pre = os.path.join(VERIF, "bin", "extract")
    hf = os.path.join(VERIF, "bin", "extract.sha256")
    if os.path.exists(pre) and os.path.exists(hf) and open(hf).read().split()[0] == h:
        p = subprocess.run([pre, "--version"], capture_output=True)
        if p.returncode != 127 and p.returncode != 126:
            return pre
    out = os.path.join(VERIF, "build", "extract-" + h[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        cmd = ["clang++", "-std=c++17", "-fno-rtti", "-O1", "-I/usr/lib/llvm-18/include", SRC, "-o", tmp,
               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise Broken("extractor does not compile: " + p.stderr[:2000])
        os.rename(tmp, out)
    return out


def flags():
    fl = ["-std=gnu++17", "-fPIC", "-DNDEBUG"]
    for d in sorted(os.listdir(REPO + "/freud")):
        if os.path.isdir(os.path.join(REPO, "freud", d)):
            fl.append("-I%s/freud/%s" % (REPO, d))
    fl += ["-isystem", REPO + "/extern", "-I/opt/venv/lib/python3.12/site-packages/nanobind/include",
           "-I/usr/include/python3.12", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    return fl


def tus(sel=None):
    out = []
    for f in sorted(glob.glob(REPO + "/freud/**/*.cc", recursive=True)):
        rel = os.path.relpath(f, REPO + "/freud")
        if rel in UNBUILT:
            continue
        if sel is None or sel(rel):
            out.append(rel)
    return out


class Facts:
    def __init__(self):
        self.fns = {}      # id -> record
        self.globs = {}
        self.enums = {}
        self.recs = {}
        self.files = []
        self.byname = {}   # qualified name without template args -> [ids]
        self.overrides = {}

    def add(self, r):
        k = r["k"]
        if k == "fn":
            o = self.fns.get(r["id"])
            if o is None or (not o.get("body") and r.get("body")):
                self.fns[r["id"]] = r
        elif k == "glob":
            self.globs[r.get("qn") or r["id"]] = r
        elif k == "enum":
            self.enums[r.get("n") or r.get("qn")] = r
        elif k == "rec":
            self.recs[r["n"]] = r

    def index(self):
        self.byname = {}
        for i, f in self.fns.items():
            self.byname.setdefault(strip_targs(f["fn"]), []).append(i)
        self.overrides = {}
        for i, f in self.fns.items():
            for o in f.get("ov") or []:
                self.overrides.setdefault(o, []).append(i)


def strip_targs(n):
    prev = None
    while prev != n:
        prev = n
        n = re.sub(r"<[^<>]*>", "", n)
    return n


def usercopy(d):
    """A call of a user-written copy or move constructor is a constructor call like any other."""
    if d.get("k") == "copy" and d.get("user") and d.get("f"):
        d["k"] = "ctor"
        d["cls"] = re.sub(r"^const ", "", d.get("t", "")).strip()
        d["a"] = [d.pop("e")]
    return d


def load(sel=None, exports=False):
    """Extract and index the facts of all (selected) translation units."""
    ex = extractor()
    fl = flags()
    lst = tus(sel)
    if not exports:
        lst = [t for t in lst if not os.path.basename(t).startswith(("export-", "module-"))]
    elif exports == "only":
        lst = [t for t in lst if os.path.basename(t).startswith(("export-", "module-"))]
    tmp = tempfile.mkdtemp(prefix="fv-")
    cache = os.environ.get("FV_DEV_CACHE")  # development aid only: reuse by content digest
    F = Facts()
    try:
        def one(rel):
            o = os.path.join(tmp, rel.replace("/", "_") + ".jsonl")
            p = subprocess.run([ex, REPO + "/freud/", o, os.path.join(REPO, "freud", rel), "--"] + fl,
                               capture_output=True, text=True)
            if not os.path.exists(o):
                return rel, None, p.stderr[-800:]
            return rel, open(o).read(), p.stderr[-800:]
        key = None
        if cache:
            h = hashlib.sha256()
            for f in sorted(glob.glob(REPO + "/freud/**/*.cc", recursive=True) + glob.glob(REPO + "/freud/**/*.h", recursive=True)):
                h.update(f.encode()); h.update(open(f, "rb").read())
            h.update(open(SRC, "rb").read())
            key = h.hexdigest()[:16]
        with cf.ThreadPoolExecutor(8) as pool:
            def run(rel):
                if cache:
                    cpath = os.path.join(cache, key + "_" + rel.replace("/", "_"))
                    if os.path.exists(cpath):
                        return rel, open(cpath).read(), ""
                r = one(rel)
                if cache and r[1]:
                    os.makedirs(cache, exist_ok=True)
                    open(cpath, "w").write(r[1])
                return r
            for rel, txt, err in pool.map(run, lst):
                if txt is None:
                    raise Broken("extractor failed on %s: %s" % (rel, err))
                for line in txt.splitlines():
                    r = json.loads(line, object_hook=usercopy) if '"user": true' in line or '"user":true' in line else json.loads(line)
                    if r["k"] == "tu":
                        if r.get("errors"):
                            raise Broken("%s does not parse: %s %s" % (rel, r.get("errors"), err))
                        continue
                    F.add(r)
                F.files.append(rel)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    F.index()
    return F
