#!/usr/bin/env python3
"""Confirm planted bugs. Usage: plant.py SPEC.py [ID...]
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], demo=python source, needs, what)].
Each bug is applied to a scratch copy of /repo, built and tested there inside a private mount namespace (the copy is
mounted over /repo), its demonstration run with and without it, and the property's check run against the copy. Bugs that
are confirmed are written to /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\n. /opt/vp/env.sh\ncd /repo\nexec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(b):
    w = "/tmp/w/" + b["id"]
    sh("mkdir -p /tmp/w; rm -rf %s; cp -a /repo %s" % (w, w))
    log = []
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return b["id"], False, "edit matches %d times in %s" % (t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C %s diff" % w).stdout
        os.makedirs(w + ".d", exist_ok=True)
        open(w + ".d/demo.sh", "w").write(DEMO)
        open(w + ".d/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip())
        os.chmod(w + ".d/demo.sh", 0o755)
        os.makedirs(w + ".work", exist_ok=True)
        open(w + ".run", "w").write("""
mount --bind %s /repo && mount --bind %s.work /opt/vp/work || exit 9
bash /opt/vp/build.sh > %s.b 2>&1 || { tail -30 %s.b; echo BUILDFAIL; exit 8; }
%s
bash %s.d/demo.sh > %s.o 2>&1; echo "DEMO $?"
""" % (w, w, w, w, "" if b.get("notest") else "bash /opt/vp/test.sh %s.json >/dev/null 2>&1" % w, w, w))
        r = sh("env -u PYTHONPATH unshare -m bash %s.run" % w)
        if "DEMO" not in r.stdout:
            return b["id"], False, (r.stdout + r.stderr)[-1500:]
        bad = r.stdout.strip().split("DEMO ")[-1].strip()
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        o = json.load(open(w + ".json"))
        miss = [x for x in base if x not in set(o["passed"])]
        r2 = sh("env -u PYTHONPATH bash %s.d/demo.sh" % w)
        chk = {}
        for p in [b["property"]] + b.get("also", []):
            if os.path.exists("%s/fv/rules/%s.py" % (V, p.lower())):
                c = sh("python3 %s/check.py %s --tier quick" % (V, p), env=dict(os.environ, FV_REPO=w, FV_EVID=w + ".ev"))
                chk[p] = c.returncode
                log += [l for l in c.stdout.splitlines() if "|" in l][:3]
        ok = not miss and bad != "0" and r2.returncode == 0
        msg = "demo bad=%s good=%s missing=%s checks=%s" % (bad, r2.returncode, miss[:6], chk)
        if r2.returncode:
            msg += "\n" + (r2.stdout + r2.stderr)[-800:]
        elif bad == "0":
            msg += "\n" + open(w + ".o").read()[-500:]
        if ok:
            d = V + "/seeded/" + b["id"]
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            shutil.copy(w + ".d/demo.sh", d)
            shutil.copy(w + ".d/demo.py", d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        return b["id"], ok, msg + "".join("\n   " + l[:220] for l in log)
    finally:
        sh("rm -rf %s %s.d %s.work %s.run %s.b %s.o %s.json %s.ev" % ((w,) * 8))


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for i, ok, msg in ex.map(one, bugs):
            print("%s %s: %s" % ("KEPT" if ok else "DROPPED", i, msg), flush=True)
