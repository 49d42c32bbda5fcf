#!/usr/bin/env python3
"""Regenerates DESIGN.md from its template, the docstrings of the rule modules, notes.json, known-findings.txt and seeded/."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in R("properties.jsonl").splitlines() if l.strip()]
notes = json.loads(R("tools/notes.json"))
out = []
for p in props:
    i = p["id"]
    f = "fv/rules/%s.py" % i.lower()
    if i[0] == "N":
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    if os.path.exists(os.path.join(V, f)):
        out.append(ast.get_docstring(ast.parse(R(f))) + "\n")
    else:
        out.append("*No check; listed under not_applicable.*\n")
    if notes["props"].get(i):
        out.append(notes["props"][i] + "\n")
fixes = "".join("\n- " + l[len("fixed: "):] for l in R("known-findings.txt").splitlines() if l.startswith("fixed:"))
known = "".join("\n- " + l for l in R("known-findings.txt").splitlines() if l.startswith("known:"))
seeds = ["| change | needs | caught by |\n|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(R("seeded/%s/meta.json" % s))
    seeds.append("| %s | %s | %s |" % (s, str(m.get("needs", "")).replace("|", "/").replace("\n", " "), notes["caught"].get(s, m["property"])))
t = R("tools/DESIGN.tmpl.md")
t = t.replace("@PROPS@", "\n".join(out)).replace("@FIXES@", fixes + ("\n\nRecorded, not repaired:" + known if known else "")).replace("@SEEDS@", "\n\n" + "\n".join(seeds) + "\n")
t = t.replace("@FALSE@", "\n".join("- " + x for x in notes["false"]))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
