#!/usr/bin/env python3
"""Writes DESIGN.md from the checks' own descriptions, the findings file, the planted changes and the text below."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
HEAD = open("tools/design_head.md").read()
TAIL = open("tools/design_tail.md").read()
EXTRA = {}
cur = None
for l in open("tools/design_extra.md"):
    if l.startswith("# "):
        cur = l[2:].strip()
        EXTRA[cur] = ""
    elif cur:
        EXTRA[cur] += l
props = [json.loads(l) for l in open("properties.jsonl")]
find = json.load(open("known_findings.json"))["findings"]
seeds = {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((m.split("/")[1], d))
out = [HEAD, "## Properties\n"]
for p in props:
    i = p["id"]
    t = ast.parse(open("checks/%s.py" % i.lower()).read())
    doc = ast.get_docstring(t).split("\n", 1)
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("NOTE", "TECHNIQUE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Statement.* %s\n" % p["statement"])
    out.append("*Quantified over.* %s. *Why tests cannot settle it.* %s\n" % (str(p["quantifier"]).rstrip("."), p["why_tests_cant"]))
    out.append("*Deciding method.* %s.\n" % c["TECHNIQUE"])
    out.append("*Monitored and compared.* %s%s\n" % (doc[0].split(": ", 1)[-1].strip(), "\n" + doc[1].strip() if len(doc) > 1 and doc[1].strip() else ""))
    out.append("*Bounds and limits.* %s\n" % c.get("NOTE", ""))
    if i in EXTRA:
        out.append(EXTRA[i].strip() + "\n")
    f = [x for x in find if x["property"] == i]
    k = [x for x in f if x["status"] == "known"]
    if k:
        out.append("*Known findings (recorded, not repaired).* " + " ".join("(%s) %s." % (x["key"], x["what"].rstrip(".")) for x in k) + "\n")
    if len(f) > len(k):
        out.append("*Defects found and repaired.* " + "; ".join(x["what"].split(" ", 2)[2] for x in f if x["status"] != "known") + ".\n")
    if i in seeds:
        out.append("*Planted changes caught.* " + "; ".join("`%s` (%s)" % (n, d["what_it_breaks"]) for n, d in seeds[i]) + ".\n")
out.append(TAIL)
open("DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
