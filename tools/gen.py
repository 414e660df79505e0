#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (TECHNIQUE, NOTE) and tools/props.py."""
import ast, glob, json, os
HOOK = '0910984b5901295346bd0dc8f5f29eab04b971c0'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(p):
    out = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "NOTE"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


checks, have = [], set()
for p in sorted(glob.glob(V + "/checks/c[0-9][0-9].py")):
    i = os.path.basename(p)[:-3].upper()
    c = consts(p)
    have.add(i)
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                       evidence_file="evidence/%s.json" % i, technique=c["TECHNIQUE"], level="exploration", level_note=c["NOTE"]))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = [dict(property=p["id"], reason="no check has been built for it yet") for p in props if p["id"] not in have]
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         hooks=dict(guard="DEBUG_ARRAYOUTOFBOUNDS", enable="vp/build.py compiles the 'chk' variant with -DDEBUG_ARRAYOUTOFBOUNDS (C18); every other variant is built without it",
                    source_commits=[HOOK]),
         notes="Runtime monitoring of the real code: see DESIGN.md. All programs are rebuilt from /repo's working tree with a content-addressed object cache in /verif/build. The harness programs attach their monitors through the model's public extension points (test cases, workflow processes, dynamics, output managers); the only hook bounds-checks the subscripts of DataArray1D under the define that already did so for the other arrays.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
