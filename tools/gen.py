#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, observe, technique, note, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files, mech=mech, observe=observe, technique=technique, note=note, na=na, state=state))

FILES = "libs/databases/infrastructure/files"
exec(open(os.path.join(here, "tools", "props.py")).read())

TRUST = " Trusted: go/types and go/ssa, the analyzer in /verif/analyzer, the effect table for the standard library and fslock."
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["tests"], "anchors": anchors}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: nothing in /repo is instrumented. Repairs are the 'fix:' commits of /repo listed in known-findings.txt. Every check analyses /repo's current Go source (go/packages, go/ssa) and runs none of it."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"] + TRUST})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
