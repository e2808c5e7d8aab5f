#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
TECH = "contract-based deductive verification (weakest-precondition style VC generation from LLVM IR of the real sources, discharged by z3/cvc5 and a rational normal form)"
def prop(id, title, statement, over, text, why, files, mech, state=None, level="proof", note="", technique=TECH, claimed=True):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(row=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), level=level, note=note, technique=technique, claimed=claimed))
def na(id, reason):
    NA.append(dict(property=id, reason=reason))
    for p in P:
        if p["row"]["id"] == id: p["claimed"] = False
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p["row"]) + "\n")
checks = []
for p in P:
    if not p["claimed"]: continue
    i = p["row"]["id"]
    checks.append(dict(property=i, quick_cmd="python3-vt vc/check.py %s --tier quick" % i, thorough_cmd="python3-vt vc/check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=NA), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
