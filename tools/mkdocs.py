#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=(), state=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, technique, note, na))


exec(open(os.path.join(V, "tools", "properties_src.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
import jobs
checks, na = [], []
for d, tech, note, reason in P:
    if reason or d["id"] not in jobs.PROPS:
        na.append(dict(property=d["id"], reason=reason or "no check built yet"))
        continue
    checks.append(dict(property=d["id"], quick_cmd="python3 check.py " + d["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + d["id"],
                       evidence_file="evidence/%s.json" % d["id"], technique=tech, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current sources itself (tools/vbuild.py), in the configurations and with the sanitizers the property needs; no change to /repo is needed for it, so there are no hooks.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
