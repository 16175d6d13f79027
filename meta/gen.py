#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), technique, note))

def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                    why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), reason))

exec(open(os.path.join(here, "meta", "list.py")).read())

ids = [p[0]["id"] for p in P] + [n[0]["id"] for n in NA]
assert len(ids) == len(set(ids))
for p, *_ in P + NA:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted([p[0] for p in P] + [n[0] for n in NA], key=lambda p: p["id"]):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
                   "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                   "technique": t, "level": "other", "level_note": n} for p, t, n in sorted(P, key=lambda x: x[0]["id"])],
       "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
       "notes": "All checks are static: vt/ type-checks the current source of /repo, builds SSA and decides each rule by abstract interpretation or queries over it; nothing of /repo is executed. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
