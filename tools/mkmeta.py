#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, A, E = "maMDP/mdp.py", "maMDP/agents.py", "maMDP/environments.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, claim=True, reason=None, observe=None):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), note, claim, reason))


exec(open(os.path.join(R, "tools", "props.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
TECH = "contract-based deductive verification of the extracted source (weakest-precondition style VCs, z3); failing obligations replayed on the running code"
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": TECH, "level": "proof", "level_note": note} for p, note, c, r in P if c],
       "not_applicable": [{"property": p["id"], "reason": r} for p, note, c, r in P if not c],
       "notes": "No hooks: the checks read /repo's source and import it; nothing in /repo is instrumented. See DESIGN.md."}
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")
