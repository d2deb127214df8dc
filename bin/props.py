#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 bin/props.py` rewrites both (they stay in step with the registry)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from registry import REG
U = "pystatsm/utilities/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, note))


exec(open(os.path.join(V, "bin", "props_list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
TRUST = ("Sessions of the real code are judged call by call by TLC against the TLA+ specification; sound for every recorded session, bounded by the sessions "
         "explored. Trusts the 31-digit arithmetic override java/Num.java (self-tested in setup), TLC and the recorder. ")
man = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
       "notes": "TLA+ checked with TLC; see DESIGN.md. bin/check <ID> [--thorough] runs one property; bin/props.py regenerates this file and properties.jsonl."}
for p, note in P:
    i = p["id"]
    if i in REG:
        man["checks"].append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --thorough", "evidence_file": f"evidence/{i}.json",
                              "technique": "TLA+ specification checked with TLC; conformance of recorded sessions of the real code" + ("; TLC-generated histories replayed" if any("gen" in s for s in REG[i]["sessions"]) else ""),
                              "level": REG[i]["level"], "level_note": TRUST + (note or "")})
    else:
        man["not_applicable"].append({"property": i, "reason": note or "specification not built yet; not claimed"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
