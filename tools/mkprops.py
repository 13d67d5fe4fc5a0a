"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CTS = "MyCapytain/common/reference/_capitains_cts.py"
BASE = "MyCapytain/common/reference/_base.py"

P = []
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, observe, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": n, "meaning": m} for n, m in state],
                           "observe_at": [observe], "hook_needed": False}))
    P[-1]["_note"] = note


exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
na = []
for p in P:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    lv = p["_note"][0]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt -B /verif/check.py %s quick" % p["id"],
        "thorough_cmd": "python3-vt -B /verif/check.py %s thorough" % p["id"],
        "technique": "contract-based deductive verification: verification conditions generated from the AST of the "
                     "functions in /repo on every run (pyvc), discharged by z3/cvc5; bounded native replay of the same contracts",
        "level": lv, "level_note": p["_note"][1],
        "evidence_file": "/verif/evidence/%s.json" % p["id"],
    })
m = {"version": 1, "setup_cmd": "python3-vt -B /verif/tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.jsonl lists repaired defects and known findings."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties", len(checks), "checks")
