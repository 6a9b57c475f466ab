#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 lib/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CBMC_T = "CBMC: bounded symbolic execution of the real C, SAT-decided"
PY_T = "symbolic execution of the real Python source (AST), z3-decided"


def prop(id, title, statement, over, text, why, files, mech, note=None, tech=CBMC_T, level="model_checking", state=None, observe=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech, level=level, state=state, observe=observe, na=na, hook=hook))


exec(open(os.path.join(V, "lib", "props_data.py")).read())

assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    py = "/opt/veriftools/pyvenv/bin/python" if p["id"][0] == "P" else "python3"
    cmd = "%s checks/%s.py" % (py, p["id"])
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check regenerates its encoding from /repo's working tree. Bounds and assumptions: DESIGN.md and the evidence files. out/ holds replays of counterexamples."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
