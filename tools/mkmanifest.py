"""Writes /verif/MANIFEST.json from the implemented checks (harness/cNN.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mkprops
TECH = "TLA+ specification checked with TLC; conformance by TLC-generated behaviours replayed into the code and TLC trace validation"
NOTES = json.load(open(os.path.join(V, "tools", "notes.json"))) if os.path.exists(os.path.join(V, "tools", "notes.json")) else {}
checks, na = [], []
for p in mkprops.P:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking",
                           level_note=NOTES.get(i, "Bounded: TLC explores the specification exhaustively within small constants; the code is judged on the recorded executions only.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specification language: TLA+ with TLC (see DESIGN.md). No hooks in /repo are needed: the public API exposes the abstract state.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
