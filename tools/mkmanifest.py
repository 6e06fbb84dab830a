"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Exhaustive for the bounded model (spec/MC*.tla); for the real code: every history of the bounded model (or a seeded "
        "sample of them) and seeded random documents are executed on the code built from /repo's working tree and the "
        "recorded states are validated by TLC against the specification. Trusts the harness' projection of the document "
        "to JSON, TLC, and that inputs on a 1/16 pt grid are representative.")
LEVEL = {}
NOTES = {}
NA = {}
if os.path.exists(os.path.join(V, "tools", "notes.json")):
    with open(os.path.join(V, "tools", "notes.json")) as f:
        x = json.load(f)
    NOTES, NA = x.get("notes", {}), x.get("na", {})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": [], "not_applicable": [],
     "notes": "TLA+ specification in spec/, checked with TLC, bound to the code by replay and trace validation. "
              "No hooks in /repo: the harness observes the public document types."}
for p in props:
    if p in checks.CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                            "technique": "TLA+ specification, TLC model checking, model-history replay and trace validation",
                            "level": LEVEL.get(p, "model_checking"), "level_note": NOTES.get(p, NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "The check of this property is not built yet.")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
