"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
NOTES = {}
notes = os.path.join(ROOT, "harness", "levels.json")
if os.path.exists(notes):
    NOTES = json.load(open(notes))
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(ROOT, f)):
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python %s" % f,
            "thorough_cmd": "/opt/venv/bin/python %s --thorough" % f,
            "technique": n.get("technique", "TLA+ state machine; TLC-generated behaviours replayed in the code, recorded steps validated by TLC"),
            "level": "model_checking",
            "level_note": n.get("note", "The specification's laws are model checked on small constants; random behaviours of it are replayed through the public API and each recorded step is validated against the TLA+ definitions. Trusts TLC, the Java accelerators (compared with the TLA+ definitions at set-up) and six-digit arithmetic."),
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/selftest.py 600", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API exposes the abstract state. Specification language: TLA+ (TLC)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
