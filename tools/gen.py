import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from entries import P
from entries import *
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{here}/properties.jsonl", "w") as f:
    for e in P:
        f.write(json.dumps(e["p"]) + "\n")
m = {
    "version": 1,
    "setup_cmd": "/verif/check --selftest",
    "checks": [
        {
            "property": e["p"]["id"],
            "quick_cmd": f"/verif/check {e['p']['id']} --tier quick",
            "thorough_cmd": f"/verif/check {e['p']['id']} --tier thorough",
            "evidence_file": f"evidence/{e['p']['id']}.json",
            "technique": e["technique"],
            "level": "proof",
            "level_note": e["note"],
        }
        for e in P
    ],
    "not_applicable": NA if "NA" in dir() else [],
    "notes": "Every check runs the working tree of /repo in-process (no build step is needed for the Python sources); see DESIGN.md.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
for e in P:
    assert len(e["p"]["title"]) <= 80, (e["p"]["id"], len(e["p"]["title"]))
    n = e["p"]["statement"].count(". ") + 1
    assert n <= 3, (e["p"]["id"], n)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for e in P:
        jsonschema.validate(e["p"], s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("no jsonschema")
