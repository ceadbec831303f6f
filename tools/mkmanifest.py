"""writes MANIFEST.json: one check per property that has a driver"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(ln) for ln in open(os.path.join(V, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification model checked with TLC; traces of the real code "
                         "validated against it by TLC",
            "level": "model_checking",
            "level_note": NOTE[i],
        })
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: only public functions (and helpers the repository's own tests call) "
              "are observed. TLA+ with TLC; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
