#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the drivers present in harness/ and tools/levels.json."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/harness/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python harness/check.py {i}",
                       "thorough_cmd": f"/opt/venv/bin/python harness/check.py {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "TLA+ specification model-checked with TLC; TLC-explored and seeded random executions of the code judged by the specification",
                       "level": "model_checking",
                       "level_note": notes.get(i, "exhaustive within the small scope of the model; seeded random beyond it; numeric agreement to the stated tolerance")})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks in /repo are needed", "source_commits": []}}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
