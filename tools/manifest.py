#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import CONFIG
ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl")) as f:
    ids = [json.loads(l)["id"] for l in f]
NOTE = ("Exploration: the oracle decides every execution it watches; workloads, schedule perturbation and repetition give reach, "
        "but schedules and inputs that no case produced are not covered. Trusts the Go runtime, the race detector and the harness's models.")
checks, missing = [], []
for i in ids:
    if i not in CONFIG:
        missing.append({"property": i, "reason": "no check yet"})
        continue
    c = CONFIG[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c.get("note", "") + (" " if c.get("note") else "") + NOTE,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none in /repo: the schedule hooks exist only in a build overlay (go build -overlay) generated from the working tree",
              "enable": "check.py generates the overlay with harness/cmd/instr and builds the harness with it",
              "source_commits": []},
    "checks": checks,
    "not_applicable": missing,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
