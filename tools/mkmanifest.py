#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.json (level, technique, level_note per claimed check)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks = json.load(open(R + "/tools/checks.json"))
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are compiled into /repo: checks instrument a copy of the sources at build time (go build -overlay, see instr/)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
          "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check has been built for it yet"})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
