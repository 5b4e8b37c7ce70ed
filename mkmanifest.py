#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of registered properties (vh list) and properties.jsonl."""
import json, subprocess, sys
LEVEL = {"C04": "fault_enumeration", "C15": "fault_enumeration", "C16": "fault_enumeration", "C17": "fault_enumeration", "C21": "fault_enumeration", "C22": "fault_enumeration", "C26": "fault_enumeration"}
vh = sys.argv[1]
info = {p["id"]: p for p in json.loads(subprocess.check_output([vh, "list"]))}
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = info.get(p["id"])
    if i is None:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": i["technique"],
        "level": LEVEL.get(p["id"], "exploration"),
        "level_note": "Generated cases against an explicit oracle, on the real code built from /repo's working tree; no proof of absence. "
                      + i["rule"] + (" Assumes: " + "; ".join(i["assume"]) + "." if i["assume"] else ""),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are committed in /repo: the one hook (a resolver override named by an environment variable) is compiled into the application by a go build overlay, see build.sh."},
          open("MANIFEST.json", "w"), indent=1)
