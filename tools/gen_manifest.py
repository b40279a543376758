#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
m = {
	"version": 1,
	"setup_cmd": "python3 check.py --setup",
	"checks": [],
	"not_applicable": [],
	"notes": "Runtime monitoring and sanitizers. Every check builds its own harness under /verif/.build against /repo's working tree; no hooks in /repo are needed. The fix: commits in /repo are listed in known-findings.txt.",
}
for p in props:
	c = CHECKS.get(p["id"])
	if c is None:
		m["not_applicable"].append({"property": p["id"], "reason": "its check is not built yet"})
		continue
	m["checks"].append({
		"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
		"technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"],
	})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
	json.dump(m, f, indent="\t", ensure_ascii=False)
	f.write("\n")
