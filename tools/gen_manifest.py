#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/harnesses.txt and tools/notes.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(f"{R}/tools/notes.json"))
props = [json.loads(l)["id"] for l in open(f"{R}/properties.jsonl")]
h = dict(l.split()[:2] for l in open(f"{R}/tools/harnesses.txt") if l.strip() and l[0] != "#")
checks = []
for p in props:
    if p in h:
        n = notes["checks"].get(p, {})
        checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
                       "technique": n.get("technique", "runtime monitoring: online history checker over randomized workloads on the real code"),
                       "level": "exploration", "level_note": n.get("note", "random workloads, seeded; no exhaustive guarantee")})
na = [{"property": p, "reason": notes["not_applicable"].get(p, "no monitor built yet")} for p in props if p not in h]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "vp_monitor", "enable": "tools/env.sh sets RUSTFLAGS=--cfg vp_monitor for every check; it only makes private modules public", "source_commits": ["24e256f"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
