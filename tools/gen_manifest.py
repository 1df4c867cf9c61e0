#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").open()]
SETTLED = "explicit-state exploration of a reference model, every transition replayed on the real controller; "
T = {
    "core": "exhaustive execution of the real controller under a controlled scheduler and virtual time (all operation sequences / model states up to a depth, all schedules up to a deviation bound) against a reference model",
}
NOTE = "Bounds (hosts, sessions, alphabet, depth, schedule deviations) are in DESIGN.md and in the evidence; tokio's own executor, timers and channels are replaced by a facade with the same interface."
CLAIMED = json.loads((root / "tools" / "claimed.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "technique": c.get("technique", T["core"]),
            "level": "model_checking",
            "level_note": c.get("note", NOTE),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
