#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry in check.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": check.TECHNIQUE[i],
            "level": "model_checking",
            "level_note": check.LEVEL[i],
        })
    else:
        na.append({"property": i, "reason": check.NOT_APPLICABLE.get(i, "its check is not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(puzzle_verif)", "enable": "RUSTFLAGS='--cfg puzzle_verif'",
              "source_commits": check.HOOK_COMMITS},
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
