"""Regenerate properties.jsonl and MANIFEST.json. Run in /verif."""

import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P  # noqa: E402

with open(os.path.join(root, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(root, "hv", "checks", p["id"].lower() + ".py")):
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": "runtime monitoring: " + p["_technique"],
                "level": p["_level"],
                "level_note": p["_note"],
            }
        )
    else:
        na.append({"property": p["id"], "reason": "no check built yet"})

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the monitors observe the public interface, the index file, the SQL "
    "statement trace and the worker pool, which the library lets its caller supply. Compiler "
    "sanitizers and race detectors do not apply: the code base is pure Python.",
}
with open(os.path.join(root, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
