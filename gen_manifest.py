"""Regenerates MANIFEST.json from the check modules present (run after adding a check)."""
import ast
import json
from pathlib import Path

here = Path(__file__).resolve().parent
props = [json.loads(l) for l in (here / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    f = here / "mc" / "checks" / (p["id"].lower() + ".py")
    if not f.exists():
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    ns = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
        "technique": ns["TECHNIQUE"],
        "level": ns["LEVEL"],
        "level_note": ns["NOTE"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash ./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo; the checks drive the unmodified library from /repo/src. See DESIGN.md.",
}, open(here / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
