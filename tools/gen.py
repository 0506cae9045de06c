"""Writes properties.jsonl and MANIFEST.json from harness/catalog.py and the check modules present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.catalog import P  # noqa: E402
from harness.techniques import T  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", "props", i.lower() + ".py")):
        tech, note = T[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"python3 check.py {i} --tier quick",
                "thorough_cmd": f"python3 check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "property-based testing: " + tech,
                "level": "exploration",
                "level_note": note,
            }
        )
    else:
        na.append({"property": i, "reason": T.get(i, ("", "no check built yet"))[1]})
json.dump(
    {
        "version": 1,
        "setup_cmd": "python3 tools/selfcheck.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check generates its cases from VERIF_SEED alone, runs each sub-check in its own process against /repo's working tree, "
        "and writes a shrunk failing case to replays/, re-run with 'python3 check.py --replay FILE'.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8"),
    indent=1,
    ensure_ascii=False,
)
print(len(checks), "checks,", len(na), "not claimed")
