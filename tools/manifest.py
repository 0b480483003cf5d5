"""Writes MANIFEST.json from properties.jsonl and the checks present in harness/props."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
PY = "/opt/veriftools/pyvenv/bin/python"

checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "harness", "props", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "the check for this property is not built yet"})
        continue
    mod = importlib.import_module("props." + pid.lower())
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"{PY} harness/check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough {PY} harness/check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": getattr(mod, "TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
            "level": getattr(mod, "LEVEL", "exploration"),
            "level_note": getattr(mod, "NOTE", None)
            or "Generated cases on the real code in both execution modes, with shrinking; no proof beyond the cases run. "
            + "Assumes: "
            + "; ".join(getattr(mod, "ASSUMPTIONS", []) or ["the reference model is right"])
            + ".",
        }
    )
out = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Every check drives worker processes that import /repo's working tree with NPP_USE_NUMBA=TRUE and FALSE; "
    "nothing is built or written in /repo. No hooks are needed.",
}

with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
