"""Prints the table of planted bugs for DESIGN.md."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("## Planted bugs, all reported by their property's check\n")
print("| planted bug | reported by | what it breaks | what it needs |")
print("|---|---|---|---|")
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", name, "meta.json"), encoding="utf-8"))
    text = [str(meta[k]).replace("|", "/") for k in ("property", "what_it_breaks", "needs")]
    print(f"| {name} | {' | '.join(text)} |")
