"""Prints the per-property section of DESIGN.md from the checks themselves."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    m = importlib.import_module("props." + p["id"].lower())
    print(f"### {p['id']} {p['title']}\n")
    print(f"- Cases and oracle: {m.RULE}.")
    print(f"- Bounds: {m.EXAMPLES[0]} generated cases quick, {m.EXAMPLES[1]} thorough, each usually a history or a batch, plus fixed cases.")
    for a in getattr(m, "ASSUMPTIONS", []):
        print(f"- Assumes: {a}.")
    print(f"- Why tests cannot: {p['why_tests_cant']}\n")
