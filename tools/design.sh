#!/bin/sh
# Writes DESIGN.md and MANIFEST.json.
cd "$(dirname "$0")/.." || exit 1
PY=/opt/veriftools/pyvenv/bin/python
{ cat tools/design_head.md; $PY tools/design_table.py; $PY tools/planted_table.py; } > DESIGN.md
$PY tools/manifest.py
