#!/bin/bash
# regenerates properties.jsonl, known_findings.txt, MANIFEST.json and DESIGN.md
cd "$(dirname "$0")/.." || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif:/repo
python3-vt tools/mkprops.py && python3 tools/mkfindings.py && /opt/venv/bin/python tools/mkmanifest.py && /opt/venv/bin/python tools/mkdesign.py
