#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" /opt/venv/bin/python -c "import mc.core, mc.gen, pandas, pipit"
