#!/bin/sh
# Builds what the checks need beyond Python: the preloaded system-call layer.
set -e
cd "$(dirname "$0")/.."
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, ".")
from sim.props_cli import library_path
print("built", library_path())
PY
