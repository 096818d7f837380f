#!/bin/sh
# Nothing to build: the simulator is Python and imports /repo's working tree. Checks that it can start.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache /opt/venv/bin/python -c "import dst.lp" || exit 1
