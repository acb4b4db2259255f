#!/bin/bash
# Nothing to build: the checks import /repo/src. Confirm that the interpreter can.
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src:$PWD
exec /opt/venv/bin/python -c "import _zkapauthorizer.model, mc.runner; print('ok')"
