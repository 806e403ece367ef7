#!/bin/sh
# nothing to build: the checks import /repo/src as it is; this only tests that they can
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import mc.registry; print('ok', len(mc.registry.CHECKS))"
