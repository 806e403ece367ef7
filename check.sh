#!/bin/sh
# check.sh <property> <tier>: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONWARNINGS
exec /opt/venv/bin/python -m mc.run "$@"
