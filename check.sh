#!/bin/sh
# check.sh PROPERTY TIER -- run one property's check against the working tree of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m vsym.run "$@"
