#!/bin/bash
# usage: run_check.sh PROPERTY-ID [quick|thorough]  |  run_check.sh --setup
# Runs one check against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
if [ "$1" = --setup ]; then
  # nothing to build: check that the tools the checks run are there
  java -cp /opt/veriftools/tla/tla2tools.jar tla2sany.SANY -h >/dev/null 2>&1
  /opt/venv/bin/python -c 'import json' && command -v java >/dev/null
  exit $?
fi
exec /opt/venv/bin/python -W ignore "$here/harness/main.py" "$@"
