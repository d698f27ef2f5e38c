#!/bin/bash
# Nothing to build: the checks load /repo's current source directly.  Verify the tools are there.
set -e
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=/opt/veriftools/pyvenv/bin/python
PYTHONDONTWRITEBYTECODE=1 "$PY" -c '
import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, croniter, dateutil, yaml, jinja2; print("z3", z3.get_version_string())'
