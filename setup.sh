#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo's working tree.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
exec env PYTHONDONTWRITEBYTECODE=1 "$PY" -W ignore -c "from vk import core; core.bootstrap(); print('ready')"
