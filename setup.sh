#!/bin/sh
# Nothing to compile: check that the interpreter, the library and the seams are there.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence replays
exec "$PY" -c "from dst import seams; seams.install(); print('seams ready')"
