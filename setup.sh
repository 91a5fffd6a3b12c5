#!/bin/bash
# Nothing to build: the checks import the code of /repo at run time. Only verify that the interpreter and the libraries work.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -c "import numpy, scipy, sortedcontainers" >/dev/null 2>&1 || "$PY" -c "import numpy, scipy" || exit 1
mkdir -p evidence
exit 0
