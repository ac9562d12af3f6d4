#!/bin/bash
# Nothing to build: the checks are Python and import /repo. Verify that the interpreter and the packages are there.
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -c "import mesa, numpy, pandas, sortedcontainers, tornado" || exit 1
mkdir -p evidence
