#!/bin/bash
# Nothing to build: the checks are Python and import metcalcpy from /repo. Verifies that the tools are present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'lib')
import vh
import hypothesis, metcalcpy
print('hypothesis', hypothesis.__version__, 'metcalcpy', metcalcpy.__file__)
"
