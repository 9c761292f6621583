#!/bin/bash
# Nothing to build: checks that what the checks need is there and that the code under test can be imported.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, 'harness')
import env
env.setup()
import hypothesis, cbor2, cryptography, pycose
print('hypothesis', hypothesis.__version__, 'pycose from', pycose.__path__[0])
PY
mkdir -p evidence replay
