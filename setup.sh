#!/bin/bash
# Nothing to build: checks import /repo's working tree. Verify the toolchain is usable.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -P -W ignore -c "
import sys; sys.path.insert(0, 'lib')
import env, hypothesis
env.import_kasa()
print('hypothesis', hypothesis.__version__, 'ok')"
