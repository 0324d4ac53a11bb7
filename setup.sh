#!/bin/bash
# Nothing to compile: makes sure that everything the checks need can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -B -c "
from qv import env
import hypothesis, networkx, qiskit, qtcodes, importlib, os
assert os.path.abspath(qtcodes.__file__).startswith(env.REPO), qtcodes.__file__
for k in range(1, 29):
    importlib.import_module('qv.props.c%02d' % k)
print('ok', qtcodes.__file__)"
