#!/bin/bash
# nothing to build: check that the interpreter, z3 and /repo can be imported together
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD" MPLBACKEND=Agg /opt/venv/bin/python -c "
from symex import core, patches
import beep
print('z3', core.z3.get_version_string(), 'beep', beep.__file__)"
