#!/bin/bash
# nothing to build: the engine is plain Python; check that its parts are present
cd "$(dirname "$0")" || exit 1
PYTHONPATH=/verif /opt/venv/bin/python -W ignore -c "
from pyvc import contract, solver
import skfolio
print('engine ready', skfolio.__file__)
"
