#!/bin/sh
# Nothing to build: checks that the interpreters the checks use are there.
mkdir -p evidence replays
/opt/veriftools/pyvenv/bin/python -c 'import z3, numpy; print(z3.get_version_string(), numpy.__version__)' && /opt/venv/bin/python -c 'import numpy; print(numpy.__version__)'
