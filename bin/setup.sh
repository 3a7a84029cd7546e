#!/bin/sh
# Nothing to build: check that the solver and the code under test can be imported.
exec /opt/veriftools/pyvenv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from symx import runner; runner.bootstrap(); import z3; print('z3', z3.get_version_string())"
