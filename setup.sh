#!/bin/bash
# Nothing is compiled: verify that the interpreter, numpy and z3 are there.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c "
import sys; sys.dont_write_bytecode=True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, z3; print('numpy', numpy.__version__, 'z3', z3.get_version_string())"
