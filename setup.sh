#!/bin/bash
# Nothing to install: checks that the interpreter and compilers the checks use are there.
set -e
/opt/venv/bin/python -c 'import numpy, scipy, h5py, pyevtk, flopy, Cython'
gcc --version >/dev/null
