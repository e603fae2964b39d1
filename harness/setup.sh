#!/bin/bash
# nothing to build (pure Python); verify the tools the checks need
set -e
command -v mpiexec >/dev/null
/opt/venv/bin/python - <<'P'
import sys; sys.path.insert(0, "/repo")
import numpy, scipy, mpi4py, pylops
P
echo ok
