#!/bin/bash
# check.sh PROPERTY quick|thorough [family,...]   or   check.sh --replay FILE
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONNOUSERSITE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export C_INCLUDE_PATH=/opt/py27/usr/include:/opt/py27/usr/include/python2.7
unset PYTHONPATH
cd /
exec /opt/py27/usr/bin/python2.7 "$here/mc/main.py" "$@"
