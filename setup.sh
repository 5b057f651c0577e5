#!/bin/bash
# Nothing to build ahead: every check builds la from /repo in a scratch
# directory. Only see that the interpreter and its packages are there.
exec /opt/py27/usr/bin/python2.7 -c 'import numpy, h5py, bottleneck, Cython'
