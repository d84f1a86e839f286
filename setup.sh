#!/bin/bash
# nothing to build: makes sure that the interpreter and the libraries the monitors need are there
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -c "
import numpy, scipy, pandas, cvxpy, clarabel
from mon import boot
boot.install()
boot.load('cvx.covariance.ewma'); print('monitors load', numpy.__version__, pandas.__version__, cvxpy.__version__)"
