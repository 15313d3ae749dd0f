"""Checks that the framework can run: interpreter, libraries and the package under test."""
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get('RV_REPO', '/repo'))
import numpy, h5py, lxml, numba, pandas, scipy
import rv.runner
os.makedirs(os.path.join(here, 'evidence'), exist_ok = True)
print('ready: python', sys.version.split()[0], 'numpy', numpy.__version__, 'h5py', h5py.__version__)
