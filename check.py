"""Entry point of the checks: check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]."""

import os
import sys

_here = os.path.dirname(os.path.abspath(__file__))
_repo = os.environ.get('RV_REPO', '/repo')
_env = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'NUMBA_NUM_THREADS': '2',
    'NUMBA_BOUNDSCHECK': '1',  # array bounds sanitizer for the jit compiled kernels
    'HDF5_USE_FILE_LOCKING': 'FALSE',
    'TZ': 'UTC',
    'LC_ALL': 'C.UTF-8',
}
if os.environ.get('RV_CHILD') != '1':
    env = dict(os.environ)
    env.update({k: env.get(k, v) if k.startswith('NUMBA') else v for k, v in _env.items()})
    env['PYTHONPATH'] = _repo
    env['RV_CHILD'] = '1'
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, _here)
from rv.runner import main

sys.exit(main())
