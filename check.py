#!/usr/bin/env python
"""usage: check.py <property-id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WANT = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
            OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', TQDM_DISABLE='1',
            GDAL_PAM_ENABLED='NO', PYTHONWARNINGS='ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
if os.environ.get('VERIF_MON_EXEC') != '1':
    env = dict(os.environ)
    env.update(WANT)
    env['VERIF_MON_EXEC'] = '1'
    env['PYTHONPATH'] = REPO + os.pathsep + HERE
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path[:0] = [HERE, REPO]
from mon import core  # noqa: E402
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    code = core.main(sys.argv[1].upper(), sys.argv[2:])
    sys.stdout.flush()
    os._exit(code)
