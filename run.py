#!/opt/venv/bin/python
"""Entry point of every check.

    run.py --property C01 [--tier quick|thorough] [--seed N] [--jobs N]
    run.py --property C01 --replay FILE      re-run one saved failing case, without the library
    run.py --list

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: error of the harness.
"""
import os
import sys

ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1',
       'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore', 'MPLBACKEND': 'agg'}
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')

if __name__ == '__main__':
    if os.environ.get('VERIF_CHILD') != '1' or os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, VERIF_CHILD='1', **ENV)
        os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from pbt import core
    sys.exit(core.main(sys.argv[1:]))
