"""Helper to write /verif/seeded/<id> from replacements in the sources (run by hand)."""
import json
import os
import subprocess
import tempfile
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os
import sys

sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter('ignore')
import numpy as np
import scipy.sparse as sp
import scipy.linalg as la
import sympy
import qsymm
import qsymm.kwant_rmt
from qsymm import *
from qsymm.model import Model, BlochModel, BlochCoeff
from qsymm.groups import *
from qsymm.linalg import *
from qsymm.hamiltonian_generator import *

'''


def seed(i, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new[, nth])]"""
    d = os.path.join(ROOT, 'seeded', i)
    tmp = tempfile.mkdtemp(prefix='mk_', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'], check=True)
        for f, old, new, *nth in edits:
            p = os.path.join(tmp, 'r', 'qsymm', f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1 or nth, (i, f, n, old)
            if nth:
                parts = s.split(old)
                k = nth[0]
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.run(['git', 'diff'], cwd=tmp + '/r', capture_output=True, text=True, check=True).stdout
        assert diff, i
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(HEAD + demo.strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(tmp)
