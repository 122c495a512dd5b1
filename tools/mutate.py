"""Mutation analysis of the checks (run by hand, writes only under /tmp): small changes of the sources that pass the repository's tests, and which checks report them.

    mutate.py FILE.py[,FILE.py] [--sample N] [--seed S] [--workers W] [--scale X] [--out OUT.jsonl]
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = {'groups.py': 'C28 C01 C02 C03 C05 C06 C07 C04 C08 C26 C23 C19', 'model.py': 'C09 C11 C12 C14 C13 C10 C02 C18 C16 C28', 'hamiltonian_generator.py': 'C15 C17 C18 C16 C06 C30',
          'symmetry_finder.py': 'C19 C21 C20 C30 C23', 'linalg.py': 'C25 C26 C21 C20 C19 C18 C24', 'kwant_continuum.py': 'C22 C10 C12 C15', 'kwant_linalg_lll.py': 'C24 C23', 'kwant_rmt.py': 'C27'}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
CMP2 = {ast.Lt: '>', ast.LtE: '>', ast.Gt: '<', ast.GtE: '<'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '//', ast.FloorDiv: '/', ast.Pow: '*', ast.BitXor: '|', ast.BitOr: '&', ast.BitAnd: '|'}
DROP = {'conj', 'conjugate', 'copy', 'transpose', 'adjoint', 'expand', 'inv', 'flatten', 'ravel', 'tocsr', 'simplify', 'nsimplify'}


def mutants(path):
    src = open(path, 'rb').read()
    off = [0]
    for l in src.split(b'\n'):
        off.append(off[-1] + len(l) + 1)
    pos = lambda line, col: off[line - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    txt = lambda n: src[slice(*span(n))].decode()
    tree = ast.parse(src)
    out = []
    doc = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '_repr_latex_', '_latex'):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'warn':
            skip.update(ast.walk(n))
            skip.discard(n)

    def add(n, a, b, new, kind):
        old = src[a:b].decode()
        if old != new:
            out.append({'line': n.lineno, 'a': a, 'b': b, 'old': old, 'new': new, 'kind': kind})
    for n in ast.walk(tree):
        if n in skip or n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            gap = src[a:b].decode()
            for tab in (CMP, CMP2):
                if type(n.ops[0]) in tab:
                    s = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}[type(n.ops[0])]
                    if s in gap:
                        add(n, a, b, gap.replace(s, tab[type(n.ops[0])], 1), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            gap = src[a:b].decode()
            s = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.FloorDiv: '//', ast.Pow: '**', ast.BitXor: '^', ast.BitOr: '|', ast.BitAnd: '&'}[type(n.op)]
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            add(n, a, b, gap.replace(s, BIN[type(n.op)], 1), 'bin')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            add(n, *span(n), f'({txt(n.right)} @ {txt(n.left)})', 'matmul')
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            gap = src[a:b].decode()
            add(n, a, b, gap.replace('and', 'or') if isinstance(n.op, ast.And) else gap.replace('or', 'and'), 'bool')
            for v in n.values:
                add(v, *span(v), 'True' if isinstance(n.op, ast.And) else 'False', 'boolterm')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, *span(n), '(' + txt(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool):
                add(n, *span(n), str(not n.value), 'const')
            elif isinstance(n.value, int):
                add(n, *span(n), str(n.value + 1), 'const')
                if n.value > 0:
                    add(n, *span(n), str(n.value - 1), 'const')
            elif isinstance(n.value, complex):
                add(n, *span(n), '(-' + txt(n) + ')', 'const')
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, *span(n.test), '(' + txt(n.test) + ') or True', 'if')
            add(n.test, *span(n.test), '(' + txt(n.test) + ') and False', 'if')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in DROP and not n.args and not n.keywords:
                add(n, *span(n), txt(n.func.value), 'dropcall')
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    while src[b:b + 1] in (b' ', b','):
                        b += 1
                    if src[b:b + 1] == b'\n':
                        continue
                    add(n, a, b, '', 'dropkw')
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                add(n, span(n.args[0])[0], span(n.args[1])[1], txt(n.args[1]) + ', ' + txt(n.args[0]), 'swapargs')
        elif isinstance(n, ast.Attribute) and n.attr in ('T', 'real', 'imag') and isinstance(n.ctx, ast.Load):
            add(n, *span(n), {'T': txt(n.value), 'real': txt(n.value), 'imag': txt(n.value) + '.real'}[n.attr], 'dropattr')
        elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
            add(n, *span(n), 'pass', 'dropstmt')
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    add(c, *span(c), 'True', 'compif')
    res = {}
    for m in out:
        new = src[:m['a']] + m['new'].encode() + src[m['b']:]
        try:
            compile(new, path, 'exec')
        except Exception:
            continue
        res[(m['a'], m['b'], m['new'])] = m
    return src, sorted(res.values(), key=lambda m: m['a'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files')
    ap.add_argument('--sample', type=int, default=10 ** 9)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--workers', type=int, default=7)
    ap.add_argument('--scale', type=float, default=0.3)
    ap.add_argument('--out', default='/tmp/mut/out.jsonl')
    ap.add_argument('--checks')
    ap.add_argument('--lines')
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    todo = []
    for f in a.files.split(','):
        src, ms = mutants('/repo/qsymm/' + f)
        if a.lines:
            lo, hi = map(int, a.lines.split('-'))
            ms = [m for m in ms if lo <= m['line'] <= hi]
        print(f, len(ms), 'mutants')
        for m in ms:
            m['file'] = f
        todo += [(src, m) for m in ms]
    if a.count:
        return
    random.Random(a.seed).shuffle(todo)
    todo = todo[:a.sample]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['new'], d['old']))
    todo = [(s, m) for s, m in todo if (m['file'], m['a'], m['b'], m['new'], m['old']) not in done]
    dirs = queue.Queue()
    for w in range(a.workers):
        d = f'/tmp/mut/w{os.getpid()}_{w}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        dirs.put(d)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONPATH='/opt/vp/pytest_plugins')
    out = open(a.out, 'a')

    def one(x):
        src, m = x
        d = dirs.get()
        p = os.path.join(d, 'qsymm', m['file'])
        t0 = time.time()
        r = {**m, 'tests': None, 'killed': None}
        try:
            open(p, 'wb').write(src[:m['a']] + m['new'].encode() + src[m['b']:])
            try:
                c = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=100', '-W', 'ignore:unclosed file <_io.BufferedReader:ResourceWarning', 'qsymm'], cwd=d, env=env, capture_output=True, timeout=240).returncode
            except subprocess.TimeoutExpired:
                c = 99
            r['tests'] = c
            if c == 0:
                e = dict(env, VERIF_REPO=d)
                e.pop('PYTHONPATH')
                for k in (a.checks or CHECKS[m['file']]).split():
                    try:
                        q = subprocess.run([PY, ROOT + '/run.py', '--property', k, '--jobs', '1', '--scale', str(a.scale), '--no-evidence'], env=e, capture_output=True, text=True, timeout=1500)
                    except subprocess.TimeoutExpired:
                        r['killed'] = k + ' timeout'
                        break
                    if q.returncode == 1:
                        r['killed'] = f'{k} ({q.returncode}) ' + q.stdout[:300]
                        break
        finally:
            open(p, 'wb').write(src)
            dirs.put(d)
        r['time'] = round(time.time() - t0, 1)
        out.write(json.dumps(r) + '\n')
        out.flush()
        if r['tests'] == 0 and not r['killed']:
            print('SURVIVED', m['file'], m['line'], repr(m['old'][:80]), '->', repr(m['new'][:80]), flush=True)

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, todo))
    while not dirs.empty():
        shutil.rmtree(dirs.get())
    n = k = 0
    for l in open(a.out):
        d = json.loads(l)
        n += d['tests'] == 0
        k += d['tests'] == 0 and bool(d['killed'])
    print(f'{k} of {n} mutants that pass the tests are reported')


main()
