"""Which lines of the code under test do the checks reach (run by hand): tools/cover.py [scale]."""
import ast
import glob
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from pbt import core  # noqa


def run(pid, scale=0.05):
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'cover')

    def line(code, no):
        if '/qsymm/' in code.co_filename:
            hit.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    core.setup_process()
    for law in core.load(pid).laws:
        st = core.run_law(pid, law, 'quick', 7, 0, 1, mp.Event(), core.time.time(), set(), scale)
        if st['failure'] or st['error']:
            print(pid, law.name, st['failure'], st['error'])
    return pid, hit


def main():
    scale = float(sys.argv[1]) if len(sys.argv) > 1 else 0.05
    ids = sorted(os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(core.VERIF, 'pbt', 'c[0-9]*.py')))
    hit = {}
    with mp.Pool(7, maxtasksperchild=1) as p:
        for pid, h in p.starmap(run, [(i, scale) for i in ids], chunksize=1):
            for x in h:
                hit.setdefault(x, []).append(pid)
    for f in sorted(glob.glob(os.path.join(core.REPO, 'qsymm', '*.py'))):
        b = os.path.basename(f)
        if b in ('_version.py', '_static_version.py', '__init__.py'):
            continue
        text = open(f).read()
        lines = set()
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, ast.FunctionDef):
                for s in ast.walk(node):
                    if isinstance(s, ast.stmt) and s is not node and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        lines.add(s.lineno)
        miss = [n for n in sorted(lines) if (b, n) not in hit]
        print(f'== {b}: {len(lines) - len(miss)}/{len(lines)}')
        for n in miss:
            print(f'  {n}: {text.splitlines()[n - 1].strip()}')
        rare = [n for n in sorted(lines) if len(set(hit.get((b, n), []))) == 1]
        print('  reached by one property only:', len(rare))


main()
