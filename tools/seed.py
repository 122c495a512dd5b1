"""Confirm a planted bug in a scratch copy (run by hand): tools/seed.py ID [--check] [--no-tests]

In a copy of /repo: demo passes, patch applies, existing tests pass, demo fails; with --check also runs the check of its property.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def main(i, opts):
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        repo = tmp + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        demo = tmp + '/demo'
        os.mkdir(demo)
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(d, f), demo)
        env = dict(os.environ, PYTHONPATH=repo + ':/opt/vp/pytest_plugins', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        c0, o0 = sh(f'bash {demo}/demo.sh', repo, env)
        ca, oa = sh(f'git apply {d}/patch.diff', repo)
        c1, o1 = sh(f'bash {demo}/demo.sh', repo, env)
        ok = c0 == 0 and ca == 0 and c1 != 0
        msg = f'{i}: demo {c0}/{c1} apply {ca}'
        if not ok:
            msg += '\n' + o0[-800:] + oa[-500:] + o1[-500:]
        if '--no-tests' not in opts and ca == 0:
            ct, ot = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed --timeout=300 -W 'ignore:unclosed file <_io.BufferedReader:ResourceWarning' qsymm", repo, env)
            msg += f' tests {ct} ({ot.strip().splitlines()[-1]})'
            ok = ok and ct == 0
            if ct:
                msg += '\n' + '\n'.join(x for x in ot.splitlines() if x.startswith(('FAILED', 'E '))) [-600:]
        if '--check' in opts and ok:
            ck, ok_ = sh(f"/opt/venv/bin/python {ROOT}/run.py --property {meta['property']} --tier quick --seed 1 --no-evidence", '/verif', dict(os.environ, VERIF_REPO=repo))
            v = [x for x in ok_.splitlines() if 'VIOLATION' in x or ' quick seed' in x]
            law = [x.split()[1].strip(':') for x in ok_.splitlines() if x.startswith('  law ')]
            rf = os.path.join(ROOT, 'tools', 'seed_results.json')
            res = json.load(open(rf)) if os.path.exists(rf) else {}
            res[i] = f'yes ({law[0] if law else "hang"})' if ck == 1 else 'NO'
            json.dump(res, open(rf, 'w'), indent=0, sort_keys=True)
            msg += f"\n    check {meta['property']} exit {ck}: " + ' | '.join(v)[:300]
        print(('OK   ' if ok else 'BAD  ') + msg, flush=True)
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    opts = [a for a in sys.argv[1:] if a.startswith('-')]
    if ids == ['all']:
        ids = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    for i in ids:
        main(i, opts)
