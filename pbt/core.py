"""Engine: runs the laws of one property on generated cases.

A law is a strategy producing JSON-able case descriptions plus a deterministic function
``check(case, rec)`` which raises ``Violation`` if the property fails.  All randomness comes
from Hypothesis (seeded from VERIF_SEED, the law and the shard); a failing case is shrunk by
Hypothesis and saved as JSON, ``run.py --replay`` runs it again without Hypothesis.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def _import_hypothesis():
    """Import Hypothesis, from the tools' environment if /opt/venv lacks it."""
    try:
        import hypothesis
    except ImportError:
        for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
            if os.path.isdir(os.path.join(p, 'hypothesis')):
                sys.path.append(p)
                import hypothesis  # noqa
                import hypothesis.strategies  # noqa
                sys.path.remove(p)
                break
        else:
            raise
    return sys.modules['hypothesis']


# numpy etc. have to come from the environment of the repository
import numpy as np            # noqa: E402
import scipy.linalg           # noqa: E402,F401
import sympy                  # noqa: E402,F401
hypothesis = _import_hypothesis()
from hypothesis import given, settings, HealthCheck, Phase  # noqa: E402

NPROC = 8
CASE_LIMIT = {'quick': 100, 'thorough': 300}          # seconds, for a case that takes < 2 s normally
SOFT_BUDGET = {'quick': 360, 'thorough': 5400}        # seconds, after this no new cases are started
SHRINK_BUDGET = 40


class Violation(Exception):
    def __init__(self, msg, signature=None):
        super().__init__(msg)
        self.signature = signature


class Hang(BaseException):
    pass


class Stop(BaseException):
    pass


def req(cond, msg, *args):
    """Require cond, otherwise the property is violated."""
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def raises(exc, f, msg):
    """Require that f() raises exc."""
    try:
        f()
    except exc:
        return
    raise Violation(msg)


class Rec:
    """Collects what a case exercised."""

    def __init__(self):
        self.nontrivial = True
        self.labels = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def trivial(self):
        self.nontrivial = False


class Law:
    def __init__(self, name, strategy, check, n, thorough, doc):
        self.name, self.strategy, self.check, self.n, self.thorough, self.doc = name, strategy, check, n, thorough, doc


class Property:
    def __init__(self, pid, rule):
        self.pid, self.rule, self.laws = pid, rule, []

    def law(self, strategy, n, thorough=12):
        """n: cases in the quick tier; thorough: factor of the thorough tier."""
        def deco(f):
            self.laws.append(Law(f.__name__, strategy, f, n, thorough, (f.__doc__ or '').strip()))
            return f
        return deco


def load(pid):
    for fn in sorted(os.listdir(os.path.join(VERIF, 'pbt'))):
        if fn.startswith(pid.lower() + '_') and fn.endswith('.py'):
            return importlib.import_module('pbt.' + fn[:-3]).P
    raise SystemExit(f'no check for property {pid}')


def derive(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:8], 'big')


_default_rng = np.random.default_rng


def _seeded_default_rng(seed=None):
    # scipy's iterative solvers draw their start vector from here
    return _default_rng(987654321 if seed is None else seed)


def _on_alarm(*_):
    raise Hang()


def setup_process():
    warnings.simplefilter('ignore')
    np.random.default_rng = _seeded_default_rng
    signal.signal(signal.SIGALRM, _on_alarm)
    lim = 5 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(5000)


def run_case(law, case, limit):
    """Run one case. Returns (rec, None) or (rec, (kind, message, signature))."""
    rec = Rec()
    np.random.seed(0)
    case = json.loads(json.dumps(case))
    signal.alarm(limit)
    try:
        law.check(case, rec)
        return rec, None
    except Violation as v:
        return rec, ('violation', str(v), v.signature)
    except Hang:
        return rec, ('hang', f'no result after {limit} s', None)
    except (MemoryError, OSError) as ex:
        return rec, ('error', ''.join(traceback.format_exception(ex))[-3000:], None)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f for f in tb if '/qsymm/' in f.filename]
        text = f'{type(ex).__name__}: {ex}'[:600]
        if isinstance(ex, RuntimeError) and 'memory error' in str(ex).lower():      # scipy.linalg.svd
            return rec, ('error', ''.join(traceback.format_exception(ex))[-3000:], None)
        if where:
            f = where[-1]
            return rec, ('violation', f'unexpected {text} (raised in {os.path.basename(f.filename)}, {f.name})', None)
        f = tb[-1]
        return rec, ('violation', f'malformed result: the oracle could not interpret it, {text} '
                                  f'({os.path.basename(f.filename)}:{f.lineno}, {f.name})', None)
    finally:
        signal.alarm(0)


def worker(pid, tier, seed, shard, nshards, stop, out, known_sigs, only, scale):
    t0 = time.time()
    results = []
    error = None
    try:
        setup_process()
        prop = load(pid)
        for law in prop.laws:
            if only and law.name not in only:
                continue
            results.append(run_law(pid, law, tier, seed, shard, nshards, stop, t0, known_sigs, scale))
            if results[-1]['error'] or results[-1]['failure']:
                stop.set()
                break
    except BaseException as ex:     # noqa
        error = ''.join(traceback.format_exception(ex))[-4000:]
        stop.set()
    out.put((shard, results, error))


def run_law(pid, law, tier, seed, shard, nshards, stop, t0, known_sigs, scale):
    total = law.n if tier == 'quick' else law.n * law.thorough
    total = max(1, int(total * scale))
    count = total // nshards + (1 if shard < total % nshards else 0)
    st = {'law': law.name, 'evaluations': 0, 'hashes': set(), 'labels': {}, 'samples': [], 'failure': None,
          'error': None, 'skipped': 0, 'known': {}, 'wall': 0.0, 'slowest': 0.0}
    if count == 0:
        return st
    start = time.time()
    state = {'best': None, 'fail_t': None}

    def body(case):
        key = json.dumps(case, sort_keys=True)
        if state['best'] is None:
            if stop.is_set() or time.time() - t0 > SOFT_BUDGET[tier]:
                st['skipped'] += 1
                return
        elif (time.time() - state['fail_t'] > SHRINK_BUDGET or state['best'][2] == 'hang') and key != state['best'][0]:
            return      # out of time for shrinking: keep the smallest failing case so far
        if state['best'] is not None and state['best'][2] == 'hang':
            raise Violation('hang')
        tc = time.time()
        rec, bad = run_case(law, case, CASE_LIMIT[tier])
        st['slowest'] = max(st['slowest'], time.time() - tc)
        if state['best'] is None:
            st['evaluations'] += 1
            for lab in rec.labels:
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if rec.nontrivial:
                st['hashes'].add(hashlib.md5(key.encode()).digest()[:8])
                if len(st['samples']) < 3 and len(key) < 1500:
                    st['samples'].append({'law': law.name, 'case': case, 'labels': rec.labels[:8]})
        if bad is None:
            return
        kind, msg, sig = bad
        if kind == 'error':
            st['error'] = msg
            raise Stop()
        if sig is not None and sig in known_sigs:
            st['known'].setdefault(sig, msg)
            return
        if state['fail_t'] is None:
            state['fail_t'] = time.time()
            stop.set()
        state['best'] = (key, msg, kind)
        raise Violation(msg)

    test = given(law.strategy)(body)
    test = settings(max_examples=count, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(derive(seed, pid, law.name, shard))(test)
    try:
        test()
    except Stop:
        pass
    except BaseException as ex:    # noqa
        if state['best'] is None and st['error'] is None:
            st['error'] = ''.join(traceback.format_exception(ex))[-4000:]
    if state['best'] is not None:
        key, msg, kind = state['best']
        st['failure'] = {'law': law.name, 'case': json.loads(key), 'message': msg, 'kind': kind, 'shard': shard}
    st['wall'] = time.time() - start
    return st


def load_known():
    if os.path.exists(KNOWN):
        return json.load(open(KNOWN))['findings']
    return []


def replay(pid, path):
    setup_process()
    rep = json.load(open(path))
    prop = load(pid)
    law = {x.name: x for x in prop.laws}[rep['law']]
    rec, bad = run_case(law, rep['case'], 150)
    if bad is None:
        print(f'no violation: property={pid} law={law.name}')
        return 0
    if bad[0] == 'error':
        print(bad[1])
        return 2
    print(f'VIOLATION property={pid} replay={path}')
    print(f'  law {law.name}: {bad[1]}')
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=NPROC)
    ap.add_argument('--replay')
    ap.add_argument('--law', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--profile', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args(argv)
    pid = args.property
    if args.replay:
        return replay(pid, args.replay)
    t0 = time.time()
    prop = load(pid)
    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'open']
    known_sigs = {k['signature'] for k in known}
    ctx = mp.get_context('fork')
    stop, out = ctx.Event(), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(pid, args.tier, args.seed, s, args.jobs, stop, out, known_sigs,
                                              args.law, args.scale), daemon=True)
             for s in range(args.jobs)]
    for p in procs:
        p.start()
    got, deadline = {}, t0 + SOFT_BUDGET[args.tier] + 2 * CASE_LIMIT[args.tier] + SHRINK_BUDGET + 60
    while len(got) < len(procs) and time.time() < deadline:
        try:
            shard, results, error = out.get(timeout=1)
            got[shard] = (results, error)
        except Exception:           # queue.Empty
            if all(not p.is_alive() for p in procs) and out.empty():
                break
    for p in procs:
        if p.is_alive():
            p.terminate()
    return report(prop, args, got, len(procs), time.time() - t0, known)


def report(prop, args, got, nprocs, wall, known):
    pid = prop.pid
    errors = [e for _, e in got.values() if e]
    if len(got) < nprocs:
        errors.append(f'{nprocs - len(got)} of {nprocs} workers gave no result')
    laws, labels, samples, failures, hashes, known_hit = {}, {}, [], [], set(), {}
    for shard in sorted(got):
        for st in got[shard][0]:
            d = laws.setdefault(st['law'], {'evaluations': 0, 'distinct_nontrivial': set(), 'skipped': 0, 'wall': 0.0, 'slowest': 0.0})
            d['evaluations'] += st['evaluations']
            d['distinct_nontrivial'] |= st['hashes']
            d['skipped'] += st['skipped']
            d['wall'] += st['wall']
            d['slowest'] = max(d['slowest'], st['slowest'])
            lab = labels.setdefault(st['law'], {})
            for k, v in st['labels'].items():
                lab[k] = lab.get(k, 0) + v
            if shard < 2:
                samples.extend(st['samples'][:1 if shard else 2])
            if st['failure']:
                failures.append(st['failure'])
            if st['error']:
                errors.append(f"law {st['law']}: {st['error']}")
            known_hit.update(st['known'])
    # listed findings are replayed exactly, whether or not the search met them
    by_name = {x.name: x for x in prop.laws}
    if known:
        setup_process()
    for k in known:
        hit = known_hit.get(k['signature'])
        if hit is None and 'case' in k:
            _, bad = run_case(by_name[k['law']], k['case'], 100)
            hit = bad[1] if bad and bad[2] == k['signature'] else None
        if hit is not None:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    failures.sort(key=lambda f: (f['kind'] == 'hang', len(json.dumps(f['case']))))
    code = 0
    replay_path = None
    for f in failures[:4]:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{pid}-{f['law']}.json")
        json.dump({'property': pid, 'law': f['law'], 'case': f['case'], 'message': f['message'],
                   'seed': args.seed, 'tier': args.tier, 'shard': f['shard']}, open(path, 'w'), indent=1)
        if f['kind'] == 'hang':
            # a hang only counts if it also happens alone, in a fresh process
            try:
                r = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--property', pid, '--replay', path],
                                   timeout=200, capture_output=True)
                if r.returncode == 0:
                    print(f"inconclusive: {pid} law {f['law']} exceeded its time limit once, not when replayed")
                    continue
            except subprocess.TimeoutExpired:
                pass
        replay_path = path
        code = 1
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  law {f['law']}: {f['message'][:1500]}")
        print(f"  case: {json.dumps(f['case'])[:1500]}")
        break
    if code == 0 and errors:
        code = 2
        for e in errors[:3]:
            print('HARNESS ERROR', e, file=sys.stderr)
    tot = sum(d['evaluations'] for d in laws.values())
    dn = sum(len(d['distinct_nontrivial']) for d in laws.values())
    skipped = sum(d['skipped'] for d in laws.values())
    ev = {'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
          'coverage': {
              'evaluations': tot, 'distinct_nontrivial': dn,
              'rule': prop.rule,
              'samples': [s for s in samples][:12],
              'laws': {n: {'evaluations': d['evaluations'], 'distinct_nontrivial': len(d['distinct_nontrivial']),
                           'not_started_out_of_time': d['skipped'],
                           'states': by_name[n].doc, 'classes': dict(sorted(labels[n].items(), key=lambda kv: -kv[1])[:25])}
                       for n, d in laws.items()},
          },
          'assumptions': ['floating point comparisons use the tolerances stated in pbt/lib.py',
                          'cases are sampled, absence of violations outside the sample is not established'],
          'wall_s': round(wall, 2), 'violations': 1 if code == 1 else 0}
    text = json.dumps(ev, indent=1, default=str)
    while len(text) > 50000 and ev['coverage']['samples']:
        ev['coverage']['samples'].pop()
        text = json.dumps(ev, indent=1, default=str)
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as fh:
            fh.write(text)
    print(f'{pid} {args.tier} seed={args.seed}: {tot} cases, {dn} distinct non-trivial'
          + (f', {skipped} not started (out of time)' if skipped else '') + f', {wall:.1f} s, exit {code}')
    if args.profile:
        for n, d in sorted(laws.items(), key=lambda kv: -kv[1]['wall']):
            print(f"  {n:40s} n={d['evaluations']:6d} dn={len(d['distinct_nontrivial']):6d} cpu={d['wall']:7.1f}s "
                  f"{1000 * d['wall'] / max(1, d['evaluations']):8.1f} ms/case slowest {d['slowest']:.1f}s")
            if labels[n]:
                print('      ', dict(sorted(labels[n].items(), key=lambda kv: -kv[1])[:14]))
    return code
