"""C28: copies and pickles of Models and symmetry operations are equal and independent."""
import copy
import os
import pickle
import subprocess
import sys
import tempfile

from . import c13_bloch as c13
from . import core
from .lib import *

P = Property('C28', 'cases: Models and BlochModels of all formats with subsets of kept terms, symmetry operations in all representations, '
             'continuous generators and lists of them, copied in every way Python offers (copy, copy.copy, copy.deepcopy, pickle protocols 2-5, '
             'a pickle read in another process), also repeatedly; then one of the two is modified; non-trivial: at least one nonzero term or operation')

WAYS = ['method', 'copy', 'deepcopy', 'pickle2', 'pickle3', 'pickle4', 'pickle5', 'nested']


def duplicate(x, way):
    if way == 'method':
        return x.copy() if hasattr(x, 'copy') else copy.copy(x)
    if way == 'copy':
        return copy.copy(x)
    if way == 'deepcopy':
        return copy.deepcopy(x)
    if way == 'nested':
        return copy.deepcopy({'a': [x, x]})['a'][1]
    return pickle.loads(pickle.dumps(x, protocol=int(way[-1])))


@st.composite
def model_cases(draw):
    bloch = draw(st.booleans())
    if bloch:
        c = draw(c13.blochs(fmts=('arr', 'arr', 'csr', 'csc', 'num', 'lo')))
    else:
        c = {'spec': draw(model_specs(fmts=('arr', 'arr', 'csr', 'csc', 'coo', 'num', 'lo'), kind=draw(st.sampled_from(['poly', 'bloch', 'mixed'])), max_terms=4))}
    c.update(bloch=bloch, ways=draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)), keep=draw(st.integers(0, 7)), seed=draw(seeds),
             how=draw(st.integers(0, 5)), which=draw(st.booleans()), then=draw(st.integers(0, 7)))
    return c


def make_model(case):
    m = c13.make(case) if case['bloch'] else build(case['spec'])
    ks = list(m.keys())
    m.keep = {k for i, k in enumerate(ks) if case['keep'] >> i & 1}
    return m


def alike(y, x, msg):
    """y has everything x has."""
    req(type(y) is type(x), f'{msg}: type {type(y).__name__}')
    req(y is not x, f'{msg}: the same object')
    req(names(y) == names(x) and tuple(y.momenta) == tuple(x.momenta), f'{msg}: momenta {y.momenta}')
    req(y.shape == x.shape and y.format is x.format, f'{msg}: shape or format {y.shape} {y.format}, expected {x.shape} {x.format}')
    req(set(y.keep) == set(x.keep), f'{msg}: kept terms {y.keep}, expected {x.keep}')
    req(list(y.keys()) == list(x.keys()), f'{msg}: terms {list(y.keys())}, expected {list(x.keys())}')
    for k in x:
        req(k in y, f'{msg}: lookup of term {k} fails')
        req(type(y[k]) is type(x[k]), f'{msg}: value of type {type(y[k]).__name__}, expected {type(x[k]).__name__}')
        req(np.array_equal(dense(y[k]), dense(x[k])), f'{msg}: value of term {k} changed')


def modify(m, how, fmt):
    """Change a Model in a way users do. Returns False if impossible."""
    ks = list(m.keys())
    if how == 0 and ks:
        del m[ks[0]]
    elif how == 1 and ks:
        m.keep = set(m.keep) ^ {ks[-1]}
    elif how == 2 and ks:
        m.keep.clear() if m.keep else m.keep.add(ks[0])
    elif how == 3 and ks and fmt == 'arr':
        m[ks[0]][...] = 7
    elif how == 3 and ks and fmt in ('csr', 'csc', 'coo'):
        m[ks[0]].data[...] = 7
    elif how == 4 and fmt in ('arr', 'csr', 'num') and ks:
        m[ks[-1]] = m[ks[-1]] * 3
    elif how == 5:
        m.data.clear()
    else:
        return False
    return True


def act(m, then, fmt, seed):
    """Something computed from a Model, to see whether copies go on working. Returns its value at a point."""
    mom = list(names(m))
    v = values(seed, mom + list(PARAMS))
    if fmt == 'coo':        # no arithmetic
        r = m
    elif then == 0:
        r = m + m
    elif then == 1:
        r = m * 2j
    elif then == 2:
        r = m.subs({'a': 2, 'mu': sympy.Symbol('a')})
    elif then == 3:
        r = m.rotate_momenta(np.roll(np.eye(len(mom)), 1, axis=0))
    elif then == 4 and fmt != 'lo':
        r = m.conj()
    elif then == 5 and isinstance(m, BlochModel) and m.data:
        r = m.tomodel()
    elif then == 6:
        r = m - m.copy()
    elif then == 7 and fmt in ('arr', 'num') and m.data:
        r = m * m
    else:
        r = m
    return evalm(r, v, m.shape)


@P.law(model_cases(), 1800)
def models(case, rec):
    """A copy of a Model or BlochModel has the same class, terms in the same order, kept terms, values of the same type, momenta, shape and format, and is equal;
    what is computed from it is equal; modifying the one (values in place, terms, kept terms) does not modify the other."""
    spec = case['spec']
    fmt = spec['fmt']
    rec.label('bloch' if case['bloch'] else 'model', fmt, *case['ways'])
    x = make_model(case)
    if not x.data:
        rec.trivial()
    snap = snapshot(x)
    y = x
    for w in case['ways']:
        y = duplicate(y, w)
    msg = f"{type(x).__name__} copied by {' '.join(case['ways'])}"
    alike(y, x, msg)
    unchanged(x, snap, msg)
    if fmt != 'lo' and x.shape is not None and (fmt != 'num' or x.data):
        req(y == x and x == y and not y != x, f'{msg}: not equal')
    same(act(y, case['then'], fmt, case['seed']), act(x, case['then'], fmt, case['seed']), f'{msg}: result of an operation')
    unchanged(x, snap, msg)
    if case['which']:       # modify the original instead
        z = duplicate(x, case['ways'][0])
        if modify(x, case['how'], fmt):
            unchanged(y, snap, f"{msg}: modified by modification {case['how']} of the original")
            unchanged(z, snap, f"{msg}: modified by modification {case['how']} of the original")
    elif modify(y, case['how'], fmt):
        rec.label(f"modify {case['how']}")
        unchanged(x, snap, f"{msg}: modification {case['how']} of the copy")


@st.composite
def op_cases(draw):
    dim = draw(st.integers(1, 3))
    n = draw(st.integers(1, 3))
    return {'n': n, 'g': draw(op_specs(dim, n)), 'h': draw(op_specs(dim, n)), 'strict': draw(st.booleans()), 'e': draw(st.integers(-3, 3)),
            'ways': draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3))}


@P.law(op_cases(), 1800)
def operations(case, rec):
    """A copy of a symmetry operation is equal, has the same hash, kind of rotation matrix and unitary; products, inverses and powers of copies are those of the originals."""
    n = case['n']
    g = op_make(case['g'], n, _strict_eq=case['strict'])
    h = op_make(case['h'], n)
    rec.label(case['g'][0][2], *case['ways'])
    G, H = g, h
    for w in case['ways']:
        G, H = duplicate(G, w), duplicate(H, w)
    msg = f"operation copied by {' '.join(case['ways'])}"
    ref, refh = Op.spec(case['g'], n), Op.spec(case['h'], n)
    check_op(G, ref, msg)
    req(type(G.R) is type(g.R), f'{msg}: R is {type(G.R).__name__}, was {type(g.R).__name__}')
    req(G == g and g == G and not G != g and hash(G) == hash(g), f'{msg}: not equal or other hash')
    req(len({g, G}) == 1, f'{msg}: two members of a set')
    req(G._strict_eq == g._strict_eq, f'{msg}: strictness of comparison changed')
    if (G.U is None) == (H.U is None):
        req((G < H) == (g < h) and (H < G) == (h < g), f'{msg}: order changed')
    kinds = {isinstance(x.R, (sympy.MatrixBase, sympy.ImmutableMatrix)) for x in (g, h)}
    if len(kinds) == 1:
        check_op(G * H, ref * refh, f'{msg}: product')
        check_op(g * H, ref * refh, f'{msg}: product with original')
    check_op(G ** case['e'], ref.power(case['e']), f'{msg}: power')
    check_op(G.inv(), ref.inv(), f'{msg}: inverse')
    req(repr(G) == repr(g) and str(G) == str(g), f'{msg}: printed differently')
    check_op(g, ref, 'original after copying')


@st.composite
def gen_cases(draw):
    dim = draw(st.integers(1, 3))
    n = draw(st.integers(1, 3))
    return {'dim': dim, 'n': n, 'R': draw(maybe_seeds), 'U': draw(maybe_seeds), 'spec': draw(model_specs(dim=dim, shape=[n, n], n=n, kind='poly', max_terms=3)),
            'ways': draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)), 'seed': draw(seeds)}


@P.law(gen_cases(), 500)
def generators(case, rec):
    """A copy of a continuous generator has the same matrices and acts in the same way on Models and copies of Models."""
    d, n = case['dim'], case['n']
    R = U = None
    if case['R'] is not None:
        r = rs(case['R'], d).normal(size=(d, d))
        R = 1j * (r - r.T)
    if case['U'] is not None:
        U = mat(case['U'], n, kind='herm')
    rec.label(*case['ways'])
    if R is None and U is None:
        rec.trivial()
    g = ContinuousGroupGenerator(None if R is None else R.copy(), None if U is None else U.copy())
    G = g
    for w in case['ways']:
        G = duplicate(G, w)
    msg = f"generator copied by {' '.join(case['ways'])}"
    for a, b, name in ((G.R, R, 'R'), (G.U, U, 'U')):
        req((a is None) == (b is None), f'{msg}: {name} set or unset')
        if b is not None:
            same(np.array(np.array(a), complex), b, f'{msg}: {name}')
    req(repr(G) == repr(g), f'{msg}: printed differently')
    if R is None and U is None:
        return
    m = build(case['spec'])
    if m.data:
        M = duplicate(m, case['ways'][-1])
        v = spec_vals(case['spec'], case['seed'])
        same(evalm(G.apply(M), v, m.shape), evalm(g.apply(m), v, m.shape), f'{msg}: action on a Model')


READER = r'''
import os, pickle, sys
sys.path.insert(0, os.environ['VERIF_ROOT'])
import warnings; warnings.simplefilter('ignore')
from pbt import core
from pbt.c28_copies import answer
data = pickle.load(open(sys.argv[1], 'rb'))
out = [answer(x, seed) for x, seed in data]
pickle.dump((data, out), open(sys.argv[2], 'wb'))
'''


def answer(x, seed):
    """Plain description of an object, computed with lookups and operations on it."""
    if isinstance(x, PointGroupElement):
        y = x * x.inv()
        return ['op', rnum(x.R).tolist(), x.conjugate, x.antisymmetry, None if x.U is None else np.array(x.U).tolist(),
                y == x.identity(), x == x ** 1, x in {x ** 1}, str(x)]
    v = values(seed, list(names(x)) + list(PARAMS))
    looked = [bool(k in x and np.array_equal(dense(x[k]), dense(val))) for k, val in x.items()]
    xx = x if x.format is sp.coo_matrix else x + x
    twice = evalm(xx, v, x.shape)
    return [type(x).__name__, looked, len(xx), len(x.keep), sorted(str(k) for k in x), np.array(evalm(x, v, x.shape)).tolist(), np.array(twice).tolist(),
            list(names(x)), list(x.shape or []), getattr(x.format, "__name__", None)]


@st.composite
def batches(draw):
    out = []
    for _ in range(6):
        if draw(st.integers(0, 3)) == 0:
            out.append({'op': draw(op_cases())})
        else:
            out.append({'model': draw(model_cases())})
    return {'items': out, 'proto': draw(st.integers(2, 5)), 'hashseed': draw(st.integers(1, 1000))}


@P.law(batches(), 48, thorough=8)
def elsewhere(case, rec):
    """Read in another process, with other hashes of strings, pickled objects are equal: terms and operations are found by lookup,
    computations give the same, and pickled again there they come back equal to the originals."""
    objs = []
    for it in case['items']:
        if 'op' in it:
            objs.append((op_make(it['op']['g'], it['op']['n']), 0))
        else:
            objs.append((make_model(it['model']), it['model']['seed']))
    for x, _ in objs:
        if isinstance(x, PointGroupElement):
            hash(x)
        else:
            for k in x:
                hash(k)
    want = [answer(x, s) for x, s in objs]
    with tempfile.TemporaryDirectory() as tmp:
        a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
        with open(a, 'wb') as f:
            pickle.dump(objs, f, protocol=case['proto'])
        env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']), VERIF_ROOT=core.VERIF, OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-c', READER, a, b], env=env, capture_output=True, text=True, timeout=90)
        if r.returncode < 0 or 'MemoryError' in r.stderr:
            raise MemoryError(r.stderr[-800:])
        req(r.returncode == 0, f'reading pickled objects in another process fails: {r.stderr[-800:]}')
        with open(b, 'rb') as f:
            back, have = pickle.load(f)
    for (x, _), (y, _), w, h in zip(objs, back, want, have):
        rec.label(w[0])
        for p, q in zip(w, h):
            if isinstance(p, (list, float, complex)) and np.asarray(p).dtype.kind in 'fc':
                same(np.array(q), np.array(p), 'value computed in another process')
            else:
                req(p == q, f'in another process: {q!r}, here {p!r} ({w[0]})')
        if isinstance(x, PointGroupElement):
            req(x == y and hash(x) == hash(y), 'operation that came back from another process is not equal')
        else:
            req(list(x.keys()) == list(y.keys()) and set(x.keep) == set(y.keep) and all(k in y for k in x), 'terms that came back from another process are not equal')
