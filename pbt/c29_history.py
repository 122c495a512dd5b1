"""C29: results depend on the arguments only, not on what was computed before."""
import json
import os
import select
import signal
import sys
import time
import traceback
import warnings

from qsymm import groups as gr
from qsymm import hamiltonian_generator as hg
from qsymm import kwant_continuum as kc
from qsymm import kwant_linalg_lll as lll
from qsymm import kwant_rmt as rmt
from qsymm import linalg as ql
from qsymm import model as qm
from qsymm import symmetry_finder as sf

from sympy.core.cache import clear_cache

from .families import *

P = Property('C29', 'cases: a target call, and a history of 1-5 calls of which most are the target with a few arguments changed (other representation of the same rotation, '
             'other locals, momenta, format, options); after every call of the history its results and mutable arguments are overwritten; the target is called twice with '
             'the history and once in a process that has computed nothing; non-trivial: history not empty and the target gives a result')

MAXLEN = 12


class Env:
    """Argument source: small integers. Keeps what may be overwritten."""

    def __init__(self, xs, forget=False):
        self.xs, self.own, self.i, self.forget = xs, [], 0, forget

    def __call__(self, options):
        x = self.xs[self.i % MAXLEN]
        self.i += 1
        if isinstance(options, int):
            return x % options
        return options[x % len(options)]

    def mine(self, x):
        self.own.append(x)
        if self.forget:     # symbols made from now on are other objects, as after the creation of many other symbols
            clear_cache()
        return x


def val(m, shape=None):
    atoms = {a.name for k in m for x in (k if isinstance(k, tuple) else [k]) if isinstance(x, sympy.Basic) for a in x.atoms(sympy.Symbol)}
    v = values(5, sorted((atoms | set(names(m))) - {'e'}))
    return evalm(m, v, shape)


def canon(x):
    """JSON description up to details that do not matter."""
    if isinstance(x, PointGroupElement):
        return ['op', type(x.R).__name__, rnum(x.R).tolist(), bool(x.conjugate), bool(x.antisymmetry), canon(None if x.U is None else np.array(x.U))]
    if isinstance(x, ContinuousGroupGenerator):
        return ['gen', canon(None if x.R is None else np.array(np.array(x.R), complex)), canon(None if x.U is None else np.array(x.U))]
    if isinstance(x, Model):
        return [type(x).__name__, getattr(x.format, '__name__', None), list(x.shape or []), list(names(x)), [str(k) if not isinstance(k, tuple) else [np.round(np.array(k[0], float), 8).tolist(), str(k[1])] for k in x],
                sorted(str(k[1] if isinstance(k, tuple) else k) for k in x.keep), [type(v).__name__ for v in x.values()], canon(val(x)) if x.data else None]
    if isinstance(x, sympy.MatrixBase):
        return ['matrix', type(x).__name__, [[sympy.srepr(x[i, j]) for j in range(x.shape[1])] for i in range(x.shape[0])]]
    if isinstance(x, sympy.Basic):
        return sympy.srepr(x)
    if isinstance(x, sla.LinearOperator) or sp.issparse(x):
        return [type(x).__name__, canon(dense(x))]
    if isinstance(x, np.ndarray) or type(x).__module__ == 'tinyarray':
        a = np.array(x)
        if a.dtype == object:
            return [canon(y) for y in a.ravel()]
        return ['array', a.dtype.kind, list(a.shape), [[float(z.real), float(z.imag)] for z in np.asarray(a, complex).ravel()]]
    if isinstance(x, dict):
        return [[canon(k), canon(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(y) for y in x), key=lambda y: json.dumps(y))
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, numbers.Number):
        return [type(x).__name__, float(complex(x).real), float(complex(x).imag)]
    return x if x is None or isinstance(x, str) else type(x).__name__


def alike(a, b, tol=1e-8):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or abs(a - b) <= tol * (1 + abs(a)) or (a != a and b != b)
    return a == b and type(a) is type(b)


def scramble(x, depth=0):
    """Overwrite what belongs to the user: arrays, values of Models, lists, dictionaries, sets."""
    if depth > 6:
        return
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                scramble(y, depth + 1)
        elif x.flags.writeable and x.size:
            x[...] = 7
        return
    if sp.issparse(x):
        if len(x.data):
            x.data[...] = 7
        return
    if isinstance(x, Model):
        for v in x.data.values():
            scramble(v, depth + 1)
        x.data.clear()
        x.keep.clear()
        return
    if isinstance(x, (PointGroupElement, ContinuousGroupGenerator)):
        scramble(x.U, depth + 1)
        scramble(x.R, depth + 1)
        return
    if isinstance(x, sympy.MutableDenseMatrix):
        x[0, 0] = 77
        return
    if isinstance(x, (list, tuple, set)):
        for y in list(x):
            scramble(y, depth + 1)
        if isinstance(x, list):
            x.append(None)
        if isinstance(x, set):
            x.clear()
    if isinstance(x, dict):
        for y in list(x.values()):
            scramble(y, depth + 1)
        x.clear()


# ---------------------------------------------------------------- calls

def span(models, n, pts=5):
    """Projector on the real span of the values of a family."""
    if not len(models):
        return [0]
    V = np.array([np.concatenate([realify(evalm(m, values(90 + i, list(names(m)) + list(PARAMS)), (n, n)).reshape(-1)) for i in range(pts)]) for m in models])
    u, s, vh = np.linalg.svd(V, full_matrices=False)
    r = int(np.sum(s > 1e-6 * s[0]))
    return [len(models), r, np.round(vh[:r].T @ vh[:r], 7)]


def colspan(A):
    A = np.asarray(A)
    return [list(A.shape), A.T @ A.conj()]


def make_R(e, dim, forms=('int', 'ta', 'float', 'sympy', 'mutable', 'taf')):
    k = e(4)
    form = e(forms)
    fam = {1: ['one'], 2: ['sq', 'hex2'], 3: ['cu', 'hex3']}[dim]
    fam = fam[0 if k < 3 or dim == 1 else 1]
    if fam.startswith('hex') and form in ('int', 'ta'):
        form = 'float'
    return R_make([fam, e(12), form])


def pge(e, dim, n, **kw):
    R = make_R(e, dim, **kw)
    f, u = e(8), e(4)
    U = None if u == 0 else e.mine(mat(u, n, kind='unitary'))
    if isinstance(R, (np.ndarray, sympy.MutableDenseMatrix)):
        e.mine(R)
    return PointGroupElement(R, bool(f & 1), bool(f & 2), U)


def c_op(e):
    dim, n = e([2, 3, 2, 1]), 2
    g = pge(e, dim, n)
    x = e(5) - 2
    return [g * g, g.inv(), g ** x, g.identity(), str(g), repr(g), g == g.inv(), g * g.inv() == g.identity(), hash(g) == hash(g ** 1), gr.pretty_print_pge(g, full=True, latex=True)]


def c_product(e):
    dim, n = e([2, 3, 2, 1]), 2
    exact = e(3) == 0
    forms = ('sympy', 'mutable') if exact else ('int', 'ta', 'float', 'taf')
    g, h = pge(e, dim, n, forms=forms), pge(e, dim, n, forms=forms)
    return [g * h, h * g, g == h, (g < h) if (g.U is None) == (h.U is None) else 0, hash(g) == hash(h)]


def c_apply(e):
    dim = e([2, 3, 1])
    form = e(['arr', 'csr', 'arr'])
    m = e.mine(small_model(e, dim, form))
    g = pge(e, dim, 2)
    return [g.apply(m)]


MOMS = [('k_x', 'k_y', 'k_z'), ('k_y', 'k_x', 'k_z'), ('x', 'k_x', 'y')]


def small_model(e, dim, fmt='arr', cls=None):
    mom = list(e(MOMS)[:dim])
    kind = e(4)
    cls = cls or (BlochModel if kind == 3 else Model)
    x = [['k_x**2', 'k_y', 'a', '1'], ['a*k_x', 'mu', 'k_x*k_y'], ['k_x', 'b*k_y', '2*a'],
         ['a*e**(I*k_x)', 'e**(-I*k_x)', '1', 'e**(I*k_x/2 + I*k_y)']][kind]
    if kind == 3 and 'k_y' not in mom:
        x = x[:3]
    ren = {'k_y': mom[-1], 'k_x': mom[0]}
    keys = [''.join(ren.get(t, t) for t in __import__('re').split(r'(k_[xy])', k)) for k in x]
    data = {}
    for i, k in enumerate(keys):
        data[k] = fmt_value(mat(i + kind, 2), fmt)
    return cls(e.mine(data), momenta=mom)


def c_model(e):
    dim = e([2, 3, 1])
    fmt = e(['arr', 'csr', 'arr', 'lo'])
    m = e.mine(small_model(e, dim, fmt))
    k = e(['k_x', 'a*k_x', 'k_x**2', 1, 1.0, sympy.Integer(1), '1', 2.0, 2, sympy.Symbol('k_x')])
    have = None if isinstance(m, BlochModel) else m[k]
    return [m, have, [sympy.srepr(x) for x in Model({k: np.eye(2)}, momenta=['k_x'])], m.zeros_like(), m + m, 2 * m, m.copy()]


def c_subs(e):
    dim = e([2, 3, 1])
    m = e.mine(small_model(e, dim))
    a = e([{'a': 2}, {'a': 0.5}, {'a': sympy.Symbol('b')}, [('a', 'b'), ('b', 3)], {'mu': 'a'}, {'k_y': sympy.Symbol('q')}, {'a': sympy.sqrt(2)}, {sympy.Symbol('k_y'): sympy.Symbol('q')}, {sympy.Symbol('k_y'): 2}, {sympy.Symbol('k_x'): 2 * sympy.Symbol('k_x') + 1}])
    return [m.subs(e.mine(a.copy()))]


def c_rotate(e):
    dim = e([2, 3, 1])
    m = e.mine(small_model(e, dim))
    return [m.rotate_momenta(make_R(e, dim))]


def c_export(e):
    dim = e([2, 3, 1])
    m = e.mine(small_model(e, dim, e(['arr', 'csr'])))
    f = m.lambdify()
    v = values(9, list(names(m)) + list(PARAMS))
    import inspect
    args = list(inspect.signature(f).parameters)
    return [m.tosympy(nsimplify=bool(e(2))), args, f(**{k: v[k] for k in args}), m.evalf(e.mine(dict(v))), m.tocsr() if m.format is np.ndarray else m.toarray()]


def c_parse(e):
    src = e(['k_x*a*k_x', 'k_x*a*k_y', 'a * e**(I*k_x)', 'k_x*A(a)*k_x', 'cos(k_x) + a', 'k_x**2 * Matrix([[1, 0], [0, -1]])', '[[a, k_x], [k_x, -a]]', 'A*B + C', 'x*k_x*sigma_0 + sigma_x', 'kron(sigma_x, sigma_z)*k_x', 'exp(I*k_x)'])
    loc = e([None, {'a': 3}, {'a': sympy.Symbol('zz')}, {'k_x': 2}, {'A': 1, 'C': 'B'}, {'a': 'x'}, {'a': sympy.Symbol('x')}, {'a': '2'}, {'a': 2.0}, {'a': 'k_x'}, {'a': sympy.Symbol('k_x')}, {'a': [[1, 0], [0, 2]]}, {'a': np.diag([1, 2])}, {'x': sympy.Symbol('x', commutative=False)}, {'e': 2}])
    loc = e.mine(dict(loc)) if loc is not None else None
    x = kc.sympify(src, locals=loc)
    out = [x]
    if isinstance(x, sympy.MatrixBase):
        out.append(kc.monomials(x))
    return out


def c_model_from_text(e):
    src = e(['k_x * Matrix([[1, 0], [0, -1]]) + a * k_y * Matrix([[0, 1], [1, 0]])', 'a * e**(I*k_x) * eye(2)', '[[a, k_x], [k_x, -a]]', 'cos(k_x)*sigma_x + a*sigma_z', 'A*k_x*sigma_0'])
    loc = e([None, {'a': 3}, {'a': sympy.Symbol('zz')}, {'A': 'k_x'}])
    mom = e(MOMS)
    cls = e([Model, Model, BlochModel])
    if cls is BlochModel and 'e**' not in src and 'cos' not in src:
        cls = Model
    return [cls(src, locals=e.mine(dict(loc)) if loc else None, momenta=mom)]


def c_spin(e):
    s = e([0.5, 1, 1.5, 2])
    S = gr.spin_matrices(s, include_0=bool(e(2)))
    n = [[0, 0, np.pi / 2], [np.pi, 0, 0], [1, 1, 1]][e(3)]
    return [S, gr.spin_rotation(e.mine(np.array(n)), s), gr.L_matrices(d=e([2, 3]), l=1), gr.L_matrices(d=3, l=e([1, 2])), gr.rotation_to_angle(rot3([1, 2, 3], e(5) * 0.7))]


def c_factories(e):
    dim, s = e([2, 3]), e([None, 0.5, 1])
    U = None if s is not None else e([None, mat(3, 2, kind='unitary')])
    out = [qsymm.identity(dim, shape=2 if e(2) else None), qsymm.time_reversal(dim, spin=s, U=U), qsymm.particle_hole(dim, U=U), qsymm.inversion(dim, U=U)]
    an = e([1 / 4, 1 / 3, 1 / 2, 0.1, 1 / 6])
    if dim == 2:
        out.append(qsymm.rotation(an, spin=s, U=U))
    else:
        out.append(qsymm.rotation(an, axis=e([[0, 0, 1], [1, 1, 1], [1, 0, 0]]), spin=s, U=U, inversion=bool(e(2))))
    out.append(qsymm.mirror(e([[1, 0], [1, 1], [0, 1]]) + [0] * (dim - 2), spin=s, U=U))
    return out


def c_groups(e):
    f = e([gr.square, gr.hexagonal, gr.cubic, gr.square, gr.hexagonal])
    kw = dict(tr=bool(e(2)), ph=bool(e(2)), generators=bool(e(2)))
    s = e([None, None, 0.5, 1])
    if s is not None:
        kw.update(spin=s, ph=False)
    if f is gr.hexagonal:
        kw.update(dim=e([2, 3]), sympy_R=bool(e(2)))
    if f is gr.cubic:
        kw.update(tr=False, ph=False)
    g = f(**kw)
    return [len(g), sorted((canon(x)[2:5] for x in g), key=str), isinstance(g, set)]


SMALLU = [np.eye(2), np.diag([1, -1]), np.array([[0, 1], [1, 0]]), np.array([[0, -1], [1, 0]]), 1j * np.eye(2), np.array([[0, -1j], [1j, 0]])]


def c_closure(e):
    """Groups of operations with U from a finite group, up to 96 elements with 2x2 matrices."""
    dim = e([2, 2, 3, 1])
    form = e(['int', 'sympy', 'float', 'int', 'ta'])
    withu = e([False, True])
    gens = []
    for _ in range(e([2, 3, 1])):
        f = e(4)
        U = SMALLU[e(6)] if withu else None
        R = R_make([{1: 'one', 2: 'sq', 3: 'cu'}[dim], e(12), form])
        gens.append(PointGroupElement(R, bool(f & 1), bool(f & 2), None if U is None else np.array(U, complex)))
    e.mine(gens)
    els = closure_ref(gens)
    if els > (48 if form != 'sympy' else 16):
        return ['large']
    G = gr.generate_group(e.mine(set(gens)))
    return [len(G), sorted(([canon(x)[2], bool(x.conjugate), bool(x.antisymmetry), None if x.U is None else np.round(x.U.view(float), 6).tolist()] for x in G), key=str),
            sorted(len(k) for k in gr.generate_subgroups(G)) if len(G) <= 8 else 0]


def closure_ref(gens):
    """Number of elements generated."""
    def key(o):
        return (tuple(np.round(o[0].ravel()).astype(int).tolist()), o[1], o[2], () if o[3] is None else tuple(np.round(2 * o[3].ravel()).view(float) + 0.0))
    ops = [(rnum(g.R), bool(g.conjugate), bool(g.antisymmetry), g.U) for g in gens]
    els = {key(o): o for o in ops}
    todo = list(els.values())
    while todo:
        x = todo.pop()
        for y in ops:
            z = (x[0] @ y[0], x[1] ^ y[1], x[2] ^ y[2], None if x[3] is None else x[3] @ (y[3].conj() if x[1] else y[3]))
            if key(z) not in els:
                els[key(z)] = z
                todo.append(z)
    return len(els)


def c_continuum(e):
    dim = e([2, 1, 3])
    nice = e(3) == 0
    syms = [[qsymm.time_reversal(dim, spin=0.5)], [qsymm.time_reversal(dim, spin=0.5), qsymm.inversion(dim, U=np.diag([1, 1]))],
            [qsymm.time_reversal(dim, spin=0.5), qsymm.mirror([1, 0, 0][:dim], spin=0.5) if dim > 1 else qsymm.inversion(1, U=np.diag([1, -1]))],
            [qsymm.particle_hole(dim, np.array([[0, 1], [1, 0]])), qsymm.time_reversal(dim, spin=0.5)],
            [ContinuousGroupGenerator(None, np.diag([1, -1])), qsymm.time_reversal(dim, np.eye(2))]][e(5)]
    tp = e([2, 1, 0, 3])
    mom = e([None, ['k_x', 'k_y', 'k_z'], ['k_z', 'p', 'q']])
    kw = {} if mom is None else {'momenta': e.mine([sympy.Symbol(m, commutative=False) for m in mom[:dim]])}
    allp = e([None, None, [1] * dim, [[0, 2]] * dim])
    if allp is not None:
        kw['all_powers'] = e.mine([list(x) if isinstance(x, list) else x for x in allp])
    fam = qsymm.continuum_hamiltonian(e.mine(list(syms)), dim, tp, prettify=nice, **kw)
    e.mine(syms)
    e.mine(fam)
    return [span(fam, 2), [canon(m)[:4] for m in fam]]


def c_pairing(e):
    dim = e([2, 1, 3])
    syms = [[qsymm.time_reversal(dim, spin=0.5)], [qsymm.time_reversal(dim, spin=0.5), qsymm.inversion(dim, U=np.eye(2))],
            [ContinuousGroupGenerator(None, np.diag([1, -1])), qsymm.time_reversal(dim, np.eye(2))], [qsymm.inversion(dim, U=np.diag([1, -1]))],
            [ContinuousGroupGenerator(None if dim == 1 else ROT[dim].copy(), np.diag([0.5, -0.5])), qsymm.time_reversal(dim, spin=0.5)]][e(5)]
    kw = {}
    ph = e([None, 1, -1, 'array'])
    if ph is not None:
        kw['phases'] = e.mine(np.ones(len(syms)) if ph == 'array' else [ph] * len(syms))
    sq = e([None, 1, -1])
    if sq is not None:
        kw['ph_square'] = sq
    mom = e([None, ['k_z', 'p', 'q']])
    if mom is not None:
        kw['momenta'] = e.mine([sympy.Symbol(m, commutative=False) for m in mom[:dim]])
    arg = e.mine(list(syms))
    snap = canon(syms)
    out = []
    for _ in range(1 + e(2)):
        fam = qsymm.continuum_pairing(arg, dim, e([1, 2, 0]) if not out else 1, prettify=e(3) == 0, **kw)
        out.append([span(fam, 2), [canon(m)[:4] for m in fam]])
        e.mine(fam)
    req(alike(canon(syms), snap), 'continuum_pairing modified the symmetries')
    return out


ROT = {1: None, 2: np.array([[0, -1j], [1j, 0]]), 3: np.array([[0, -1j, 0], [1j, 0, 0], [0, 0, 0]])}


def c_bloch(e):
    sq = e(3)
    syms = [[qsymm.time_reversal(2, np.eye(2))], [qsymm.time_reversal(2, np.eye(2)), qsymm.rotation(1 / 4, U=np.diag([1, -1]))],
            [qsymm.mirror([1, 0], U=np.diag([1, -1])), qsymm.inversion(2, U=np.eye(2))]][sq]
    norbs = [OD([('A', 2)]), OD([('A', 1), ('B', 1)])][0 if sq else e(2)]
    a = list(norbs)[0]
    b = list(norbs)[-1]
    hop = [(a, b, [1, 0]), (a, a, [0, 1]), (a, b, [1, 1])]
    hops = e.mine(hop[:e([1, 2, 3])])
    fam = qsymm.bloch_family(hops, e.mine(list(syms)), e.mine(norbs), onsites=bool(e(2)), bloch_model=bool(e(2)), prettify=bool(e(2)))
    return [span(e.mine(fam), 2), [canon(m)[:4] for m in fam]]


def OD(x):
    from collections import OrderedDict
    return OrderedDict(x)


SX, SY, SZ = PAULI[1], PAULI[2], PAULI[3]


def example(e):
    """Model with a few symmetries."""
    k = e(6)
    dim = 2
    H = [{'k_x': SX, 'k_y': SY}, {'k_x**2 + k_y**2': np.eye(2), 'a': SZ}, {'a': np.kron(SX, np.eye(2)), 'b': np.kron(SZ, np.eye(2)), 'k_x': np.kron(SY, np.eye(2))},
         {'a*k_x*k_y': np.eye(3), 'b': np.diag([1, 1, -1])}, {'e**(I*k_x)': SX + 1j * SY, 'e**(-I*k_x)': SX - 1j * SY, 'a': SZ}, {'k_x**2': np.eye(2), 'k_y**2': SX}][k]
    data = {}
    for key, v in H.items():
        for t in key.split(' + '):
            data[t] = np.array(v, complex)
    m = Model(e.mine(data), momenta=['k_x', 'k_y'])
    if e(4) == 1:
        m = m.tocsr()
    return m, dim


def c_finder(e):
    m, dim = example(e)
    cand = [None, gr.square(tr=True, ph=False), gr.square(tr=True, ph=True, generators=True), gr.hexagonal(dim=2, tr=False, ph=False, generators=True)][e(4)]
    if cand is None:
        cand = [qsymm.time_reversal(2), qsymm.inversion(2)]
    pretty = bool(e(2))
    dense_ = m.toarray() if m.format is not np.ndarray else m
    s, c = qsymm.symmetries(dense_, e.mine(set(cand) if e(2) else list(cand)), prettify=pretty, continuous_rotations=bool(e(2)), generators=False)
    e.mine(m)
    e.mine(s)
    e.mine(c)
    v = np.array([np.concatenate([np.asarray(x.U).reshape(-1), np.zeros(4) if x.R is None else np.array(np.array(x.R), complex).reshape(-1)]) for x in c]) if c else np.zeros((1, 1))
    return [sorted((canon(x)[2:5] for x in s), key=str), len(c), np.linalg.matrix_rank(v, 1e-6)]


def c_rotations(e):
    m, dim = example(e)
    m = m.toarray() if m.format is not np.ndarray else m
    if isinstance(m, BlochModel) or any('e' == str(x) for k in m for x in k.atoms(sympy.Symbol)):
        m = Model({'k_x': SX, 'k_y': SY}, momenta=['k_x', 'k_y'])
    gens = qsymm.continuous_symmetries(m, prettify=bool(e(2)))
    e.mine(gens)
    return [len(gens)]


PER = [np.eye(2), np.array([[1, 0], [-0.5, math.sqrt(3) / 2]]), np.diag([1, 1.5]), np.eye(3), np.array([[1, 1, 0], [1, 0, 1], [0, 1, 1.0]]), np.diag([1, 1, 2.0]), np.array([[1, 0.3], [0, 1.2]])]


def c_bravais(e):
    p = e.mine(np.array(PER[e(7)], float))
    g = qsymm.bravais_point_group(p, tr=bool(e(2)), ph=bool(e(2)), generators=bool(e(2)), verbose=False)
    e.mine(g)
    return [sorted((canon(x)[2:5] for x in gr.generate_group(set(g))), key=str)]


def c_rmt(e):
    sym = e(['A', 'AI', 'AII', 'D', 'C', 'AIII', 'BDI', 'DIII', 'CI', 'CII'])
    n, seed = e([4, 8]), e(3)
    rng = e([0, 1])
    return [rmt.gaussian(n, sym, v=e([1., 2.]), rng=np.random.RandomState(seed) if rng else seed), rmt.circular(n, sym, rng=np.random.RandomState(seed) if rng else seed)]


def c_lattice(e):
    b = e.mine(np.array([np.eye(2), [[1, 0.2], [3.1, 1]], [[2, 1, 0], [1, 3, 1], [0, 1, 4.0]], [[1, 0, 0], [4, 1, 0]]][e(4)], float))
    v = e.mine(np.arange(b.shape[1]) * 0.37 + 0.21)
    n = e([1, 2, 3])
    L, c = lll.lll(b)
    return [L, c, lll.cvp(v, b, n=n, group_by_length=bool(e(2))), sorted(np.asarray(lll.voronoi(b)).tolist())]


def c_linalg(e):
    n = e([3, 4])
    s = e(4)
    A = e.mine(mat(s, n - 1, n, kind='int'))
    which = e(5)
    if which == 0:
        return [colspan(ql.nullspace(A)), colspan(ql.nullspace(A, return_complement=True)[1])]
    if which == 1:
        H = mat(s, n, kind='unitary')
        D = [H @ np.diag([1, 1, 2, 2][:n]) @ H.conj().T, H @ np.diag([1, 3, 3, 3][:n]) @ H.conj().T]
        Ps = ql.simult_diag(e.mine(np.array(D)))
        return [[p @ p.conj().T for p in Ps]]
    if which == 2:
        return [list(ql.matrix_basis(n, traceless=bool(e(2)), antihermitian=bool(e(2)), real=bool(e(2)))), list(ql.matrix_basis(2, traceless=bool(e(2))))]
    if which == 3:
        r = ql.rref(A, return_S=bool(e(2)))
        return [r]
    HL = e.mine(np.array([np.kron(SX, np.eye(2)), np.kron(SZ, np.eye(2))]))
    sol = ql.solve_mat_eqn(HL, hermitian=bool(e(2)), traceless=bool(e(2)))
    sol = np.array(sol).reshape(len(sol), -1)
    return [len(sol), np.linalg.matrix_rank(sol, 1e-6)]


def c_family(e):
    fam = e.mine([Model({'k_x': SX, 'k_y': SY}, momenta=['k_x', 'k_y']), Model({'k_x': SY, 'k_y': -SX}, momenta=['k_x', 'k_y']), Model({'k_x': SX, 'k_y': -SY}, momenta=['k_x', 'k_y'])][:e([3, 2, 1])])
    which = e(6)
    if which == 0:
        out = [hg.hamiltonian_from_family(fam, coeffs=e([None, sympy.symbols('a b c'), sympy.symbols('p q a')]) if len(fam) == 3 else None, tosympy=bool(e(2)), nsimplify=bool(e(2)))]
    elif which == 1:
        out = [span(hg.constrain_family(e.mine([qsymm.time_reversal(2, spin=0.5), qsymm.rotation(1 / 4, spin=0.5)][:e([1, 2])]), fam), 2)]
    elif which == 2:
        out = [span(hg.make_basis_pretty(fam, num_digits=e([2, 3])), 2)]
    elif which == 3:
        out = [span(hg.remove_duplicates(fam + fam[:1], tol=e([1e-8, 1e-4])), 2)]
    elif which == 4:
        out = [span(hg.subtract_family(fam, fam[:1], prettify=bool(e(2))), 2)]
    else:
        out = [span([hg.symmetrize_monomial(fam[0], e.mine([qsymm.time_reversal(2, spin=0.5), qsymm.rotation(1 / 4, spin=0.5)]))], 2), [bool(hg.check_symmetry(fam, [qsymm.time_reversal(2, spin=0.5)]))] if e(2) else 0]
    return out


def c_names(e):
    dim, s = e([2, 3]), e([None, 0.5])
    g = qsymm.rotation(e([1 / 4, 1 / 3, 1 / 6, 0.1, 1 / 2]), axis=[0, 0, 1] if dim == 3 else None, spin=s, U=None)
    c = ContinuousGroupGenerator(np.array([[0, -1j], [1j, 0]]) if e(2) else None, np.diag([0.5, -0.5]) if e(2) else None)
    out = [gr.pretty_print_pge(g, full=bool(e(2)), latex=bool(e(2))), repr(g), str(g)]
    if c.R is not None or c.U is not None:
        out += [gr.pretty_print_cgg(c, latex=bool(e(2))), repr(c)]
    return out


CALLS = {f.__name__[2:]: f for f in (c_op, c_product, c_apply, c_model, c_subs, c_rotate, c_export, c_parse, c_model_from_text, c_spin, c_factories, c_groups, c_closure,
                                     c_continuum, c_pairing, c_bloch, c_finder, c_rotations, c_bravais, c_rmt, c_lattice, c_linalg, c_family, c_names)}


def call(name, xs, wreck, forget=False):
    """Result of a call; afterwards its results and arguments are overwritten if wreck."""
    global SX, SY, SZ
    SX, SY, SZ = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1 + 0j, -1])
    e = Env(xs, forget)
    try:
        r = CALLS[name](e)
        c = canon(r)
    except Violation:
        raise
    except (ValueError, TypeError, KeyError, NotImplementedError, AssertionError, AttributeError, ZeroDivisionError, IndexError) as ex:
        r, c = None, ['raised', type(ex).__name__, str(ex)[:200] if not isinstance(ex, Violation) else '']
    if wreck:
        scramble(r)
        for x in e.own:
            scramble(x)
    return c


def surroundings():
    from sympy.core.sympify import converter
    s = np.random.get_state()
    return {'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)), 'numpy error handling': repr(np.geterr()), 'numpy random state': repr((s[1][:8].tolist(), s[2])),
            'python random state': repr(hash(__import__('random').getstate())), 'warning filters': repr(len(warnings.filters)), 'environment': repr(sorted(os.environ.items())), 'working directory': os.getcwd(),
            'recursion limit': sys.getrecursionlimit(), 'sympy converter': repr(sorted(k.__name__ + str(v) for k, v in converter.items() if k.__module__ != 'x')),
            'signal handler': repr(signal.getsignal(signal.SIGINT)), 'float format': repr(np.float64(0.1)), 'trace': repr(sys.gettrace())}


def in_child(f, limit):
    """JSON result of f() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(limit) + 5)
            try:
                out = ['ok', f()]
            except Violation as v:
                out = ['violation', str(v)]
            except MemoryError:
                out = ['memory', '']
            except Exception as ex:
                out = ['error', ''.join(traceback.format_exception(ex))[-2000:]]
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data[:1 << 16])
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data, end = b'', time.time() + limit
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
            if not ready:
                return ['hang', '']
            x = os.read(r, 1 << 16)
            if not x:
                break
            data += x
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise MemoryError('child process ended without an answer')
    return json.loads(data)


# arguments used by a kind of calls (at most)
NARGS = {'op': 5, 'product': 9, 'apply': 8, 'model': 5, 'subs': 4, 'rotate': 5, 'export': 5, 'parse': 2, 'model_from_text': 4, 'spin': 6, 'factories': 9, 'groups': 6, 'continuum': 5, 'pairing': 8,
         'bloch': 6, 'finder': 7, 'rotations': 3, 'bravais': 4, 'rmt': 5, 'lattice': 3, 'linalg': 5, 'family': 4, 'names': 6}


def where(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not alike(x, y):
                return where(x, y, f'{path}[{i}]')
    return f'{path}: {str(a)[:300]} instead of {str(b)[:300]}'


@st.composite
def cases(draw, kinds, most=5):
    k = draw(st.sampled_from(kinds))
    xs = draw(st.lists(st.integers(0, 59), min_size=MAXLEN, max_size=MAXLEN))
    hist = []
    for _ in range(draw(st.integers(1, most))):
        w = draw(st.integers(0, 5))
        if w == 0:
            hist.append([draw(st.sampled_from(kinds)), draw(st.lists(st.integers(0, 59), min_size=MAXLEN, max_size=MAXLEN))])
        else:
            ys = list(xs)
            for _ in range([0, 0, 1, 1, 2, 3][w]):
                i = draw(st.sampled_from(range(NARGS.get(k, MAXLEN))))
                ys[i] = (ys[i] + draw(st.sampled_from([1, -1, 2, -2, 3, 7, 11]))) % 60
            hist.append([k if draw(st.integers(0, 3)) else draw(st.sampled_from(kinds)), ys])
    return {'target': [k, xs], 'hist': hist, 'forget': draw(st.integers(0, 3)) == 0}


def examine(case, rec):
    k, xs = case['target']
    rec.label(k, *['other symbols'] if case.get('forget') else [])

    def with_history():
        before = surroundings()
        for name, ys in case['hist']:
            call(name, ys, True)
        mid = surroundings()
        a = call(k, xs, True, case.get('forget'))
        b = call(k, xs, True)
        return [before, mid, a, b, surroundings()]

    def alone():
        return call(k, xs, False)
    out = []
    for f in (with_history, alone):
        r = in_child(f, 45)
        req(r[0] != 'hang', f'no result of {k} after 45 s')
        if r[0] == 'memory':
            raise MemoryError(r[1])
        req(r[0] == 'ok', f'{r[1]}')
        out.append(r[1])
    before, mid, a, b, after = out[0]
    pure = out[1]
    if isinstance(pure, list) and pure[:1] == ['raised']:
        rec.trivial()
        rec.label(f'raises {k} {pure[1:]}')
        pure, a, b = pure[:2], a[:2], b[:2]
    for s in before:
        req(before[s] == mid[s] == after[s], f'{s} changed by {k} or {[h[0] for h in case["hist"]]}: {str(before[s])[:200]} {str(after[s])[:200]}')
    req(alike(a, pure), f'{k} after {[h[0] for h in case["hist"]]} gives something else than in a new process, at {where(a, pure)}')
    req(alike(b, pure), f'{k} called again, after its results and arguments were overwritten, gives something else, at {where(b, pure)}')


FAST = ['op', 'product', 'apply', 'model', 'subs', 'rotate', 'export', 'parse', 'model_from_text', 'spin', 'factories', 'lattice', 'linalg', 'rmt', 'names', 'family']
SLOW = ['groups', 'closure', 'continuum', 'pairing', 'bloch', 'finder', 'rotations', 'bravais']


@P.law(cases(FAST, 10), 2000)
def basics(case, rec):
    """Symmetry operations, Models, parsing, spin matrices, factories, random matrices, linear algebra, lattices, names: what a call returns does not depend on
    previous calls or on later modification of their results and arguments, and repeated calls agree; global state (random numbers, numpy and sympy settings, environment) is untouched."""
    examine(case, rec)


@P.law(cases(SLOW), 450)
def algorithms(case, rec):
    """The same for groups, families of Hamiltonians, symmetry finders and lattices, whose results are compared as sets and spans."""
    examine(case, rec)


@P.law(cases(FAST + SLOW), 300)
def mixed(case, rec):
    """The same for histories of all kinds."""
    examine(case, rec)
