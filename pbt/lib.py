"""Shared generators and oracles.

Nothing here uses the algorithms under test: Models are evaluated by our own recursive evaluator of
the symbolic coefficients, expected values come from explicit numpy formulas on the case description.
Case descriptions are JSON-able.  Matrices in a case are given as a seed drawn by Hypothesis (a pure
function of seed, shape and kind), so a case stays small and replays exactly.

Tolerances: ``close`` compares |a - b| <= tol * (1 + largest entry), tol = 1e-7 unless stated.
"""
import cmath
import math
import numbers

import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import scipy.sparse.linalg as sla
import sympy
import tinyarray as ta
from hypothesis import strategies as st

import qsymm
from qsymm import Model, BlochModel, PointGroupElement, ContinuousGroupGenerator  # noqa: F401
from qsymm.model import BlochCoeff
from .core import Property, Violation, req, raises  # noqa: F401

TOL = 1e-7


# ---------------------------------------------------------------- comparison

def dense(v):
    """Value of a Model as dense array."""
    if isinstance(v, sla.LinearOperator):
        n = v.shape[1]
        return np.array([v.matvec(np.eye(n, dtype=complex)[i]) for i in range(n)]).reshape(n, v.shape[0]).T
    if sp.issparse(v):
        return v.toarray()
    return np.asarray(v)


def diff(a, b):
    a, b = np.asarray(dense(a), complex), np.asarray(dense(b), complex)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    d = np.max(np.abs(a - b))
    return np.inf if not np.isfinite(d) else d


def close(a, b, tol=TOL, scale=None):
    a, b = np.asarray(dense(a), complex), np.asarray(dense(b), complex)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if scale is None:
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    return bool(diff(a, b) <= tol * (1 + scale))


def same(a, b, msg, tol=TOL, scale=None):
    if not close(a, b, tol, scale):
        A, B = np.asarray(dense(a)), np.asarray(dense(b))
        raise Violation(f'{msg}: shapes {A.shape} {B.shape}, max difference {diff(A, B):.3g}; got '
                        f'{np.array2string(A, precision=4, threshold=40)} expected '
                        f'{np.array2string(B, precision=4, threshold=40)}')


def same_up_to_phase(a, b, tol=1e-6):
    """a == exp(i phi) b for unitary matrices."""
    a, b = np.asarray(a, complex), np.asarray(b, complex)
    if a.shape != b.shape:
        return False
    i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(b[i]) < 1e-9 or abs(a[i]) < 1e-9:
        return False
    ph = a[i] / b[i]
    return abs(abs(ph) - 1) < tol and close(a, ph * b, tol)


# ---------------------------------------------------------------- symbolic evaluation

_FUNCS = {'sin': cmath.sin, 'cos': cmath.cos, 'exp': cmath.exp, 'sqrt': cmath.sqrt,
          'tan': cmath.tan, 'sinh': cmath.sinh, 'cosh': cmath.cosh, 'conjugate': lambda z: z.conjugate(),
          're': lambda z: complex(z.real), 'im': lambda z: complex(z.imag)}


def evalexpr(x, vals):
    """Numerical value of a sympy expression, our own recursive evaluator."""
    if isinstance(x, numbers.Number) and not isinstance(x, sympy.Basic):
        return complex(x)
    if isinstance(x, sympy.Symbol):
        if x.name in vals:
            return complex(vals[x.name])
        if x.name == 'e':
            return complex(math.e)
        raise Violation(f'unexpected symbol {x.name} in a result')
    if x.is_Number or x.is_NumberSymbol or x is sympy.I:
        return complex(x)
    if isinstance(x, sympy.Add):
        return sum((evalexpr(a, vals) for a in x.args), 0j)
    if isinstance(x, sympy.Mul):
        r = 1 + 0j
        for a in x.args:
            r *= evalexpr(a, vals)
        return r
    if isinstance(x, sympy.Pow):
        b, p = evalexpr(x.args[0], vals), evalexpr(x.args[1], vals)
        if b == 0:
            return complex(0) if p != 0 else complex(1)
        return cmath.exp(p * cmath.log(b)) if p.imag or p.real != round(p.real) else b ** int(round(p.real))
    name = getattr(x.func, '__name__', str(x.func))
    if name in _FUNCS and len(x.args) == 1:
        return complex(_FUNCS[name](evalexpr(x.args[0], vals)))
    raise Violation(f'unexpected term {x!r} in a result')


def keyval(key, momenta, vals):
    """Value of a key of a Model or BlochModel."""
    if isinstance(key, BlochCoeff) or (isinstance(key, tuple) and len(key) == 2):
        hop, coeff = key
        k = np.array([vals[getattr(m, 'name', str(m))] for m in momenta])
        hop = np.array(hop, float)
        if hop.shape != k.shape:
            raise Violation(f'hopping vector {hop} does not match momenta {momenta}')
        return cmath.exp(1j * hop.dot(k)) * evalexpr(coeff, vals)
    return evalexpr(key, vals)


def evalm(m, vals, shape=None):
    """Value of a Model at vals = {name: number}."""
    res = 0
    for k, v in m.items():
        v = np.asarray(dense(v), complex)
        if shape is not None:
            req(v.shape == tuple(shape), f'value of shape {v.shape} in a Model, expected {tuple(shape)}')
        res = res + keyval(k, m.momenta, vals) * v
    if isinstance(res, int):
        res = np.zeros(shape if shape is not None else (m.shape if m.shape is not None else ()), complex)
    return res


def names(m):
    return tuple(getattr(x, 'name', str(x)) for x in m.momenta)


def snapshot(m):
    """Deep value of a Model, to detect modification."""
    return ([(k, np.array(dense(v), copy=True)) for k, v in m.items()], m.momenta, m.shape, m.format, set(m.keep))


def unchanged(m, snap, msg):
    items, mom, shape, fmt, keep = snap
    now = list(m.items())
    req(len(now) == len(items) and m.momenta == mom and m.shape == shape and m.format is fmt and set(m.keep) == keep,
        f'{msg}: input modified')
    for (k, v), (k0, v0) in zip(now, items):
        req(k is k0 or k == k0, f'{msg}: input modified')
        req(np.array_equal(dense(v), v0), f'{msg}: values of the input modified')


# ---------------------------------------------------------------- matrices from seeds

seeds = st.integers(0, 2 ** 24)
maybe_seeds = st.integers(-2 ** 22, 2 ** 24).map(lambda s: None if s < 0 else s)     # None: unitary part unset


def rs(*seed):
    return np.random.RandomState([int(abs(s)) % 2 ** 32 for s in seed])


def mat(seed, n, m=None, kind='any'):
    """Matrix as function of seed. kind any|herm|real|unitary|invertible|int."""
    m = n if m is None else m
    r = rs(seed, n, m)
    if kind == 'unitary':
        style = r.randint(4)
        if style == 0:      # monomial: permutation times phases
            A = np.zeros((n, n), complex)
            A[np.arange(n), r.permutation(n)] = 1j ** r.randint(0, 4, n)
            return A
        if style == 1:      # real
            return la.qr(r.normal(size=(n, n)))[0].astype(complex)
        Q, R = la.qr(r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
        return Q * np.exp(1j * np.angle(np.diag(R)))
    style = r.randint(3)
    if style == 0:
        A = r.randint(-2, 3, (n, m)) + 1j * r.randint(-2, 3, (n, m))
        A = A * r.randint(0, 2, (n, m))
    elif style == 1:
        A = r.randint(-3, 4, (n, m)) + 1j * r.randint(-3, 4, (n, m))
    else:
        A = r.normal(size=(n, m)) + 1j * r.normal(size=(n, m))
    A = A.astype(complex)
    if kind == 'int':
        A = np.round(A)
    if kind == 'real':
        A = A.real.copy()
    if kind == 'herm':
        A = A + A.conj().T
    if kind == 'invertible':
        A = A + 0j
        u, s, v = la.svd(A)
        A = (u * np.clip(s, 0.5, 3)) @ v
    return A


def vec(seed, n, lo=-1.5, hi=1.5):
    return rs(seed, n, 77).uniform(lo, hi, n)


def values(seed, names_):
    """Real values of symbols, function of seed and name."""
    out = {}
    for nm in names_:
        r = rs(seed, *[ord(c) for c in nm])
        out[nm] = float(r.uniform(0.3, 1.7) * r.choice([-1, 1]))
    return out


MOM = ('k_x', 'k_y', 'k_z')
PARAMS = ('a', 'b', 'mu')


# ---------------------------------------------------------------- spatial rotations

def _sq():
    out = []
    for p in ((0, 1), (1, 0)):
        for s in np.ndindex(2, 2):
            R = np.zeros((2, 2), int)
            for i in range(2):
                R[i, p[i]] = 1 - 2 * s[i]
            out.append(R)
    return out


def _cu():
    import itertools
    out = []
    for p in itertools.permutations(range(3)):
        for s in np.ndindex(2, 2, 2):
            R = np.zeros((3, 3), int)
            for i in range(3):
                R[i, p[i]] = 1 - 2 * s[i]
            out.append(R)
    return out


SQ, CU = _sq(), _cu()


def _exact(x):
    """Exact value of a cosine or sine of a multiple of 60 degrees."""
    h = sympy.sqrt(3) / 2
    table = {0: sympy.Integer(0), 1: sympy.Integer(1), -1: sympy.Integer(-1), 0.5: sympy.Rational(1, 2),
             -0.5: -sympy.Rational(1, 2), round(math.sqrt(3) / 2, 6): h, -round(math.sqrt(3) / 2, 6): -h}
    return table[round(float(x), 6) + 0.0]


def rot2(angle):
    c, s = math.cos(angle), math.sin(angle)
    return np.array([[c, -s], [s, c]])


def rot3(axis, angle):
    """Rodrigues formula."""
    n = np.array(axis, float)
    n = n / np.linalg.norm(n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * (K @ K)


def hex2(i):
    """Element i (0..11) of the hexagonal group in 2D."""
    R = rot2(math.pi / 3 * (i % 6))
    return R if i < 6 else R @ np.diag([-1, 1])


def hex3(i):
    """Element i (0..23) of D6h."""
    j, s = i % 12, i // 12
    R = np.zeros((3, 3))
    R[:2, :2] = rot2(math.pi / 3 * (j % 6))
    R[2, 2] = 1
    if j >= 6:
        R = R @ np.diag([1, -1, -1])
    return -R if s else R


def gen2(seed):
    r = rs(seed, 2)
    R = rot2(r.uniform(-math.pi, math.pi))
    return R @ np.diag([1, -1]) if r.randint(2) else R


def gen3(seed):
    r = rs(seed, 3)
    R = rot3(r.normal(size=3), r.uniform(-math.pi, math.pi))
    return -R if r.randint(2) else R


def R_num(spec):
    """Numerical rotation matrix of an R spec [kind, index, form]."""
    kind, i = spec[0], spec[1]
    return {'one': lambda: np.array([[1 - 2 * (i % 2)]]), 'sq': lambda: SQ[i % 8], 'cu': lambda: CU[i % 48],
            'hex2': lambda: hex2(i % 12), 'hex3': lambda: hex3(i % 24), 'gen2': lambda: gen2(i),
            'gen3': lambda: gen3(i), 'skew2': lambda: skew(hex2(i % 12), SKEW[2]), 'skew3': lambda: skew(CU[i % 48], SKEW[3]),
            'gl2': lambda: gl(i, 2), 'gl3': lambda: gl(i, 3)}[kind]().astype(float)


# actions on the coordinates in a lattice basis: integer matrices that are not orthogonal
SKEW = {2: np.array([[1, -0.5], [0, math.sqrt(3) / 2]]), 3: np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.0]])}


def skew(R, B):
    return np.round(np.linalg.inv(B) @ R @ B)


def gl(seed, n):
    """Any matrix with determinant 1 or -1, condition number at most 4."""
    r = rs(seed, n, 5)
    U, V = (np.linalg.qr(r.normal(size=(n, n)))[0] for _ in range(2))
    d = r.choice([0.5, 1, 2, 1.5, 1], n)
    return (U * (d / np.prod(d) ** (1 / n))) @ V


def R_make(spec):
    """The object to pass as R. form: int|float|sympy|ta."""
    R, form = R_num(spec), spec[2]
    if form == 'sympy':
        return sympy.ImmutableMatrix([[_exact(x) for x in row] for row in R])
    if form == 'mutable':
        return sympy.Matrix([[_exact(x) for x in row] for row in R])
    if form == 'int':
        return np.array(np.round(R), int)
    if form == 'ta':
        return ta.array(np.round(R).astype(int).tolist(), int)
    if form == 'taf':
        return ta.array(R.tolist(), float)
    return R


INTGROUPS = {1: ['one'], 2: ['sq'], 3: ['cu']}
HEX = {2: 'hex2', 3: 'hex3'}
GEN = {2: 'gen2', 3: 'gen3'}


def R_specs(dim, exact=True, floats=True, lattice=None, general=False):
    """Strategy of R specs in given dimension.  exact: allow sympy, floats: allow float forms.
    Sympy and float matrices may not be mixed in a product, set one of them to False for that.
    lattice 'cubic' or 'hex': only that family of exact rotations (words in both together are of infinite
    order in 3D, their exact entries grow without bound)."""
    opts = []
    if lattice == 'skew' and dim > 1:
        return st.tuples(st.just(f'skew{dim}'), st.integers(0, 47), st.sampled_from(['int', 'ta'] + exact * ['sympy', 'mutable'] + floats * ['float', 'taf'])).map(list)
    if general and not exact and dim > 1:
        opts.append(st.tuples(st.just(f'gl{dim}'), seeds, st.sampled_from(['float', 'taf'])))
    if general and dim > 1:
        opts.append(st.tuples(st.just(f'skew{dim}'), st.integers(0, 47), st.sampled_from(['int', 'ta'] + exact * ['sympy', 'mutable'] + floats * ['float', 'taf'])))
    if lattice == 'hex' and dim == 3:
        return st.tuples(st.just('hex3'), st.integers(0, 23), st.sampled_from(['sympy', 'mutable'])).map(list)
    ig = INTGROUPS[dim][0]
    forms = ['int', 'ta', 'float', 'taf']
    if exact:
        forms += ['sympy', 'mutable']
    opts.append(st.tuples(st.just(ig), st.integers(0, {'one': 1, 'sq': 7, 'cu': 47}[ig]), st.sampled_from(forms)))
    if dim > 1:
        n = {2: 11, 3: 23}[dim]
        if exact and not (lattice == 'cubic' and dim == 3):
            opts.append(st.tuples(st.just(HEX[dim]), st.integers(0, n), st.sampled_from(['sympy', 'mutable'])))
        if floats:
            opts.append(st.tuples(st.just(HEX[dim]), st.integers(0, n), st.sampled_from(['float', 'taf'])))
            opts.append(st.tuples(st.just(GEN[dim]), seeds, st.sampled_from(['float', 'taf'])))
    return st.one_of(opts).map(list)


def rnum(R):
    """Any stored R as float array."""
    if isinstance(R, (sympy.MatrixBase, sympy.ImmutableMatrix)):
        return np.array([[float(R[i, j]) for j in range(R.shape[1])] for i in range(R.shape[0])])
    return np.array(np.array(R), float)


# symmetry operations: [Rspec, conjugate, antisymmetry, Useed or None]
def op_specs(dim, n, exact=True, floats=True, withU=True, lattice=None, general=False):
    return st.tuples(R_specs(dim, exact, floats, lattice, general), st.booleans(), st.booleans(),
                     maybe_seeds if withU else st.none()).map(list)


def op_make(spec, n, **kw):
    R, c, a, u = spec
    return PointGroupElement(R_make(R), bool(c), bool(a), None if u is None else mat(u, n, kind='unitary'), **kw)


class Op:
    """Reference model of a symmetry operation, plain numpy."""

    def __init__(self, R, c, a, U):
        self.R, self.c, self.a, self.U = np.array(R, float), bool(c), bool(a), U

    @classmethod
    def spec(cls, spec, n):
        R, c, a, u = spec
        return cls(R_num(R), c, a, None if u is None else mat(u, n, kind='unitary'))

    @classmethod
    def of(cls, g):
        return cls(rnum(g.R), g.conjugate, g.antisymmetry, None if g.U is None else np.array(g.U, complex))

    def __mul__(self, o):
        U = None
        if self.U is not None and o.U is not None:
            U = self.U @ (o.U.conj() if self.c else o.U)
        return Op(self.R @ o.R, self.c != o.c, self.a != o.a, U)

    def inv(self):
        U = None
        if self.U is not None:
            U = np.linalg.inv(self.U)
            if self.c:
                U = U.conj()
        return Op(np.linalg.inv(self.R), self.c, self.a, U)

    def identity(self):
        return Op(np.eye(len(self.R)), False, False, None if self.U is None else np.eye(len(self.U)))

    def power(self, n):
        g = self if n >= 0 else self.inv()
        res = self.identity()
        for _ in range(abs(n)):
            res = res * g
        return res

    def key(self, digits=5):
        R = np.round(self.R, digits) + 0.0
        return (self.c, self.a) + tuple(R.ravel())

    def act(self, f, k):
        """Transformed Hamiltonian function f at k: (+-) U f(+-R^-1 k)^(*) U^dagger."""
        kk = np.linalg.inv(self.R) @ np.asarray(k, float) * (-1 if self.c else 1)
        h = np.asarray(f(kk), complex)
        if self.c:
            h = h.conj()
        if self.a:
            h = -h
        if self.U is not None:
            h = self.U @ h @ self.U.conj().T
        return h


def check_op(g, ref, msg, tol=1e-7):
    """g (PointGroupElement) is exactly the reference operation."""
    req(isinstance(g, PointGroupElement), f'{msg}: not a symmetry operation')
    req(bool(g.conjugate) == ref.c and bool(g.antisymmetry) == ref.a,
        f'{msg}: conjugate/antisymmetry are {g.conjugate}, {g.antisymmetry}, expected {ref.c}, {ref.a}')
    same(rnum(g.R), ref.R, f'{msg}: real space action', tol)
    if ref.U is None:
        req(g.U is None, f'{msg}: unitary action should be unset')
    else:
        req(g.U is not None, f'{msg}: unitary action missing')
        same(g.U, ref.U, f'{msg}: unitary action', tol)


# ---------------------------------------------------------------- Models from specs

FMTS = ('arr', 'csr', 'lo', 'num')


class Term:
    __slots__ = ('p', 'c', 'h', 's')

    def __init__(self, t):
        self.p, self.c, self.h, self.s = t

    def key(self, mom):
        """The key as sympy expression string."""
        f = [f'{m}**{n}' if n != 1 else m for m, n in zip(mom, self.p) if n]
        f += [f'{m}**{n}' if n != 1 else m for m, n in zip(PARAMS[:2], self.c) if n]
        if self.c[2]:       # phase factor
            f.append(f'e**(({self.c[2]})*I*{PARAMS[2]})')
        if self.h is not None and any(self.h):
            ex = ' + '.join(f'({h})*I*{m}/2' for m, h in zip(mom, self.h) if h)
            f.append(f'e**({ex})')
        return ' * '.join(f) or '1'

    def ident(self):
        return (tuple(self.p), tuple(self.c), tuple(self.h) if self.h is not None else tuple([0] * len(self.p)))

    def coef(self, mom, vals):
        r = 1 + 0j
        for m, n in zip(mom, self.p):
            r *= vals[m] ** n
        for m, n in zip(PARAMS[:2], self.c):
            r *= vals[m] ** n
        r *= cmath.exp(1j * self.c[2] * vals[PARAMS[2]])
        if self.h is not None:
            r *= cmath.exp(0.5j * sum(vals[m] * h for m, h in zip(mom, self.h)))
        return r


@st.composite
def model_specs(draw, dim=None, n=None, shape=None, fmts=('arr',), kind='poly', herm=False, max_terms=4, min_terms=0,
                degree=3, params=2, mom=None):
    """kind poly | bloch | mixed. Half integer hopping vectors."""
    d = draw(st.integers(1, 3)) if dim is None else dim
    if shape is None:
        nn = draw(st.integers(1, 4)) if n is None else n
        shape = [nn, nn]
    fmt = draw(st.sampled_from(list(fmts)))
    if fmt == 'num':
        shape = []
    kinds = [kind] if kind != 'any' else ['poly', 'bloch', 'mixed']
    kd = draw(st.sampled_from(kinds))
    if mom is None:
        mom = draw(st.sampled_from([MOM[:d], MOM[:d], tuple(reversed(MOM[:d])), ('k_z', 'k_x', 'k_y')[:d], ('ell', 'p_1', 'kk')[:d]]))
    terms, seen = [], set()
    for _ in range(draw(st.integers(min_terms, max_terms))):
        p = [0] * d
        if kd in ('poly', 'mixed'):
            for _ in range(draw(st.integers(0, degree))):
                p[draw(st.integers(0, d - 1))] += 1
        c = [0] * len(PARAMS)
        for i in range(params):
            c[i] = draw(st.integers(0, 2))
        h = None
        if kd in ('bloch', 'mixed'):
            if params:
                c[2] = draw(st.sampled_from([0, 0, 0, 0, 0, 1, -1, 2]))
            h = [draw(st.sampled_from([0, 2, -2, 1, -1, 4, -3])) for _ in range(d)]
        t = [p, c, h, draw(seeds)]
        i = Term(t).ident()
        if i not in seen:
            seen.add(i)
            terms.append(t)
    return {'dim': d, 'shape': list(shape), 'fmt': fmt, 'terms': terms, 'herm': herm, 'mom': list(mom)}


def term_value(spec, t):
    if not spec['shape']:
        return complex(mat(t.s, 1)[0, 0])
    if len(spec['shape']) == 2:
        return mat(t.s, *spec['shape'], kind='herm' if spec['herm'] else 'any')
    raise ValueError


def messy(v, seed, fmt):
    """Sparse matrix with the value v in a non-canonical form: repeated, unsorted and explicitly stored zero entries."""
    v = np.asarray(v, complex)
    r = rs(seed, 31)
    i, j = [x.ravel() for x in np.indices(v.shape)]
    ent = [(a, b, v[a, b]) for a, b in zip(i, j) if v[a, b] or r.rand() < 0.5]
    out = []
    for a, b, x in ent:
        if r.rand() < 0.5:
            y = complex(r.randint(-4, 5)) / 2
            out += [(a, b, x - y), (a, b, y)]
        else:
            out.append((a, b, x))
    out = [out[q] for q in r.permutation(len(out))]
    if fmt == 'csc':
        out.sort(key=lambda t: t[1])
    elif fmt == 'csr':
        out.sort(key=lambda t: t[0])
    row, col, x = (np.array([t[q] for t in out], dtype=complex if q == 2 else int) for q in range(3))
    if fmt == 'coo':
        return sp.coo_matrix((x, (row, col)), shape=v.shape)
    major, minor, size = (row, col, v.shape[0]) if fmt == 'csr' else (col, row, v.shape[1])
    ptr = np.concatenate([[0], np.cumsum(np.bincount(major, minlength=size))])
    return (sp.csr_matrix if fmt == 'csr' else sp.csc_matrix)((x, minor, ptr), shape=v.shape)


def fmt_value(v, fmt):
    if fmt == 'csr':
        return sp.csr_matrix(v)
    if fmt == 'csc':
        return sp.csc_matrix(v)
    if fmt == 'coo':
        return sp.coo_matrix(v)
    if fmt == 'lo':
        return sla.aslinearoperator(sp.csr_matrix(v))
    return v


FMT_CLASS = {'arr': np.ndarray, 'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix,
             'lo': sla.LinearOperator, 'num': np.complex128}


def spec_terms(spec):
    return [Term(t) for t in spec['terms']]


def build(spec, cls=Model, hermitian=False, **kw):
    """Model of a spec.  hermitian: add the Hermitian conjugate term by term (see reference)."""
    data = {t.key(spec['mom']): fmt_value(term_value(spec, t), spec['fmt']) for t in spec_terms(spec)}
    args = dict(momenta=spec['mom'], shape=tuple(spec['shape']), format=FMT_CLASS[spec['fmt']])
    args.update(kw)
    return cls(data, **args)


def reference(spec, vals):
    res = np.zeros(tuple(spec['shape']), complex)
    for t in spec_terms(spec):
        res = res + t.coef(spec['mom'], vals) * np.asarray(term_value(spec, t))
    return res


def spec_vals(spec, seed):
    return values(seed, list(spec['mom']) + list(PARAMS))


def at_k(vals, mom, k):
    out = dict(vals)
    for m, x in zip(mom, k):
        out[m] = float(x)
    return out


POINTS = 3


def points(seed, names_, count=POINTS):
    return [values(seed + 7919 * i, names_) for i in range(count)]


def agree(m, f, names_, msg, seed=1, count=POINTS, shape=None, tol=TOL, scale=None):
    """Model m equals the function f(vals) at sample points."""
    for v in points(seed, names_, count):
        same(evalm(m, v, shape), f(v), msg, tol, scale)


# ---------------------------------------------------------------- linear algebra oracles

def span_rank(vs, tol=1e-7):
    vs = np.asarray(vs)
    if vs.size == 0:
        return 0
    s = la.svdvals(vs)
    return int(np.sum(s > tol * max(1, s[0])))


def in_span(v, basis, tol=1e-6):
    """v (vectors as rows) in the complex span of basis rows."""
    v, basis = np.atleast_2d(v), np.atleast_2d(basis)
    if basis.size == 0:
        return bool(np.max(np.abs(v)) < tol) if v.size else True
    c = la.lstsq(basis.T, v.T)[0]
    return bool(np.max(np.abs(basis.T @ c - v.T)) <= tol * (1 + np.max(np.abs(v))))


def realify(v):
    v = np.asarray(v)
    return np.concatenate([v.real, v.imag], axis=-1)


def spin(s):
    """Reference spin matrices from the ladder operators."""
    d = int(round(2 * s + 1))
    ms = [s - i for i in range(d)]
    Sz = np.diag(ms).astype(complex)
    Sp = np.zeros((d, d), complex)
    for i in range(1, d):
        m = ms[i]
        Sp[i - 1, i] = math.sqrt(s * (s + 1) - m * (m + 1))
    return np.array([(Sp + Sp.conj().T) / 2, (Sp - Sp.conj().T) / 2j, Sz])


L3 = np.array([[[0, 0, 0], [0, 0, -1j], [0, 1j, 0]],
               [[0, 0, 1j], [0, 0, 0], [-1j, 0, 0]],
               [[0, -1j, 0], [1j, 0, 0], [0, 0, 0]]])
PAULI = np.array([[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]], complex)
