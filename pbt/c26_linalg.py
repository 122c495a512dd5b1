"""C26: simultaneous diagonalization, row reduction and comparison of arrays."""
from fractions import Fraction

import warnings

from qsymm.linalg import _inv_int, allclose, commutator, family_to_vectors, mtm, prop_to_id, rref, simult_diag, sparse_basis

from .lib import *

P = Property('C26', 'cases: sets of commuting normal matrices with given joint multiplicities, matrices with exactly known row reduction, pairs of arrays in all formats that are equal or '
             'differ by a given amount, families of Models; oracle: the construction, exact fractions and numpy; non-trivial: stated with every law')


# ------------------------------------------------------------------ simultaneous diagonalization

@st.composite
def commuting(draw):
    n = draw(st.sampled_from([3, 4, 2, 5, 6, 1, 8]))
    k = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['herm', 'herm', 'normal', 'unitary', 'mixed', 'anti']))
    vals = [[draw(st.integers(-2, 2)) for _ in range(n)] for _ in range(k)]
    return {'n': n, 'vals': vals, 'kind': kind, 'U': draw(maybe_seeds), 'seed': draw(seeds), 'ints': draw(st.booleans()), 'checks': draw(st.sampled_from([0, 0, 1, 2])),
            'form': draw(st.sampled_from(['array', 'list', 'array'])), 'near': draw(st.sampled_from([0, 0, 0, 1e-10]))}


def eigen(case):
    n = case['n']
    rows = []
    for i, v in enumerate(case['vals']):
        x = np.array(v, float)
        if not case['ints']:
            x = x * (1.3 + 0.37 * i)
        kind = case['kind']
        if kind == 'mixed':
            kind = ['herm', 'normal', 'unitary'][i % 3]
        if kind == 'herm':
            rows.append(x + 0j)
        elif kind == 'anti':
            rows.append(1j * x)
        elif kind == 'unitary':
            rows.append(np.exp(1j * np.pi * x / 3))
        else:
            rows.append(x + 1j * np.roll(x, 1) * (np.array(v) % 2))
    return np.array(rows)


@P.law(commuting(), 8000)
def diagonalization(case, rec):
    """simult_diag gives orthonormal bases of exactly the joint eigenspaces of commuting normal matrices; non-trivial: some joint eigenspace is degenerate but not all of it."""
    n = case['n']
    E = eigen(case)
    V = np.eye(n) if case['U'] is None else mat(case['U'], n, kind='unitary')
    mats = [V @ np.diag(e) @ V.conj().T for e in E]
    if case['near']:
        mats = [M + case['near'] * mat(case['seed'] + i, n, kind='herm') * (1j if case['kind'] == 'anti' else 1) for i, M in enumerate(mats)]
    joint = {}
    for j in range(n):
        joint.setdefault(tuple(np.round(E[:, j], 6).tolist()), []).append(j)
    sizes = sorted(len(x) for x in joint.values())
    if sizes[-1] == 1 or len(sizes) == 1:
        rec.trivial()
    rec.label(case['kind'], f'{len(mats)} matrices', f'{len(sizes)} subspaces')
    arg = np.array(mats) if case['form'] == 'array' else mats
    snap = [np.array(m) for m in mats]
    Ps = simult_diag(arg, checks=case['checks'])
    req(isinstance(Ps, list), 'result is not a list')
    for x, y in zip(arg, snap):
        req(np.array_equal(x, y), 'matrices were modified')
    for p in Ps:
        req(np.ndim(p) == 2 and p.shape[0] == n, f'basis of a subspace has shape {np.shape(p)}')
    U = np.hstack(Ps)
    req(U.shape == (n, n), f'subspaces have {U.shape[1]} dimensions in total, not {n}')
    same(U.conj().T @ U, np.eye(n), 'bases of subspaces are not orthonormal', 1e-7)
    req(sorted(p.shape[1] for p in Ps) == sizes, f'subspaces have dimensions {sorted(p.shape[1] for p in Ps)}, joint eigenspaces {sizes}')
    seen = set()
    for p in Ps:
        ev = []
        for M in mats:
            x = np.trace(p.conj().T @ M @ p) / p.shape[1]
            same(M @ p, x * p, 'subspace is not a joint eigenspace', 1e-6)
            ev.append(x)
        k = [key for key in joint if max(abs(np.array(key) - ev)) < 1e-4]
        req(len(k) == 1 and k[0] not in seen, 'eigenvalues of a subspace are not joint eigenvalues')
        seen.add(k[0])


@P.law(st.tuples(commuting(), seeds, st.sampled_from([0.01, 0.1, 1])), 1000)
def refused(case, rec):
    """Matrices that do not commute or are not normal raise ValueError."""
    case, s, x = case
    n = case['n']
    if n == 1:
        return rec.trivial()
    E = eigen(case)
    V = mat(case['seed'], n, kind='unitary')
    mats = [V @ np.diag(e) @ V.conj().T for e in E]
    N = mats[0] + x * V @ np.triu(np.ones((n, n)), 1) @ V.conj().T * (1 + 1j)
    if np.max(np.abs(N @ N.conj().T - N.conj().T @ N)) > 1e-4 and np.max(np.abs(N - N.conj().T)) > 1e-2 * max(1, np.max(np.abs(N))):
        raises(ValueError, lambda: simult_diag([N] + mats), 'a matrix that is not normal is accepted')
    A = mat(s, n, kind='herm')
    if np.max(np.abs(A @ mats[0] - mats[0] @ A)) > 1e-3:
        rec.label('not commuting')
        raises(ValueError, lambda: simult_diag(np.array([mats[0], A])), 'matrices that do not commute are accepted')


# ------------------------------------------------------------------ row reduction

def frac_rref(A):
    A = [[Fraction(int(x)) for x in r] for r in A]
    r = 0
    piv = []
    for j in range(len(A[0]) if A else 0):
        i = next((i for i in range(r, len(A)) if A[i][j]), None)
        if i is None:
            continue
        A[r], A[i] = A[i], A[r]
        p = A[r][j]
        A[r] = [x / p for x in A[r]]
        for q in range(len(A)):
            if q != r and A[q][j]:
                f = A[q][j]
                A[q] = [x - f * y for x, y in zip(A[q], A[r])]
        piv.append(j)
        r += 1
        if r == len(A):
            break
    return np.array([[float(x) for x in row] for row in A]), piv


@st.composite
def intmats(draw):
    m, n = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    return {'m': m, 'n': n, 'ents': draw(st.lists(st.integers(-3, 3), min_size=m * n, max_size=m * n)), 'dup': draw(st.sampled_from([0, 0, 1, 2])), 'cplx': draw(st.booleans()), 'seed': draw(seeds),
            'scale': draw(st.sampled_from([1, 1, 100, 0.01])), 'rtol': draw(st.sampled_from(['default', 1e-3, 1e-8])), 'form': draw(st.sampled_from(['float', 'complex', 'int'])),
            'phase': draw(st.booleans()), 'digits': draw(st.sampled_from([3, 6, 8]))}


def intmat(case):
    A = np.array(case['ents']).reshape(case['m'], case['n'])
    if case['dup'] and len(A) > 1:
        A[-1] = A[0] * case['dup']
        if len(A) > 2:
            A[1] = A[0] - A[2]
    return A


@P.law(intmats(), 8000)
def reduction(case, rec):
    """rref gives the unique reduced row echelon form and the invertible matrix of row operations; non-trivial: rank at least 2 and smaller than the number of rows or columns."""
    A = intmat(case)
    R, piv = frac_rref(A)
    if not 2 <= len(piv) < max(A.shape):
        rec.trivial()
    ph = np.exp(1j * rs(case['seed']).uniform(0, 6, (len(A), 1))) if case['phase'] else 1
    M = A * case['scale'] * ph
    if case['form'] == 'complex':
        M = M.astype(complex)
    if case['form'] == 'int' and case['scale'] == 1 and not case['phase']:
        M = A.copy()
    if np.max(np.abs(M), initial=0) == 0:
        rec.label('zero')
    rec.label(f'rank {len(piv)}')
    B = M.copy()
    kw = {} if case['rtol'] == 'default' else {'rtol': case['rtol']}
    red = rref(M, **kw)
    red2, S = rref(M, return_S=True, **kw)
    req(np.array_equal(M, B), 'matrix was modified')
    same(red, R, 'reduced row echelon form', 1e-8)
    same(red2, R, 'reduced row echelon form with S', 1e-8)
    req(np.shape(S) == (len(A), len(A)), 'S is not a square matrix')
    same(S @ M, red2, 'S does not give the reduced form', 1e-8)
    req(np.linalg.svd(S, compute_uv=False)[-1] > 1e-7 / max(1, case['scale']), 'S is not invertible')


@P.law(intmats(), 3000)
def sparsification(case, rec):
    """sparse_basis gives the rounded reduced echelon form without vanishing rows, over the reals if asked, and warns if rows were dependent; non-trivial: at least two rows."""
    A = intmat(case)
    cplx = case['cplx']
    if cplx:
        A2 = rs(case['seed'], 3).randint(-2, 3, A.shape)
        A2 = A2 * (rs(case['seed'], 4).randint(2))
        R, piv = frac_rref(np.hstack([A, A2]))
        R = R[:, :A.shape[1]] + 1j * R[:, A.shape[1]:]
        M = A + 1j * A2
    else:
        R, piv = frac_rref(A)
        M = A * 1.
    if not piv:
        return rec.trivial()
    if len(piv) < 2:
        rec.trivial()
    nd = case['digits']
    R = R[:len(piv)]
    M0 = M.copy()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = sparse_basis(M, num_digits=nd, reals=True) if cplx else (sparse_basis(M, nd) if nd != 3 else sparse_basis(M))
    req(np.array_equal(M, M0), 'basis was modified')
    same(got, np.round(R, nd), 'sparse basis', 1.1 * 10. ** -nd, 0)
    req(close(got, np.round(got, nd), 1e-14), 'sparse basis is not rounded')
    req(bool(w) == (len(piv) < len(A)), 'warning about dependent rows')
    rec.label('over the reals' if cplx else 'complex', 'dependent' if w else 'independent')
    req(len(sparse_basis(M[:0])) == 0, 'empty basis')


# ------------------------------------------------------------------ comparison

FM = ['arr', 'csr', 'csc', 'lo', 'list', 'num', 'vec']


@st.composite
def arrays(draw):
    return {'n': draw(st.integers(1, 4)), 'm': draw(st.sampled_from([0, 1, 2, 3, 0])), 'seed': draw(seeds), 'f1': draw(st.sampled_from(FM)), 'f2': draw(st.sampled_from(FM)),
            'd': draw(st.sampled_from([0, 1e-11, 1e-9, 3e-8, 1e-6, 1e-5, 1e-4, 1e-2, 1])), 'scale': draw(st.sampled_from([1, 1, 1e3, 1e-3, 1e-9, 0])), 'pos': draw(st.integers(0, 20)),
            'kw': draw(st.sampled_from([{}, {}, {'atol': 1e-3}, {'rtol': 1e-2}, {'atol': 0}, {'rtol': 0}, {'atol': 1e-12, 'rtol': 1e-9}])), 'zero': draw(st.integers(0, 5)), 'b': draw(st.booleans())}


def as_form(A, f):
    if f == 'csr':
        return sp.csr_matrix(A)
    if f == 'csc':
        return sp.csc_matrix(A)
    if f == 'lo':
        return sla.aslinearoperator(A)
    if f == 'list':
        return A.tolist()
    return A


@P.law(arrays(), 8000)
def comparison(case, rec):
    """allclose holds exactly if the largest difference is at most atol + rtol times the largest entry, for arrays, lists, numbers, sparse matrices and LinearOperators; non-trivial: they differ."""
    n, m = case['n'], case['m'] or case['n']
    f1, f2 = case['f1'], case['f2']
    if 'num' in (f1, f2) or 'vec' in (f1, f2):
        shape = () if 'num' in (f1, f2) else (n,)
        A = mat(case['seed'], n).ravel()[0] if shape == () else mat(case['seed'], n)[0]
        A = np.asarray(A * case['scale'])
        if shape == ():
            f1, f2 = 'num', 'num'
        else:
            f1, f2 = ('list' if f1 == 'list' else 'arr'), ('list' if f2 == 'list' else 'arr')
    else:
        A = mat(case['seed'], n, m) * case['scale']
    if case['zero'] == 0:
        A = A * 0
    B = A.copy()
    if B.ndim:
        B.ravel()[case['pos'] % B.size] += case['d'] * np.exp(1j * case['pos'])
    else:
        B = B + case['d']
    kw = case['kw']
    at, rt = kw.get('atol', 1e-8), kw.get('rtol', 1e-5)
    sc = max(np.max(np.abs(A)), np.max(np.abs(B)))
    lim = at + rt * sc
    df = np.max(np.abs(A - B))
    if abs(df - lim) < 1e-3 * lim:
        rec.label('boundary')
        return rec.trivial()
    if df == 0:
        rec.trivial()
    x = complex(A) if f1 == 'num' else as_form(A, f1)
    y = complex(B) if f2 == 'num' else as_form(B, f2)
    rec.label(f'{f1}, {f2}', 'close' if df < lim else 'different')
    got = allclose(x, y, **kw)
    req(bool(got) == (df <= lim), f'allclose is {got} for difference {df:.3g} and limit {lim:.3g}')
    req(bool(allclose(y, x, **kw)) == bool(got), 'allclose is not symmetric')


@P.law(arrays(), 3000)
def multiples_of_one(case, rec):
    """prop_to_id recognizes exactly multiples of the identity and gives the factor; non-trivial: proportional and nonzero, or close to it."""
    n = case['n']
    c = mat(case['seed'], 1)[0, 0] * (case['scale'] or 1)
    A = c * np.eye(n)
    d = case['d']
    if d and n > 1:
        A[case['pos'] % n, (case['pos'] // 5) % n] += d
    df = d if n > 1 else 0
    if abs(c) > 1e-5:
        # everything is compared relative to the first entry
        rel = np.max(np.abs(A - A[0, 0] * np.eye(n))) / abs(A[0, 0]) if abs(A[0, 0]) > 1e-5 else 1
        if 1e-9 < rel < 1e-4:
            return rec.trivial()
        want = rel < 1e-6
        fac = A[0, 0]
    else:
        big = np.max(np.abs(A))
        if 1e-10 < big < 1e-6:
            return rec.trivial()
        if big <= 1e-10 or n == 1:
            want, fac = True, 0 if big <= 1e-10 else A[0, 0]
        else:
            want = np.max(np.abs(A - A[0, 0] * np.eye(n))) < 1e-9
            fac = A[0, 0] if abs(A[0, 0]) > 1e-5 else 0
            if abs(A[0, 0]) > 1e-10 and abs(A[0, 0]) < 1e-5:
                return rec.trivial()
    if n == 1 and abs(A[0, 0]) < 1e-6:
        want, fac = True, 0
    rec.label('proportional' if want else 'not proportional')
    got, f = prop_to_id(A)
    req(bool(got) == bool(want), f'prop_to_id is {got}')
    if want:
        same(f, fac, 'factor', 1e-9)
    else:
        req(f == 0, 'factor of a matrix that is not proportional')


# ------------------------------------------------------------------ others

@P.law(st.tuples(st.integers(1, 4), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(-3, 3)), max_size=8), seeds, st.booleans()), 2500)
def integer_inverse(case, rec):
    """_inv_int inverts exactly the integer matrices with determinant 1 or -1; others and non-integer ones raise ValueError; non-trivial: entries larger than 1."""
    n, ops, seed, flip = case
    A = np.eye(n, dtype=int)
    for i, j, k in ops:
        if i % n != j % n:
            A[i % n] += k * A[j % n]
    A = A[rs(seed).permutation(n)]
    if flip:
        A[0] = -A[0]
    if np.max(np.abs(A)) > 300:
        return rec.trivial()
    if np.max(np.abs(A)) < 2:
        rec.trivial()
    B = np.array(_inv_int(ta.array(A.tolist(), int)))
    req(B.dtype.kind == 'i', 'inverse is not an integer matrix')
    want = np.array(sympy.Matrix(A.tolist()).inv().tolist(), int)
    req(np.array_equal(B, want), 'inverse is wrong')
    C = A.copy()
    C[0] = C[0] * 2
    raises(ValueError, lambda: _inv_int(ta.array(C.tolist(), int)), 'matrix of determinant 2 is inverted')
    C[0] = 0
    raises(ValueError, lambda: _inv_int(ta.array(C.tolist(), int)), 'singular matrix is inverted')
    D = A * 1.
    D[0, 0] += 0.25
    raises(ValueError, lambda: _inv_int(ta.array(D.tolist(), float)), 'matrix that is not integer is inverted')


@st.composite
def model_families(draw):
    first = draw(model_specs(fmts=('arr',), kind='poly', max_terms=3, min_terms=0))
    more = [draw(model_specs(dim=first['dim'], shape=first['shape'], mom=first['mom'], fmts=('arr',), kind='poly', max_terms=3, min_terms=0)) for _ in range(draw(st.integers(0, 3)))]
    return {'fam': [first] + more, 'keys': draw(st.sampled_from(['none', 'given', 'more'])), 'seed': draw(seeds)}


@P.law(model_families(), 1500)
def vectors(case, rec):
    """family_to_vectors gives the real and imaginary parts of all coefficients as rows, in the order of keys given; non-trivial: two members that are not zero."""
    fam = [build(s) for s in case['fam']]
    keys = sorted({k for m in fam for k in m}, key=str)
    rs(case['seed']).shuffle(keys)
    n = int(np.prod(fam[0].shape))
    if len(fam) < 2 or sum(1 for m in fam if len(m)) < 2:
        rec.trivial()
    if case['keys'] == 'more':
        keys = keys + [sympy.Symbol('zzz')]
    snaps = [snapshot(m) for m in fam]
    V = np.asarray(family_to_vectors(fam) if case['keys'] == 'none' else family_to_vectors(fam, all_keys=list(keys)))
    for m, s in zip(fam, snaps):
        unchanged(m, s, 'family_to_vectors')
    req(V.shape == (len(fam), 2 * n * len(keys)), f'vectors have shape {V.shape}, there are {len(keys)} keys')
    want = np.array([np.concatenate([realify(np.asarray(m.data[k] if k in m else np.zeros(m.shape)).reshape(-1)) for k in keys]) if keys else np.zeros(0) for m in fam])
    rec.label(case['keys'])
    if case['keys'] == 'none':
        # any order of the keys
        got = sorted(np.round(V.T, 8).reshape(len(keys), 2 * n, len(fam)).tolist()) if keys else []
        want = sorted(np.round(want.T, 8).reshape(len(keys), 2 * n, len(fam)).tolist()) if keys else []
        same(np.array(got), np.array(want), 'vectors', 1e-7)
    else:
        same(V, want, 'vectors', 1e-12)


@P.law(st.tuples(seeds, st.integers(1, 4), st.integers(1, 4), st.integers(0, 3), st.integers(1, 4)), 400)
def products(case, rec):
    """mtm multiplies every matrix from both sides, commutator is A B - B A."""
    s, n, m, k, l = case
    a, B, c = mat(s, l, n), np.array([mat(s + i + 1, n, m) for i in range(k + 1)]), mat(s + 9, m, l)
    same(mtm(a, B, c), np.array([a @ b @ c for b in B]), 'mtm', 1e-12)
    A, B = mat(s, n), mat(s + 3, n)
    same(commutator(A, B), A @ B - B @ A, 'commutator', 1e-12)
