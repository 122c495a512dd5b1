"""C25: null spaces, linear matrix equations and matrix bases."""
from qsymm.linalg import matrix_basis, nullspace, solve_mat_eqn

from .lib import *

P = Property('C25', 'cases: real and complex matrices of any shape with a given null space, dense or sparse, and sets of matrix equations built from equivalent representations with '
             'given multiplicities, with conjugation in some; oracle: SVD of the equations in real coordinates; non-trivial: there are solutions, but not everything is one')

SPF = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix, 'lil': sp.lil_matrix}


@st.composite
def mats(draw, big=False):
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 8, 1, 3, 5] if not big else [3, 6, 10, 12, 13, 15, 20, 30, 45]))
    return {'n': n, 'm': draw(st.sampled_from([1, 2, 3, 5, 8, 4, 6, 0, 10])) if not big else n + draw(st.integers(-2, 4)), 'r': draw(st.integers(0, 8)) if not big else draw(st.sampled_from([0, 1, 2, 3, 9, 11, 12, 14, 30])),
            'kind': draw(st.sampled_from(['real', 'complex', 'int', 'cint', 'diag', 'blocks'])), 'seed': draw(seeds), 'scale': draw(st.sampled_from([1, 1, 1, 10, 0.3])),
            'k': draw(st.sampled_from([-10, -10, -1, -3, 2, 5, 1, 20, 'default'])), 'fmt': draw(st.sampled_from(['csr', 'csc', 'coo', 'csr'])), 'comp': draw(st.booleans()), 'noise': draw(st.booleans())}


def matrix(case):
    n, m = case['n'], max(case['m'], 0)
    r = min(case['r'], n, m)
    q = rs(case['seed'], 8)
    kind = case['kind']
    if kind in ('int', 'cint'):
        A = q.randint(-2, 3, (m, r)) @ q.randint(-1, 2, (r, n)) + 0.0
        if kind == 'cint':
            A = A + 1j * (q.randint(-2, 3, (m, r)) @ q.randint(-1, 2, (r, n)))
    elif kind == 'diag':
        A = np.zeros((m, n))
        for i in range(r):
            A[i, (i * 2) % n] = [1, 2, -1][i % 3]
    elif kind == 'blocks' and n > 1:
        A = np.zeros((m, n))
        for i in range(0, m - 1, 2):
            j = i % max(n - 1, 1)
            A[i:i + 2, j:j + 2] = [[1, -1], [-1, 1]] if (i // 2 + case['seed']) % 3 else [[1, 2], [0, 1]]
    else:
        cx = 1j if kind == 'complex' else 0
        U = np.linalg.qr(q.normal(size=(max(m, 1), max(m, 1))) + cx * q.normal(size=(max(m, 1), max(m, 1))))[0][:m, :r]
        V = np.linalg.qr(q.normal(size=(n, n)) + cx * q.normal(size=(n, n)))[0][:r]
        A = (U * q.choice([1, 1, 2, 0.7, 3], r)) @ V
    A = A * case['scale']
    s = np.linalg.svd(A, compute_uv=False) if A.size else np.zeros(0)
    if np.any((s > 1e-9) & (s < 0.15)):
        return None, None
    rank = int(np.sum(s > 0.1))
    if case['noise'] and A.size:
        A = A + 1e-13 * q.normal(size=A.shape)
    return A, rank


def orthonormal(v, msg, tol=1e-8):
    same(v @ v.conj().T, np.eye(len(v)), f'{msg} is not orthonormal', tol)


@P.law(mats(), 12000)
def null_space(case, rec):
    """nullspace gives an orthonormal basis of all vectors with A v = 0, and on request one of their orthocomplement; real matrices have real ones."""
    A, rank = matrix(case)
    if A is None or A.shape[0] == 0:
        return rec.trivial()
    n = A.shape[1]
    if not 0 < rank < n:
        rec.trivial()
    rec.label(case['kind'], 'wide' if n > len(A) else 'tall' if n < len(A) else 'square')
    B = A.copy()
    res = nullspace(A, return_complement=True) if case['comp'] else nullspace(A)
    req(np.array_equal(A, B), 'matrix was modified')
    ns = np.asarray(res[0] if case['comp'] else res)
    req(ns.ndim == 2 and ns.shape[1] == n, f'null space has shape {ns.shape}')
    req(len(ns) == n - rank, f'null space has dimension {len(ns)}, not {n - rank}')
    orthonormal(ns, 'null space')
    same(A @ ns.T, np.zeros((len(A), len(ns))), 'vectors are not in the null space', 1e-8, 1)
    if A.dtype.kind == 'f':
        req(ns.dtype.kind == 'f' or np.max(np.abs(ns.imag), initial=0) == 0, 'null space of a real matrix is complex')
    if case['comp']:
        nc = np.asarray(res[1])
        req(nc.shape == (rank, n), f'complement has shape {nc.shape}')
        orthonormal(nc, 'complement')
        same(nc.conj() @ ns.T, np.zeros((rank, n - rank)), 'complement is not orthogonal to the null space', 1e-7, 1)


@P.law(mats(), 800)
def tolerance(case, rec):
    """Singular values below atol count as zero, those above do not."""
    A, rank = matrix(case)
    if A is None or A.shape[0] == 0 or rank == 0:
        return rec.trivial()
    u, s, vh = np.linalg.svd(A, full_matrices=False)
    k = min(rank, 2)
    x = 10. ** -(3 + case['seed'] % 6)
    s[rank - k:rank] = x
    C = (u * s) @ vh
    for at, want in ((x * 3, A.shape[1] - rank + k), (x / 3, A.shape[1] - rank)):
        got = nullspace(C, atol=at)
        req(len(got) == want, f'null space with atol {at:.1g} and singular values {x:.1g} has dimension {len(got)}, not {want}')
    d = nullspace(C)
    if abs(math.log10(x) + 6) > 0.5:
        req(len(d) == A.shape[1] - rank + (k if x < 1e-6 else 0), 'default tolerance is not 1e-6')


@P.law(mats(big=True), 6000)
def sparse_null_space(case, rec):
    """The same with sparse linear algebra for any format, with a positive k_max at most that many vectors of it."""
    A, rank = matrix(case)
    if A is None or A.shape[0] == 0:
        return rec.trivial()
    n = A.shape[1]
    if not 0 < rank < n:
        rec.trivial()
    k = case['k']
    arg = SPF[case['fmt']](A)
    kw = {} if k == 'default' else {'k_max': k}
    form = case['seed'] % 3
    if form == 0:
        arg, kw = A.copy(), dict(kw, sparse=True)
    rec.label(case['kind'], f'k_max {k}', case['fmt'] if form else 'array', 'large' if n > 14 else 'small')
    ns = nullspace(arg, **kw)
    ns = np.asarray(dense(ns))
    same(dense(arg), A, 'matrix was modified', 1e-15)
    want = n - rank
    if k != 'default' and k > 0:
        want = min(want, k)
    req(ns.shape == (want, n), f'null space has shape {ns.shape}, expected {want} vectors')
    orthonormal(ns, 'null space', 1e-6)
    same(A @ ns.T, np.zeros((len(A), len(ns))), 'vectors are not in the null space', 1e-4, 1)
    if form == 1:
        dn = nullspace(arg, sparse=False)
        req(len(dn) == n - rank, 'null space of a sparse matrix with dense linear algebra')


# ------------------------------------------------------------------ matrix equations

@st.composite
def systems(draw, nmax=4):
    n = draw(st.sampled_from([2, 3, 2, 4, 1, 3][:6] if nmax > 3 else [1, 2, 3, 2]))
    eqs = []
    for _ in range(draw(st.integers(1, 3))):
        eqs.append([draw(seeds), draw(st.booleans())])
    return {'n': n, 'eqs': eqs, 'mult': draw(st.sampled_from([None, [1, 1], [2], [2, 1], [1, 2], [1, 1, 1], [3], [2, 2]])), 'herm': draw(st.booleans()), 'traceless': draw(st.booleans()),
            'conj': draw(st.sampled_from(['no', 'no', 'yes', 'list'])), 'U': draw(seeds), 'same': draw(st.sampled_from(['none', 'same', 'equivalent', 'equivalent', 'other'])),
            'hcoef': draw(st.booleans()), 'form': draw(st.sampled_from(['list', 'array', 'csr'])), 'zero': draw(st.integers(0, 8)) == 0}


def system(case):
    n = case['n']
    mult = case['mult']
    if mult is not None:
        while sum(mult) > n:
            mult = mult[:-1]
        mult = mult + [1] * (n - sum(mult))
    V = mat(case['U'], n, kind='unitary')
    W = mat(case['U'] + 1, n, kind='unitary')
    cj = {'no': [False] * 9, 'yes': [True] * 9, 'list': [e[1] for e in case['eqs']]}[case['conj']]
    HL, HR = [], []
    for (s, _), c in zip(case['eqs'], cj):
        if mult is None:
            A = mat(s, n, kind='herm' if case['hcoef'] else 'any')
        else:
            # diagonal with the same multiplicities in all equations
            A = np.diag(np.repeat(rs(s, 4).permutation(9)[:len(mult)] - 3.0, mult)).astype(complex)
        if case['zero']:
            A = 0 * A
        L = V @ A @ V.conj().T
        if case['same'] in ('none', 'same'):
            R = L
        elif case['same'] == 'equivalent':
            # X L = R X^(*) has the solution W
            R = W @ L @ (W.T if c else W.conj().T)
        else:
            R = mat(s + 1, n, kind='herm' if case['hcoef'] else 'any')
        HL.append(L)
        HR.append(R)
    return HL, HR, cj[:len(HL)]


def solutions(HL, HR, cj, herm, traceless, n, gap=(1e-9, 0.02)):
    """Real dimension of the solutions; None if unclear."""
    E = np.eye(n * n).reshape(-1, n, n)
    units = list(E) + list(1j * E)
    cols = []
    for X in units:
        v = []
        for L, R, c in zip(HL, HR, cj):
            v.append((X @ L - R @ (X.conj() if c else X)).ravel())
        if herm:
            v.append((X - X.conj().T).ravel())
        if traceless:
            v.append(np.array([np.trace(X)]))
        cols.append(realify(np.concatenate(v)))
    A = np.array(cols).T
    s = np.linalg.svd(A, compute_uv=False)
    s = np.concatenate([s, np.zeros(2 * n * n - len(s))])
    if np.any((s > gap[0]) & (s < gap[1])):
        return None
    return int(np.sum(s <= gap[0]))


def check_solutions(case, rec, sparse=False, k=None):
    n = case['n']
    HL, HR, cj = system(case)
    D = solutions(HL, HR, cj, case['herm'], case['traceless'], n)
    if D is None:
        rec.label('no clear gap')
        return rec.trivial()
    real = case['herm'] or any(cj)
    want = D if real else D // 2
    full = (n * n - case['traceless']) * (1 if case['herm'] or not real else 2)
    if not 0 < want < full:
        rec.trivial()
    rec.label(f'n = {n}', 'hermitian' if case['herm'] else 'any', 'traceless' if case['traceless'] else '', f"conjugate {case['conj']}", f'{want} solutions')
    mk = {'list': list, 'array': np.array, 'csr': lambda x: [sp.csr_matrix(y) for y in x]}[case['form']]
    L, R = mk(HL), mk(HR)
    kw = {'hermitian': case['herm'], 'traceless': case['traceless']}
    if case['conj'] != 'no':
        kw['conjugate'] = True if case['conj'] == 'yes' else cj
    if sparse and case['form'] != 'csr':
        kw['sparse'] = True
    if not sparse and case['form'] == 'csr':
        kw['sparse'] = False
    if k is not None:
        kw['k_max'] = k
    got = solve_mat_eqn(L, **kw) if case['same'] == 'none' else solve_mat_eqn(L, R, **kw)
    for x, y in zip(list(L) + list(R), HL + HR):
        same(x, y, 'equations were modified', 1e-15)
    got = [np.asarray(dense(x)) for x in got]
    if k is not None and k > 0:
        want = min(want, k)
    req(len(got) == want, f'{len(got)} solutions returned, there are {want}')
    for X in got:
        req(X.shape == (n, n), f'solution has shape {X.shape}')
        for l, r, c in zip(HL, HR, cj):
            same(X @ l, r @ (X.conj() if c else X), 'matrix is not a solution', 1e-5 if sparse else 1e-7)
        if case['herm']:
            same(X, X.conj().T, 'solution is not Hermitian', 1e-8)
        if case['traceless']:
            same(np.trace(X), 0, 'solution is not traceless', 1e-7)
    if got:
        v = np.array([X.ravel() for X in got])
        req(span_rank(realify(v) if real else v, 1e-5) == len(got), 'solutions are linearly dependent')


@P.law(systems(), 15000)
def equations(case, rec):
    """solve_mat_eqn gives a basis of the solutions of X HL = HR X or X HL = HR X^*, Hermitian or traceless if asked; a real basis for conjugated or Hermitian problems."""
    check_solutions(case, rec)


@P.law(st.tuples(systems(nmax=3), st.sampled_from([None, None, -1, 1, 2, 5])), 4000)
def sparse_equations(case, rec):
    """The same with sparse linear algebra, with a positive k_max at most that many solutions."""
    case, k = case
    check_solutions(case, rec, True, k)


@P.law(systems(), 400)
def inconsistent(case, rec):
    """Numbers or shapes of left and right sides that differ, matrices that are not square and a wrong number of conjugation flags raise ValueError."""
    HL, HR, cj = system(case)
    n = case['n']
    raises(ValueError, lambda: solve_mat_eqn(HL, HR + [np.eye(n)]), 'different numbers of matrices are accepted')
    raises(ValueError, lambda: solve_mat_eqn(HL, [np.eye(n + 1)] * len(HL)), 'different shapes are accepted')
    raises(ValueError, lambda: solve_mat_eqn([np.ones((n, n + 1))]), 'matrices that are not square are accepted')
    raises(ValueError, lambda: solve_mat_eqn(HL, HR, conjugate=[True] * (len(HL) + 1)), 'wrong number of conjugation flags is accepted')


@P.law(st.tuples(st.integers(1, 6), st.booleans(), st.booleans(), st.booleans(), st.booleans(), seeds), 400)
def bases(case, rec):
    """matrix_basis spans exactly the matrices described: over the reals all Hermitian, antihermitian, symmetric or antisymmetric ones, traceless if asked."""
    n, traceless, anti, real, spf, seed = case
    got = list(matrix_basis(n, traceless=traceless, antihermitian=anti, real=real, sparse=spf))
    req(all(isinstance(x, sp.csr_matrix if spf else np.ndarray) for x in got), 'basis has the wrong format')
    got = [np.asarray(dense(x)) for x in got]
    if real:
        want = n * (n - 1) // 2 if anti else n * (n + 1) // 2 - traceless
    else:
        want = n * n - traceless
    rec.label(f'n = {n}', 'real' if real else 'complex', 'antihermitian' if anti else 'hermitian')
    if n == 1:
        rec.trivial()
    req(len(got) == want, f'basis has {len(got)} elements instead of {want}')
    for X in got:
        req(X.shape == (n, n), 'basis element has the wrong shape')
        same(X.conj().T, -X if anti else X, 'basis element has the wrong symmetry', 1e-14)
        if real:
            req(np.max(np.abs(X.imag)) == 0, 'basis element is not real')
        if traceless:
            same(np.trace(X), 0, 'basis element is not traceless', 1e-14)
    if got:
        req(span_rank(realify(np.array([X.ravel() for X in got]))) == want, 'basis is dependent')
