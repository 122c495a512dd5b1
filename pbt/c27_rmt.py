"""C27: random matrix ensembles."""
from qsymm import kwant_rmt as rmt

from .lib import *

P = Property('C27', 'cases: symmetry class, size, scale, charge, kind of random number generator and seed; oracle: symmetry conditions and degrees of freedom of the ten '
             'Altland-Zirnbauer classes, moments of the distributions; non-trivial: the class has a symmetry and the matrix more than one entry')

SYMS = ['A', 'AI', 'AII', 'AIII', 'BDI', 'CII', 'D', 'DIII', 'C', 'CI']
TSQ = {'AI': 1, 'BDI': 1, 'CI': 1, 'AII': -1, 'CII': -1, 'DIII': -1}
PSQ = {'D': 1, 'BDI': 1, 'DIII': 1, 'C': -1, 'CI': -1, 'CII': -1}
CHIRAL = ('AIII', 'BDI', 'CII', 'DIII', 'CI')
X, Y, Z = PAULI[1], PAULI[2], PAULI[3]


def blockop(M, n):
    M = np.asarray(M, complex)
    return np.kron(np.eye(n // len(M)), M)


def conditions(sym, n):
    """[(matrix, conjugate, sign)]: H = sign M H^(*) M^+."""
    one, s = np.eye(1), {}
    I2 = np.eye(2)
    out = []
    if sym in CHIRAL:
        out.append((blockop(Z, n), False, -1))
    t = {'AI': one, 'BDI': Z, 'CI': X, 'AII': Y, 'CII': np.kron(Y, I2), 'DIII': Y}.get(sym)
    p = {'C': Y, 'CI': Y, 'CII': np.kron(Y, Z), 'D': one, 'BDI': one, 'DIII': X}.get(sym)
    if sym == 'AII':
        t = Y
    if t is not None:
        out.append((blockop(t, n), True, 1))
    if p is not None:
        out.append((blockop(p, n), True, -1))
    return out


def dof_basis(sym, n):
    """Orthonormal real basis of all Hermitian matrices of the class."""
    rows = []
    E = []
    for i in range(n):
        for j in range(i, n):
            A = np.zeros((n, n), complex)
            if i == j:
                A[i, i] = 1
                E.append(A)
            else:
                A[i, j] = A[j, i] = math.sqrt(.5)
                B = np.zeros((n, n), complex)
                B[i, j], B[j, i] = 1j * math.sqrt(.5), -1j * math.sqrt(.5)
                E += [A, B]
    E = np.array(E)
    P = np.eye(len(E))
    for M, cj, s in conditions(sym, n):
        img = np.array([s * M @ (e.conj() if cj else e) @ M.conj().T for e in E])
        T = np.einsum('aij,bij->ab', E.conj(), img).real
        P = P @ (np.eye(len(E)) + T) / 2
    # commuting involutions: P is the projector
    w, v = np.linalg.eigh((P + P.T) / 2)
    v = v[:, w > 0.5]
    return np.einsum('ak,aij->kij', v, E)


def allowed(sym, n):
    if sym == 'CII':
        return n % 4 == 0
    return n % 2 == 0 or sym in ('A', 'AI', 'D')


@st.composite
def cases(draw, sizes=(4, 2, 8, 6, 1, 3, 5, 12, 7)):
    return {'sym': draw(st.sampled_from(SYMS)), 'n': draw(st.sampled_from(sizes)), 'v': draw(st.sampled_from([1., 2, 0.3, 1e-3, 'default'])), 'seed': draw(seeds),
            'rng': draw(st.sampled_from(['int', 'int', 'state', 'npint', 'global'])), 'charge': draw(st.sampled_from([None, 0, 1, 2, 3, -1, 1, 1, -1, 4, 7]))}


def with_rng(case, f):
    """Two calls with the same generator state."""
    s = case['seed'] % 2 ** 31
    k = case['rng']
    old = np.random.get_state()
    try:
        if k == 'int':
            np.random.seed(1)
            st0 = np.random.get_state()
            a, b = f(s), f(s)
            req(str(np.random.get_state()) == str(st0), 'the global random number generator was used although a seed was given')
        elif k == 'npint':
            a, b = f(np.int64(s)), f(s)
        elif k == 'state':
            a, b = f(np.random.RandomState(s)), f(s)
        else:
            np.random.seed(s)
            a, b = f(None), f(s)
    finally:
        np.random.set_state(old)
    req(np.array_equal(a, b), f'result depends on how the random number generator is given ({k})')
    return a


def check_sym(H, conds, msg, sc):
    for M, cj, s in conds:
        same(H, s * M @ (H.conj() if cj else H) @ M.conj().T, msg, 1e-10, sc)


@P.law(cases(), 4000)
def gaussian(case, rec):
    """gaussian gives Hermitian matrices with the symmetries of the class as documented, proportional to v, and reproducible; sizes impossible for the class raise."""
    sym, n = case['sym'], case['n']
    kw = {} if case['v'] == 'default' else {'v': case['v']}
    if not allowed(sym, n):
        rec.label('impossible size')
        raises(ValueError, lambda: rmt.gaussian(n, sym, rng=1), f'class {sym} of size {n} is accepted')
        return rec.trivial()
    rec.label(sym, f'n = {n}', case['rng'])
    if sym == 'A' or n == 1:
        rec.trivial()
    H = with_rng(case, lambda r: rmt.gaussian(n, sym, rng=r, **kw))
    req(isinstance(H, np.ndarray) and H.shape == (n, n), 'result is not a square matrix')
    sc = 1 if case['v'] == 'default' else case['v']
    same(H, H.conj().T, 'matrix is not Hermitian', 1e-12, sc)
    check_sym(H, conditions(sym, n), f'symmetry of class {sym}', sc)
    for table, sq, conj in ((rmt.h_t_matrix, rmt.t, 1), (rmt.h_p_matrix, rmt.p, -1)):
        req((sym in table) == (sq(sym) != 0), 'table of symmetry operators')
        if sym in table:
            M = blockop(table[sym], n)
            same(H, conj * M @ H.conj() @ M.conj().T, 'symmetry given by the table', 1e-10, sc)
            same(M @ M.conj(), sq(sym) * np.eye(n), 'square of the symmetry given by the table', 1e-12)
    req(rmt.t(sym) == TSQ.get(sym, 0) and rmt.p(sym) == PSQ.get(sym, 0) and rmt.c(sym) == int(sym in CHIRAL), f'squares of the symmetries of class {sym}')
    H1 = rmt.gaussian(n, sym, 1., rng=case['seed'] % 2 ** 31)
    same(H, H1 * sc, 'matrix is not proportional to v', 1e-12, sc)
    if len(dof_basis(sym, n)):
        H2 = rmt.gaussian(n, sym, 1., rng=(case['seed'] + 1) % 2 ** 31)
        req(not close(H1, H2, 1e-9) , 'different seeds give the same matrix')


@P.law(st.tuples(st.sampled_from(SYMS), st.sampled_from([4, 2, 4, 3]), st.sampled_from([1., 2.5]), seeds), 120)
def gaussian_moments(case, rec):
    """The probability of a Gaussian matrix depends on Tr H^2 only: all degrees of freedom are independent with zero mean, and variance such that real and imaginary parts
    of generic offdiagonal entries have variance v^2 (statistical, 7 standard deviations)."""
    sym, n, v, s = case
    if not allowed(sym, n):
        return rec.trivial()
    B = dof_basis(sym, n)
    N = 1500
    r = np.random.RandomState(s % 2 ** 31)
    H = np.array([rmt.gaussian(n, sym, v, rng=r) for _ in range(N)])
    q = np.einsum('kij,aij->ak', B.conj(), H).real / v
    same(np.einsum('ak,kij->aij', q, B) * v, H, 'matrices have other components', 1e-9)
    # matrix elements of classes with T^2 = -1 or P^2 = -1 appear twice as often in Tr H^2
    q /= math.sqrt(4 if -1 in (TSQ.get(sym), PSQ.get(sym)) else 2)
    if not len(B):
        return rec.trivial()
    rec.label(sym, f'{len(B)} degrees of freedom')
    if sym == 'A':
        rec.trivial()
    C = q.T @ q / N
    sd = np.sqrt((1 + np.eye(len(B))) / N)
    req(np.max(np.abs(np.mean(q, axis=0))) < 7 / math.sqrt(N), 'mean is not zero')
    req(np.max(np.abs(C - np.eye(len(B))) / sd) < 7, f'variances are {np.round(np.diag(C), 2)[:8]} times the expected ones')


def pf_sign(A):
    """Sign of the Pfaffian of a real antisymmetric matrix by elimination."""
    A = np.array(A, float)
    s = 1
    n = len(A)
    for k in range(0, n, 2):
        j = k + 1 + int(np.argmax(np.abs(A[k, k + 1:])))
        if j != k + 1:
            A[[k + 1, j]] = A[[j, k + 1]]
            A[:, [k + 1, j]] = A[:, [j, k + 1]]
            s = -s
        if A[k, k + 1] < 0:
            s = -s
        for i in range(k + 2, n):
            f = A[k, i] / A[k, k + 1]
            A[i] -= f * A[k + 1]
            A[:, i] -= f * A[:, k + 1]
    return s


@P.law(cases(), 4000)
def circular(case, rec):
    """circular gives unitary matrices with the documented symmetries and the requested topological invariant, reproducibly; impossible sizes and invariants raise."""
    sym, n, ch = case['sym'], case['n'], case['charge']
    if sym in ('C', 'CI', 'CII', 'AII', 'DIII') and n % 2:
        rec.label('impossible size')
        raises(ValueError, lambda: rmt.circular(n, sym, rng=1), f'class {sym} of size {n} is accepted')
        return rec.trivial()
    top = sym in ('D', 'DIII', 'AIII', 'BDI', 'CII')
    rng = {'D': (-1, 1), 'DIII': (-1, 1), 'AIII': range(n + 1), 'BDI': range(n + 1), 'CII': range(n // 2 + 1)}.get(sym)
    if top and ch is not None and ch not in rng:
        rec.label('impossible invariant')
        raises(ValueError, lambda: rmt.circular(n, sym, ch, rng=1), f'invariant {ch} is accepted in class {sym} of size {n}')
        return rec.trivial()
    if not top:
        ch = None
    rec.label(sym, f'n = {n}', 'any invariant' if ch is None else 'given invariant')
    if sym == 'A' or n == 1:
        rec.trivial()
    S = with_rng(case, lambda r: rmt.circular(n, sym, ch, r) if ch is not None else rmt.circular(n, sym, rng=r))
    req(isinstance(S, np.ndarray) and S.shape == (n, n), 'result is not a square matrix')
    same(S @ S.conj().T, np.eye(n), 'matrix is not unitary', 1e-9)
    y = blockop(Y, n) if n % 2 == 0 else None
    conds = {'AI': [(S.T, 'r^T')], 'BDI': [(S.T, 'r^T'), (S.conj(), 'r^*')], 'CI': [(-y @ S.T @ y, '-y r^T y'), (-y @ S.conj() @ y, '-y r^* y')] if y is not None else [],
             'AII': [(-S.T, '-r^T')], 'DIII': [(-S.T, '-r^T'), (-S.conj(), '-r^*')], 'CII': [(y @ S.T @ y, 'y r^T y'), (y @ S.conj() @ y, 'y r^* y')] if y is not None else [],
             'C': [(y @ S.conj() @ y, 'y r^* y')] if y is not None else [], 'D': [(S.conj(), 'r^*')]}.get(sym, [])
    if sym in CHIRAL:
        conds = conds + [(S.conj().T, 'r^+')]
    for M, name in conds:
        same(S, M, f'class {sym}: r = {name}', 1e-9)
    if ch is None:
        return
    if sym == 'D':
        req(np.sign(np.linalg.det(S).real) == ch, f'determinant is not {ch}')
    elif sym == 'DIII':
        req(pf_sign((1j * S).real) == ch, f'Pfaffian is not {ch}')
    else:
        neg = int(np.sum(np.linalg.eigvalsh(S) < 0))
        req(neg == (2 * ch if sym == 'CII' else ch), f'matrix has {neg} negative eigenvalues, invariant {ch}')


@P.law(st.tuples(st.sampled_from(SYMS), st.sampled_from([2, 3, 4, 4]), seeds), 100)
def circular_moments(case, rec):
    """Without given invariant it has a binomial distribution, and the matrices are distributed uniformly: first and second moments (statistical, 7 standard deviations)."""
    sym, n, s = case
    if n % 2 and sym in ('C', 'CI', 'CII', 'AII', 'DIII'):
        return rec.trivial()
    rec.label(sym)
    N = 1500
    r = np.random.RandomState(s % 2 ** 31)
    S = np.array([rmt.circular(n, sym, rng=r) for _ in range(N)])
    if sym in ('A', 'C', 'D'):
        rec.trivial() if sym == 'A' else None
        req(np.max(np.abs(np.mean(S, axis=0))) < 7 / math.sqrt(N * n), 'mean is not zero')
        m2 = np.mean(np.abs(S) ** 2, axis=0)
        req(np.max(np.abs(m2 - 1 / n)) < 7 * math.sqrt(1 / N) * 1.5 / n, 'second moments are not uniform')
        if sym == 'D':
            d = np.mean(np.linalg.det(S).real)
            req(abs(d) < 7 / math.sqrt(N), 'determinant is not equally distributed')
    elif sym in ('AIII', 'BDI', 'CII'):
        k = np.array([np.sum(np.linalg.eigvalsh(x) < 0) for x in S]) / (2 if sym == 'CII' else 1)
        m = n // 2 if sym == 'CII' else n
        req(abs(np.mean(k) - m / 2) < 7 * math.sqrt(m / 4 / N), 'mean of the invariant')
        req(abs(np.var(k) - m / 4) < 7 * (m / 4) * math.sqrt(3 / N), 'variance of the invariant')
    elif sym == 'DIII':
        k = np.array([pf_sign((1j * x).real) for x in S])
        req(abs(np.mean(k)) < 7 / math.sqrt(N), 'mean of the invariant')
    else:
        # circular ensembles: |S_ij|^2 of AI (COE) is (1 + delta_ij) / (n + 1), AII antisymmetric: (1 - delta_ij) / (n - 1)
        m2 = np.mean(np.abs(S) ** 2, axis=0)
        if sym == 'AI':
            want = (1 + np.eye(n)) / (n + 1)
            req(np.max(np.abs(m2 - want)) < 7 / math.sqrt(N), 'second moments')
        elif sym == 'AII':
            want = (1 - np.eye(n)) / (n - 1)
            req(np.max(np.abs(m2 - want)) < 7 / math.sqrt(N), 'second moments')
        req(np.max(np.abs(np.mean(S, axis=0) * (sym != 'CI'))) < 7 / math.sqrt(N), 'mean is not zero')


@P.law(seeds, 40)
def invalid(seed, rec):
    """Unknown classes and random number generators raise ValueError."""
    for f in (lambda: rmt.gaussian(2, 'E'), lambda: rmt.circular(2, 'E'), lambda: rmt.t('E'), lambda: rmt.p('E'), lambda: rmt.c('E'), lambda: rmt.gaussian(2, 'A', rng='x'),
              lambda: rmt.circular(2, 'A', rng=1.5), lambda: rmt.ensure_rng('seed')):
        raises(ValueError, f, 'invalid symmetry class or random number generator is accepted')
    r = np.random.RandomState(seed % 2 ** 31)
    req(rmt.ensure_rng(r) is r, 'random number generator is not used as given')
    for bad in (0.5,):
        raises(ValueError, lambda: rmt.circular(4, 'AIII', bad), 'invariant that is not an integer is accepted')
