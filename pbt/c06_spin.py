"""C06: angular momentum matrices and spin rotations."""
from .lib import *
from qsymm.groups import spin_matrices, spin_rotation, L_matrices

P = Property('C06', 'cases: spins 0 to 9/2, orbital momenta in 2 and 3 dimensions, rotation vectors (multiples of simple fractions '
             'of pi and generic ones); non-trivial: matrices of size at least 2 and nonzero rotation angle')

vecs = st.one_of(st.lists(st.floats(-7, 7, allow_subnormal=False).map(lambda x: round(x, 4)), min_size=3, max_size=3),
                 st.tuples(st.lists(st.integers(-2, 2), min_size=3, max_size=3), st.integers(1, 12), st.integers(-12, 12)).map(
                     lambda t: [x * math.pi * t[2] / t[1] for x in t[0]]))


def expo(v, S):
    H = np.tensordot(np.asarray(v, float), np.asarray(S), (0, 0))
    w, V = np.linalg.eigh(H)
    return (V * np.exp(-1j * w)) @ V.conj().T


@P.law(st.tuples(st.integers(0, 9), st.booleans(), st.sampled_from(['float', 'int', 'np', 'below', 'above', 'sum'])), 200)
def matrices(case, rec):
    """spin_matrices are the standard ones of the ladder operators, ordered by decreasing projection; include_0 adds the identity."""
    t, zero, form = case
    if t == 0:
        rec.trivial()
    s = t / 2
    arg = s if form == 'float' else (t // 2 if t % 2 == 0 else s) if form == 'int' else np.float64(s)
    if form in ('below', 'above'):      # rounding errors
        arg = s * (1 + (-1e-13 if form == 'below' else 1e-13))
    elif form == 'sum':
        arg = sum([0.1] * (5 * t))
    M = spin_matrices(arg, include_0=zero)
    ref = spin(s)
    if zero:
        ref = np.concatenate([[np.eye(t + 1)], ref])
    same(M, ref, f'spin {s} matrices')
    M = M[-3:]
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        same(M[i] @ M[j] - M[j] @ M[i], 1j * M[k], 'commutation relations')
    same(sum(x @ x for x in M), s * (s + 1) * np.eye(t + 1), 'total spin')


@P.law(st.tuples(st.floats(0.01, 4.9).map(lambda x: round(x, 3))), 40)
def invalid_spin(case, rec):
    """Spins that are not half-integer are rejected."""
    s = case[0]
    if abs(2 * s - round(2 * s)) < 1e-3:
        return rec.trivial()
    raises((AssertionError, ValueError), lambda: spin_matrices(s), f'spin {s} is accepted')


@st.composite
def rots(draw):
    return {'t': draw(st.integers(0, 6)), 'n': draw(vecs), 'm': draw(vecs), 'how': draw(st.sampled_from(['num', 'mat', 'list', 'orb', 'basis'])),
            's': draw(seeds), 'nf': draw(st.sampled_from(['list', 'array', 'tuple']))}


def spin_of(case):
    t, how = case['t'], case['how']
    S = spin(t / 2)
    if how == 'num':
        return t / 2, S
    if how == 'mat':
        return S, S
    if how == 'list':
        return [x for x in S], S
    if how == 'orb':
        return L_matrices(3, 1 + t % 2), L_matrices(3, 1 + t % 2)
    V = mat(case['s'], t + 1, kind='unitary')
    S = np.array([V @ x @ V.conj().T for x in S])
    return S, S


@P.law(rots(), 6000)
def rotations(case, rec):
    """spin_rotation is exp(-i n.s): it rotates the spin operators like vectors and represents products of rotations up to sign."""
    n, m = case['n'], case['m']
    arg, S = spin_of(case)
    if len(S[0]) == 1 or not any(n):
        rec.trivial()
    rec.label(case['how'])
    nn = {'list': list, 'array': np.array, 'tuple': tuple}[case['nf']](n)
    U, W = spin_rotation(nn, arg), spin_rotation(m, arg)
    same(U, expo(n, S), 'spin rotation')
    th = np.linalg.norm(n)
    R = rot3(n, th) if th > 1e-12 else np.eye(3)
    for i in range(3):
        same(U.conj().T @ S[i] @ U, np.tensordot(R[i], S, (0, 0)), 'spin operators are not rotated as a vector')
    same(spin_rotation(-np.array(n), arg) @ U, np.eye(len(U)), 'inverse rotation')
    # composition, against the vector representation
    ph = np.linalg.norm(m)
    Q = R @ (rot3(m, ph) if ph > 1e-12 else np.eye(3))
    UW = U @ W
    for i in range(3):
        same(UW.conj().T @ S[i] @ UW, np.tensordot(Q[i], S, (0, 0)), 'product of rotations')
    if th > 1e-12:
        full = spin_rotation(np.array(n) / th * 2 * np.pi, arg)
        sign = (-1) ** case['t'] if case['how'] != 'orb' else 1
        same(full, sign * np.eye(len(U)), 'rotation by 2 pi')


ORB = {1: lambda r: np.array([r[0], r[1], r[2]]),
       2: lambda r: np.array([math.sqrt(3) / 2 * (r[0] ** 2 - r[1] ** 2), (3 * r[2] ** 2 - r @ r) / 2, math.sqrt(3) * r[0] * r[1],
                              math.sqrt(3) * r[1] * r[2], math.sqrt(3) * r[2] * r[0]])}


@P.law(st.tuples(st.sampled_from([1, 2]), vecs, seeds), 5000)
def orbitals(case, rec):
    """L_matrices rotate real p and d orbitals as functions of position; they are imaginary, antisymmetric and obey the algebra."""
    l, n, s = case
    L = L_matrices(d=3, l=l)
    if not any(n):
        rec.trivial()
    rec.label(f'l={l}')
    req(np.array(L).shape == (3, 2 * l + 1, 2 * l + 1), 'wrong shape')
    for i in range(3):
        same(L[i].real, np.zeros_like(L[i]), 'not imaginary')
        same(L[i].T, -L[i], 'not antisymmetric')
        j, k = (i + 1) % 3, (i + 2) % 3
        same(L[i] @ L[j] - L[j] @ L[i], 1j * L[k], 'commutation relations')
    D = expo(n, L)
    th = np.linalg.norm(n)
    R = rot3(n, th) if th > 1e-12 else np.eye(3)
    for i in range(4):
        r = vec(s + i, 3)
        # rotated orbital j at r: f_j(R^-1 r) = sum_i f_i(r) D_ij
        same(ORB[l](r) @ D, ORB[l](R.T @ r), f'rotated orbitals, l={l}', 1e-6)
    if l == 1:
        same(L_matrices(), L, 'default')
        same(spin_rotation(n, L), R, 'rotation of space')


@P.law(st.tuples(st.floats(-7, 7).map(lambda x: round(x, 4)), st.integers(-3, 6), st.integers(-1, 4)), 300)
def dimensions(case, rec):
    """In 2 dimensions the generator rotates counterclockwise; unsupported dimensions raise ValueError."""
    th, d, l = case
    L = L_matrices(d=2)
    req(np.array(L).shape == (1, 2, 2), 'wrong shape')
    same(spin_rotation([th], L), rot2(th), 'rotation of the plane')
    if (d, l) not in ((2, 1), (3, 1), (3, 2)):
        rec.label('invalid')
        raises(ValueError, lambda: L_matrices(d, l), f'd={d}, l={l} is accepted')


@P.law(st.tuples(st.lists(st.integers(-1, 1), min_size=3, max_size=3).filter(lambda v: sum(map(abs, v)) in (0, 1, 3)), st.integers(-8, 8)), 150)
def integer_rotations(case, rec):
    """roundint=True gives an integer matrix for rotations of the cube, and refuses when the matrix is not integer."""
    ax, j = case
    if not any(ax) or not j:
        rec.trivial()
    unit = math.pi / 2 if sum(map(abs, ax)) == 1 else 2 * math.pi / 3
    n = np.array(ax, float) * unit * j / max(1e-300, np.linalg.norm(ax)) if any(ax) else np.zeros(3)
    U = spin_rotation(n, L_matrices(), roundint=True)
    R = rot3(ax, unit * j) if any(ax) else np.eye(3)
    arr = np.array(U)
    req(arr.dtype.kind == 'i', f'result is not integer but {arr.dtype}')
    req(np.array_equal(arr, np.round(R).astype(int)), 'wrong rotation')
    if any(ax):
        raises((AssertionError, ValueError), lambda: spin_rotation(n + 0.3 * np.array(ax), L_matrices(), roundint=True),
               'matrix which is not integer is rounded')
