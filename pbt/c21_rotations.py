"""C21: continuous rotation symmetries."""
from qsymm.symmetry_finder import _reduce_hamiltonian, continuous_symmetries, symmetries

from .symham import *
from .c20_conserved import check_quantities

P = Property('C21', 'cases: k.p Hamiltonians in 0-3 dimensions made of blocks invariant under rotations about given axes or all rotations, repeated, with broken '
             'symmetry or without, in a random basis; oracle: linear algebra for the rotation axes and Hilbert space parts on the coefficients; '
             'non-trivial: some but not all rotations are symmetries, or all and the Hamiltonian depends on momentum')


def delta(data, w, L, dim):
    """Derivative of the Hamiltonian along the group generated by rotation about w and L."""
    out = {}
    if w is not None:
        D = (1j * rot_gen(w, dim)).real
    for (k, c), M in data.items():
        if L is not None:
            out[(k, c)] = out.get((k, c), 0) + 1j * (M @ L - L @ M)
        if w is not None:
            # v . d/dk with v = D k
            for i in range(dim):
                if k[i]:
                    for j in range(dim):
                        if abs(D[i, j]) > 1e-12:
                            q = list(k)
                            q[i] -= 1
                            q[j] += 1
                            q = (tuple(q), c)
                            out[q] = out.get(q, 0) + k[i] * D[i, j] * M
    return out


def flat(datas, n):
    keys = sorted({k for d in datas for k in d})
    z = np.zeros((n, n))
    return np.array([realify(np.array([d.get(k, z) for k in keys]).reshape(-1)) for d in datas]).reshape(len(datas), -1)


def invariant(dim, axes, Ls, n, degs):
    """Basis of Hermitian polynomials of the given degrees invariant under rotations about axes with Hilbert space parts Ls."""
    base = [{(p, (0, 0)): X} for deg in degs for p in powers(dim, deg) for X in herm_basis(n)]
    cols = [flat([delta(b, w, L, dim) for b in base], n) for w, L in zip(axes, Ls)]
    A = np.hstack(cols) if cols else np.zeros((len(base), 1))
    u, s, vh = np.linalg.svd(A.T, full_matrices=True)
    s = np.concatenate([s, np.zeros(len(vh) - len(s))])
    ns = vh[s < 1e-9]
    return base, ns


AXES = [[0, 0, 1], [1, 0, 0], [1, 1, 1], [1, -2, 0], [0, 0, 1]]


@st.composite
def cases(draw, nmax=6, dims=(2, 3, 3, 2, 3)):
    dim = draw(st.sampled_from(dims))
    axis = draw(st.integers(0, 4))
    parts = []
    n = 0
    for _ in range(draw(st.sampled_from([1, 2, 1, 3]))):
        blocks = draw(st.sampled_from([[1], [1], [0], [0, 0], [2], [1, 0], [3], [1, 1], [2, 0]]))
        mult = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
        size = sum(t + 1 for t in blocks) * mult
        if n + size > nmax:
            if n:
                break
            blocks, mult, size = [1], 1, 2
        n += size
        terms = []
        for _ in range(draw(st.integers(1, 3))):
            terms.append([draw(st.sampled_from([0, 1, 1, 2, 2])), [draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0, 0, 1]))], draw(seeds)])
        parts.append({'blocks': blocks, 'mult': mult, 'terms': terms, 'charges': draw(st.sampled_from([None, None, [draw(st.integers(-2, 2)) for _ in range(8)]])),
                      'sym': draw(st.sampled_from(['all', 'all', 'axis', 'axis', 'axis', 'other', 'none', 'flat', 'line'])), 'other': draw(st.integers(0, 4)), 'fix': draw(st.booleans())})
    return {'dim': dim, 'axis': axis, 'parts': parts, 'vseed': draw(maybe_seeds), 'copies': draw(st.integers(0, 3)) == 0,
            'mom': draw(st.sampled_from([['k_x', 'k_y', 'k_z'], ['k_x', 'k_y', 'k_z'], ['k_z', 'k_x', 'k_y'], ['q', 'p', 'k']]))[:dim],
            'prettify': draw(st.booleans()), 'digits': draw(st.sampled_from([8, 8, 6, 4])), 'api': draw(st.sampled_from(['symmetries', 'direct', 'Ps', 'default'])),
            'fmt': draw(st.sampled_from(['arr', 'arr', 'arr', 'csr'])), 'scale': draw(st.sampled_from([1, 1, 1, 100, 0.01]))}


def make(case):
    dim = case['dim']
    pieces, total = [], 0
    for part in case['parts']:
        J, _ = reps(part['blocks'], None)
        n = J.shape[1]
        axis = AXES[case['axis']] if dim == 3 else [0, 0, 1]
        shift = np.zeros((n, n)) if part['charges'] is None else np.diag(np.repeat(part['charges'][:len(part['blocks'])], [t + 1 for t in part['blocks']]).astype(float))
        sym = part['sym']
        if dim < 2:
            axes, Ls = [], []
        elif sym == 'all' and dim == 3:
            axes, Ls = list(np.eye(3)), list(J)
        elif sym in ('axis', 'all'):
            axes, Ls = [axis], [np.tensordot(np.array(axis, float), J, (0, 0)) + shift]
        elif sym == 'other':
            w = AXES[part['other']] if dim == 3 else [0, 0, 1]
            # in two dimensions the other direction of rotation
            axes, Ls = [w], [np.tensordot(np.array(w, float), J, (0, 0)) * (-1 if dim == 2 else 1) + shift]
        else:
            axes, Ls = [], []
        data = {}
        for deg, c, s in part['terms']:
            if sym == 'flat' or dim == 0:
                new = {((0,) * dim, tuple(c)): mat(s, n, kind='herm')}
            elif sym == 'line':
                new = {((deg,) + (0,) * (dim - 1), tuple(c)): mat(s, n, kind='herm')}
            else:
                # lower degrees are included
                degs = [deg] if part['fix'] else list(range(deg + 1))
                base, ns = invariant(dim, axes, Ls, n, degs)
                if len(ns) == 0:
                    continue
                x = rs(s, 3).normal(size=len(ns)) @ ns
                x = x / np.max(np.abs(x)) * rs(s, 4).choice([1, 1, 2.5])
                new = {}
                for b, q in zip(base, x):
                    for k, M in b.items():
                        new[(k[0], tuple(c))] = new.get((k[0], tuple(c)), 0) + q * M
            for k, M in new.items():
                data[k] = data.get(k, 0) + M * case['scale']
        pieces.append((data, n, part['mult']))
        total += n * part['mult']
    h = Ham.__new__(Ham)
    h.kind, h.lat, h.mom, h.dim, h.n = 'poly', f'{dim}D', case['mom'], dim, total
    V = np.eye(total) if case['vseed'] is None else mat(case['vseed'], total, kind='unitary')
    h.data = {}
    off = 0
    for i, (data, n, m) in enumerate(pieces):
        if i and case['copies'] and pieces[i - 1][1] == n:
            data = pieces[i - 1][0]
        for k, M in data.items():
            A = np.zeros((total, total), complex)
            A[off:off + n * m, off:off + n * m] = np.kron(M, np.eye(m))
            h.data[k] = h.data.get(k, 0) + V @ A @ V.conj().T
        off += n * m
    h.data = clean(h.data, 1e-9 * case['scale'])
    h.clear = all(np.max(np.abs(M)) > 1e-3 * case['scale'] for M in h.data.values())
    return h


def rotations(h, scale, gap=(1e-8, 1e-3)):
    """Number of independent rotation axes, None if unclear."""
    if h.dim < 2:
        return 0
    ws = [[0, 0, 1]] if h.dim == 2 else list(np.eye(3))
    cols = [delta(h.data, w, None, h.dim) for w in ws] + [delta(h.data, None, L, h.dim) for L in herm_basis(h.n)]
    A = flat(cols, h.n).T / scale
    _, s, vh = np.linalg.svd(A, full_matrices=True)
    s = np.concatenate([s, np.zeros(len(vh) - len(s))])
    if np.any((s > gap[0]) & (s < gap[1])):
        return None
    ns = vh[s <= gap[0]]
    sv = np.linalg.svd(ns[:, :len(ws)], compute_uv=False) if len(ns) else np.zeros(0)
    if np.any((sv > 1e-8) & (sv < 1e-3)):
        return None
    return int(np.sum(sv > 1e-3))


def check(case, rec, finder, tol=1e-5):
    h = make(case)
    if not h.data or not h.clear or h.n == 0:
        return rec.trivial()
    X = h.commutant()
    r = rotations(h, case['scale'])
    if X is None or r is None:
        rec.label('no clear gap')
        return rec.trivial()
    full = {0: 0, 1: 0, 2: 1, 3: 3}[h.dim]
    varying = any(any(k[0]) for k in h.data)
    rec.label(f'{h.dim}D', f'N = {h.n}', f'{r} rotations', f'{len(X)} commuting', 'momentum dependent' if varying else 'constant', case['fmt'])
    if not varying or not 0 < r <= full:
        rec.trivial()
    m = h.model('Model', case['fmt'])
    snap = snapshot(m)
    cons, got = finder(m)
    unchanged(m, snap, 'symmetry finder')
    if cons is not None:
        check_quantities(h, X, cons, tol)
    req(isinstance(got, list), 'continuous symmetries are not a list')
    for g in got:
        req(isinstance(g, ContinuousGroupGenerator), 'continuous symmetry is not a generator')
        R, L = np.asarray(g.R), np.asarray(g.U)
        req(R.shape == (h.dim, h.dim), f'real space part has shape {R.shape}')
        req(L.shape == (h.n, h.n), f'Hilbert space part has shape {L.shape}')
        req(close(R, R.conj().T, 1e-7) and np.max(np.abs(R.real)) < 1e-7, 'real space part does not generate a rotation')
        req(close(L, L.conj().T, tol), 'Hilbert space part is not Hermitian')
        req(np.max(np.abs(R)) > 1e-5, 'continuous rotation does not rotate')
        w = rotvec_of(R)
        res = delta(h.data, w, L, h.dim)
        sc = (1 + np.max(np.abs(L)) + np.max(np.abs(R))) * (1 + max(np.max(np.abs(M)) for M in h.data.values()))
        req(max(np.max(np.abs(M)) for M in res.values()) < tol * sc, 'continuous rotation is not a symmetry')
    if got:
        req(real_rank_R(got) == len(got), 'rotation axes of continuous symmetries are dependent')
    req(len(got) == r, f'{len(got)} continuous rotations found, there are {r}')


def rotvec_of(R):
    d = len(R)
    if d == 2:
        return [0, 0, (R[0, 1] / -1j).real]
    return [np.trace(R @ L3[i]).real / 2 for i in range(3)]


def real_rank_R(gs):
    return span_rank(np.array([np.asarray(g.R).imag.reshape(-1) / np.max(np.abs(g.R)) for g in gs]), 1e-5)


@P.law(cases(), 2500)
def found(case, rec):
    """The continuous rotations found are symmetries, their axes are independent, and their number is that of independent axes of rotations that are symmetries."""
    def finder(m):
        kw = dict(prettify=case['prettify'], num_digits=case['digits'])
        if case['api'] == 'symmetries':
            _, c = symmetries(m, candidates=[], continuous_rotations=True, **kw)
            i = 0
            while i < len(c) and c[i].R is None:
                i += 1
            return list(c[:i]), list(c[i:])
        if case['api'] == 'Ps':
            return None, continuous_symmetries(m, Ps=_reduce_hamiltonian(list(m.values())), **kw)
        if case['api'] == 'default':
            return None, continuous_symmetries(m)
        return None, continuous_symmetries(m, **kw)
    check(case, rec, finder, 1e-5 + 100 * 10. ** -case['digits'] if case['prettify'] else 1e-5)


@P.law(cases(nmax=4), 500)
def sparse(case, rec):
    """The same with sparse linear algebra."""
    def finder(m):
        _, c = symmetries(m, candidates=[], continuous_rotations=True, sparse_linalg=True, prettify=case['prettify'])
        i = 0
        while i < len(c) and c[i].R is None:
            i += 1
        return list(c[:i]), list(c[i:])
    check(case, rec, finder)


@P.law(cases(nmax=3, dims=(0, 1, 2, 3)), 200)
def absent(case, rec):
    """Without continuous_rotations, for BlochModels and in fewer than two dimensions there are no continuous rotations; unsupported values raise."""
    h = make(case)
    if not h.data or not h.clear or h.n == 0:
        return rec.trivial()
    rec.label(f'{h.dim}D')
    m = h.model()
    _, c = symmetries(m, candidates=[])
    req(all(g.R is None for g in c), 'continuous rotations were found without asking')
    if h.dim < 2:
        req(list(continuous_symmetries(m)) == [], 'there are no rotations in fewer than two dimensions')
        _, c = symmetries(m, candidates=[], continuous_rotations=True)
        req(all(g.R is None for g in c), 'there are no rotations in fewer than two dimensions')
    const = {k: v for k, v in h.data.items() if not any(k[0])}
    if const:
        b = model_of(const, 'bloch', {0: 'one', 1: 'one', 2: 'sq', 3: 'cu'}[h.dim], h.mom, h.n, 'BlochModel') if h.dim else None
        if b is not None:
            req(list(continuous_symmetries(b)) == [], 'BlochModel has continuous rotations')
    lo = h.model('Model', 'lo')
    raises(ValueError, lambda: continuous_symmetries(lo), 'LinearOperator values are accepted')
