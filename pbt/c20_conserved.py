"""C20: conserved quantities and reduction to irreducible blocks."""
from qsymm.symmetry_finder import _reduce_hamiltonian, conserved_quantities, symmetries

from .symham import *

P = Property('C20', 'cases: Hamiltonians made of blocks that are repeated, related by symmetries or have symmetries themselves, in a random basis; oracle: commutant of '
             'all coefficients by linear algebra; non-trivial: there are conserved quantities other than the identity')


@st.composite
def cases(draw, **kw):
    return {'h': draw(ham_specs(**kw)), 'pretty': draw(st.booleans()), 'digits': draw(st.sampled_from([3, 6, 8])), 'cls': draw(st.sampled_from(['Model', 'BlochModel'])),
            'api': draw(st.sampled_from(['symmetries', 'conserved', 'conserved default']))}


def real_rank(Ls):
    return span_rank(np.array([realify(np.asarray(x).reshape(-1)) for x in Ls]), 1e-6)


def prepared(case, rec):
    h = Ham(case['h'])
    if not h.data or not h.clear or h.n == 0:
        return None
    X = h.commutant()
    if X is None:
        rec.label('no clear gap')
        return None
    rec.label(h.kind, h.lat, f'N = {h.n}', f'{len(X)} commuting')
    if len(X) < 2:
        rec.trivial()
    return h, X


def check_quantities(h, X, got, tol=1e-6):
    req(isinstance(got, list), 'conserved quantities are not a list')
    for g in got:
        req(isinstance(g, ContinuousGroupGenerator), 'conserved quantity is not a generator')
        req(g.R is None, 'conserved quantity acts in real space')
        L = np.asarray(g.U)
        req(L.shape == (h.n, h.n), f'conserved quantity has shape {L.shape}')
        sc = np.max(np.abs(L))
        req(sc > 1e-4, 'conserved quantity vanishes')
        req(close(L, L.conj().T, tol), 'conserved quantity is not Hermitian')
        req(abs(np.trace(L)) < tol * 10 * (1 + sc), 'conserved quantity has a trace')
        for k, M in h.data.items():
            req(np.max(np.abs(L @ M - M @ L)) < tol * 10 * (1 + sc) * (1 + np.max(np.abs(M))), f'conserved quantity does not commute with the coefficient {k}')
    if got:
        req(real_rank([g.U for g in got]) == len(got), 'conserved quantities are linearly dependent')
    req(len(got) == len(X) - 1, f'{len(got)} conserved quantities found, there are {len(X) - 1} independent ones besides the identity')


@P.law(cases(nmax=7), 1200)
def complete(case, rec):
    """Conserved quantities are a real basis of the traceless Hermitian matrices commuting with all coefficients."""
    pre = prepared(case, rec)
    if pre is None:
        return rec.trivial()
    h, X = pre
    m = h.model(case['cls'] if h.kind == 'bloch' else 'Model')
    snap = snapshot(m)
    if case['api'] == 'symmetries':
        kw = {'candidates': []} if h.n > 3 else {}
        _, got = symmetries(m, prettify=False, **kw)
    else:
        Ps = _reduce_hamiltonian(list(m.values()))
        got = conserved_quantities(Ps)
    unchanged(m, snap, 'symmetry finder')
    check_quantities(h, X, got)


@P.law(cases(nmax=5), 700)
def prettified(case, rec):
    """The same for prettified quantities of Hamiltonians in the standard basis: also in reduced echelon form and rounded."""
    case['h']['vseed'] = None
    pre = prepared(case, rec)
    if pre is None:
        return rec.trivial()
    h, X = pre
    m = h.model()
    nd = case['digits'] if case['digits'] > 3 else 6
    _, got = symmetries(m, candidates=[], prettify=True, num_digits=nd)
    n = h.n
    # subspaces exchanged by rounding errors only are excluded: echelon forms with small pivots are unstable
    B = np.array([realify(x) for x in herm_traceless(X, n)])
    if len(X) > 1 and not well_conditioned(B):
        rec.label('unstable')
        return rec.trivial()
    check_quantities(h, X, got, 10 ** -(nd - 1.5))
    if len(got) < 2:
        return
    E = np.array([realify_split(g.U, n) for g in got])
    req(close(E, np.round(E, nd), 1e-12), 'prettified quantities are not rounded')
    for i in range(len(E)):
        piv = (np.abs(E[i] - 1) < 1e-4) & (np.sum(np.abs(np.delete(E, i, 0)), axis=0) < 1e-4)
        req(np.any(piv), f'prettified quantity {i} has no entry 1 that only it has')


def realify_split(L, n):
    L = np.asarray(L).reshape(-1)
    return np.concatenate([L.real, L.imag])


def herm_traceless(X, n):
    """Real basis of the Hermitian traceless part of the span."""
    out = []
    for x in X:
        for y in (x + x.conj().T, 1j * (x - x.conj().T)):
            out.append((y - np.trace(y) / n * np.eye(n)).reshape(-1))
    V = np.array([realify(v) for v in out])
    u, s, vh = np.linalg.svd(V)
    r = int(np.sum(s > 1e-6))
    V = vh[:r]
    k = V.shape[1] // 2
    return V[:, :k] + 1j * V[:, k:]


def well_conditioned(B, tol=1e-4):
    """Row reduction with exact arithmetic has no pivot between zero and tol."""
    A = np.array(B)
    r = 0
    for j in range(A.shape[1]):
        if r == len(A):
            break
        i = r + int(np.argmax(np.abs(A[r:, j])))
        p = abs(A[i, j])
        if p < 1e-9:
            continue
        if p < 1e-2:
            return False
        A[[r, i]] = A[[i, r]]
        A[r] /= A[r, j]
        for q in range(len(A)):
            if q != r:
                A[q] -= A[q, j] * A[r]
        r += 1
    return True


@P.law(cases(nmax=7), 800)
def irreducible_blocks(case, rec):
    """The symmetry adapted basis is orthonormal and complete, every coefficient is block diagonal in it, with the same irreducible block in all copies, and different
    blocks are not equivalent."""
    pre = prepared(case, rec)
    if pre is None:
        return rec.trivial()
    h, X = pre
    H = list(h.data.values())
    Ps = _reduce_hamiltonian(np.array(H) if case['pretty'] else H)
    cols, ids = [], []
    for i, Pi in enumerate(Ps):
        Pi = np.asarray(Pi)
        req(Pi.ndim == 3 and Pi.shape[1] == h.n, f'basis of block {i} has shape {Pi.shape}')
        for a in range(Pi.shape[0]):
            cols.append(Pi[a])
            ids.append((i, a))
    W = np.hstack(cols)
    req(W.shape == (h.n, h.n), f'the blocks have {W.shape[1]} dimensions, the Hamiltonian {h.n}')
    same(W.conj().T @ W, np.eye(h.n), 'symmetry adapted basis is not orthonormal', 1e-6)
    for M in H:
        sc = 1 + np.max(np.abs(M))
        for x, (i, a) in zip(cols, ids):
            for y, (j, b) in zip(cols, ids):
                B = x.conj().T @ M @ y
                if (i, a) != (j, b):
                    req(np.max(np.abs(B)) < 1e-5 * sc, f'coefficient couples copies {a} of block {i} and {b} of block {j}')
                else:
                    C = Ps[i][0].conj().T @ M @ Ps[i][0]
                    req(np.max(np.abs(B - C)) < 1e-5 * sc, f'copies 0 and {a} of block {i} differ')
    req(sum(len(Pi) ** 2 for Pi in Ps) == len(X), f'blocks of multiplicity {[len(x) for x in Ps]} do not give {len(X)} commuting matrices')
    blocks = [[Pi[0].conj().T @ M @ Pi[0] for M in H] for Pi in Ps]
    for i, bi in enumerate(blocks):
        for j, bj in enumerate(blocks[:i + 1]):
            if bi[0].shape != bj[0].shape:
                continue
            Y = intertwiners(bj, bi, bi[0].shape[0], (1e-6, 1e-4))
            if Y is None:
                continue
            if i == j:
                req(len(Y) == 1, f'block {i} is reducible')
            else:
                req(len(Y) == 0, f'blocks {i} and {j} are equivalent')


@P.law(cases(nmax=6), 300)
def sparse(case, rec):
    """The same conserved quantities are found with sparse linear algebra and for sparse values."""
    pre = prepared(case, rec)
    if pre is None:
        return rec.trivial()
    h, X = pre
    m = h.model('Model', 'csr' if case['pretty'] else 'arr')
    _, got = symmetries(m, candidates=[], sparse_linalg=True)
    check_quantities(h, X, got, 1e-4)


@st.composite
def decompositions(draw):
    form = draw(st.sampled_from(['any', 'any', 'singlets', 'copies', 'doublets']))
    if form == 'any':
        parts = draw(st.lists(st.tuples(st.integers(1, 3), st.sampled_from([1, 1, 2, 2, 3, 4, 5])), min_size=1, max_size=5))
    elif form == 'singlets':        # center larger than the rest of the algebra
        parts = [(1, 1)] * draw(st.integers(2, 7)) + draw(st.lists(st.tuples(st.integers(1, 2), st.just(2)), max_size=2))
    elif form == 'copies':
        parts = [(draw(st.integers(1, 3)), draw(st.integers(3, 6)))]
    else:
        parts = [(2, m) for m in draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))]
    out, n = [], 0
    for d, m in parts:
        if n + d * m <= 12:
            out.append([d, m])
            n += d * m
    return {'parts': out or [[1, 1]], 'seed': draw(seeds), 'vseed': draw(st.sampled_from(['random', 'random', 'permuted', 'none'])), 'terms': draw(st.integers(2, 3)), 'real': draw(st.booleans()),
            'dim': draw(st.integers(0, 2)), 'api': draw(st.sampled_from(['symmetries', 'reduce', 'reduce'])), 'order': draw(seeds)}


@P.law(decompositions(), 800)
def constructed(case, rec):
    """Direct sums of given inequivalent irreducible blocks with given multiplicities in any basis: exactly these blocks and multiplicities are found, with the same matrices
    in all copies, and as many conserved quantities as they imply."""
    parts = case['parts']
    r = rs(case['seed'], 31)
    N = sum(d * m for d, m in parts)
    shifts = r.permutation(len(parts)) * 1.7 - 1
    H = []
    for t in range(case['terms']):
        bl = []
        for i, (d, m) in enumerate(parts):
            h = r.normal(size=(d, d)) + (0 if case['real'] else 1j * r.normal(size=(d, d)))
            h = (h + h.conj().T) / 2 + (shifts[i] * np.eye(d) if t == 0 else 0)
            bl.append(np.kron(np.eye(m), h))
        H.append(la.block_diag(*bl))
    # blocks are irreducible and inequivalent with clear gaps, otherwise the decision is near a tolerance
    idx = np.cumsum([0] + [d * m for d, m in parts])
    small_ = [[h[o:o + d, o:o + d] for h in H] for o, (d, m) in zip(idx, parts)]
    for i, bi in enumerate(small_):
        for j, bj in enumerate(small_[:i + 1]):
            if bi[0].shape == bj[0].shape:
                Y = intertwiners(bj, bi, len(bi[0]), (1e-6, 2e-2))
                if Y is None or len(Y) != (1 if i == j else 0):
                    return rec.trivial()
    if case['vseed'] == 'random':
        V = mat(case['order'], N, kind='unitary')
    elif case['vseed'] == 'permuted':
        V = np.eye(N)[rs(case['order']).permutation(N)]
    else:
        V = np.eye(N)
    H = [V @ h @ V.conj().T for h in H]
    count = sum(m * m for _, m in parts)
    rec.label(f'N = {N}', f'{len(parts)} blocks', f'multiplicity {max(m for _, m in parts)}', case['api'])
    if count == 1:
        rec.trivial()
    if case['api'] == 'symmetries':
        mom = ['k_x', 'k_y', 'k_z'][:case['dim'] + 1]
        sy = [sympy.Integer(1), sympy.Symbol('a'), sympy.Symbol(mom[0])]
        m = Model(dict(zip(sy, H)), momenta=mom)
        _, got = symmetries(m, candidates=[], continuous_rotations=False)
        req(len(got) == count - 1, f'{len(got)} conserved quantities found, blocks (size, multiplicity) {parts} give {count - 1}')
        for g in got:
            L = np.asarray(g.U)
            for h in H:
                req(np.max(np.abs(L @ h - h @ L)) < 1e-5 * (1 + np.max(np.abs(L))) * (1 + np.max(np.abs(h))), 'conserved quantity does not commute with the Hamiltonian')
        if got:
            req(real_rank([g.U for g in got]) == len(got), 'conserved quantities are linearly dependent')
        return
    Ps = _reduce_hamiltonian(np.array(H))
    found = sorted([np.asarray(P_).shape[2], len(P_)] for P_ in Ps)
    req(found == sorted(parts), f'blocks (size, multiplicity) {found} found, there are {sorted(parts)}')
    W = np.hstack([np.asarray(p) for P_ in Ps for p in P_])
    same(W.conj().T @ W, np.eye(N), 'symmetry adapted basis is not orthonormal', 1e-6)
    for h in H:
        D_ = la.block_diag(*[np.kron(np.eye(len(P_)), np.asarray(P_[0]).conj().T @ h @ np.asarray(P_[0])) for P_ in Ps])
        same(W.conj().T @ h @ W, D_, 'Hamiltonian is not the sum of repeated blocks in the symmetry adapted basis', 1e-5)
    got = conserved_quantities(Ps)
    req(len(got) == count - 1, f'{len(got)} conserved quantities of {parts}')
