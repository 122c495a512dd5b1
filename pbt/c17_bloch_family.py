"""C17: bloch_family gives exactly the symmetric tight binding Hamiltonians."""
from collections import OrderedDict

from .families import *

P = Property('C17', 'cases: 1-3 sites with 1-2 orbitals, permuted by 1-3 symmetries of finite order, hoppings with integer, exact or floating point vectors, '
             'conserved quantities, all options; oracle: real null space of the symmetry conditions among all hoppings related to the given ones, by SVD; '
             'non-trivial: symmetric Hamiltonians exist, but not all are symmetric')

LAB = ['A', 'B', 'c']
S3 = sympy.sqrt(3)
LATV = {'one': [[1]], 'sq': np.eye(2, dtype=int).tolist(), 'cu': np.eye(3, dtype=int).tolist()}
HEXV = np.array([[1, 0], [-0.5, math.sqrt(3) / 2]])
HEXS = [[sympy.Integer(1), sympy.Integer(0)], [-sympy.Rational(1, 2), S3 / 2]]


@st.composite
def cases(draw, symmetrize, nice=False, limit=16):
    lat = draw(st.sampled_from(['one', 'sq', 'sq', 'hex2', 'hex2', 'cu', 'hex3']))
    dim = {'one': 1, 'sq': 2, 'hex2': 2, 'cu': 3, 'hex3': 3}[lat]
    ns = draw(st.sampled_from([1, 2, 2, 3]))
    norb = [draw(st.integers(1, 2))] * ns if draw(st.booleans()) else draw(st.lists(st.integers(1, 2), min_size=ns, max_size=ns))
    if ns == 1 and draw(st.integers(0, 2)) == 0:
        norb, limit = [3], limit // 3
    if sum(norb) > 4:
        norb = [1] * ns
    bm = draw(st.booleans())
    number = draw(st.sampled_from(['exact', 'float'] if bm else ['exact']))
    syms = []
    for _ in range(draw(st.sampled_from([1, 2, 1, 2, 0] if symmetrize else [1, 2, 3, 1, 2, 0]))):
        syms.append({'R': draw(st.integers(0, 47)), 'perm': draw(st.permutations(range(ns))), 'flags': draw(st.sampled_from([[0, 0], [0, 0], [0, 0], [1, 0], [1, 1], [0, 1]])),
                     'mode': draw(st.sampled_from(['rep', 'rep', 'plain', 'monomial'])), 's': draw(seeds)})
    hops = [[draw(st.integers(0, ns - 1)), draw(st.integers(0, ns - 1)), [draw(st.sampled_from([0, 1, -1, 1, 2])) for _ in range(dim)]]
            for _ in range(draw(st.integers(1, 2 if norb != [3] else 1)))]
    return {'lat': lat, 'norb': norb, 'bm': bm, 'number': number, 'syms': syms, 'hops': hops,
            'cons': draw(st.sampled_from([[], [], [], [1], [2], [1, 2]])), 'cs': draw(seeds), 'vseed': None if nice else draw(maybe_seeds),
            'onsites': draw(st.booleans()), 'half': draw(st.sampled_from([1, 1, 1, 2])), 'mom': draw(st.sampled_from(['default', 'strings', 'other', 'symbols'])),
            'cont': draw(st.sampled_from(['od', 'tuple', 'list'])), 'seed': draw(seeds), 'symmetrize': symmetrize, 'nice': nice, 'limit': limit,
            'closed': not symmetrize and draw(st.sampled_from([True, True, False]))}


def lattice(case):
    lat = case['lat']
    return {'hex2': 2, 'hex3': 3, 'one': 1, 'sq': 2, 'cu': 3}[lat]


def offsets(case):
    return np.cumsum([0] + list(case['norb']))


def Vmat(case):
    if case['vseed'] is None:
        return np.eye(sum(case['norb']))
    return la.block_diag(*[mat(case['vseed'] + 17 * i, n, kind='unitary') for i, n in enumerate(case['norb'])])


def legal(perm, norbs):
    out = {}
    for n in set(norbs):
        sites = [i for i in range(len(norbs)) if norbs[i] == n]
        out.update(zip(sites, sorted(sites, key=lambda i: perm[i])))
    return out


def parts(case, s):
    """(R spec, permutation, reference Op) of a symmetry."""
    lat, norb = case['lat'], case['norb']
    dim = lattice(case)
    n = {'one': 2, 'sq': 8, 'hex2': 12, 'cu': 48, 'hex3': 24}[lat]
    spec = [lat, s['R'] % n, 'int']
    R = R_num(spec)
    perm = legal(s['perm'], norb)
    off = offsets(case)
    N = off[-1]
    c, a = map(bool, s['flags'])
    r = rs(s['s'], 41)
    R3, imp = proper(R)
    U = np.zeros((N, N), complex)
    for i, m in enumerate(norb):
        if s['mode'] == 'plain':
            u = np.eye(m)
        elif s['mode'] == 'monomial':
            u = np.zeros((m, m))
            u[np.arange(m), r.permutation(m)] = r.choice([-1, 1], m)
        else:
            J = spin((m - 1) / 2)
            u = expm_h(rotvec(R3), J)
            if c:
                u = u @ expm_h([0, math.pi, 0], J)
            u = u * r.choice([-1, 1])
        j = perm[i]
        U[off[j]:off[j] + m, off[i]:off[i] + m] = u
    V = Vmat(case)
    U = V @ U @ (V.T if c else V.conj().T)
    return spec, perm, Op(R, c, a, U)


def conserved(case, which):
    V = Vmat(case)
    blocks = []
    for i, m in enumerate(case['norb']):
        if which == 1:      # charges
            blocks.append(np.diag(rs(case['cs'], i, 3).randint(0, 2, m)).astype(complex))
        else:
            blocks.append(np.tensordot(rs(case['cs'], 4).choice([0, 1, 1], 3).astype(float), spin((m - 1) / 2), (0, 0)))
    return V @ la.block_diag(*blocks) @ V.conj().T


def vector(case, v):
    """Hopping vector: (argument, float)."""
    lat, h = case['lat'], case['half']
    exact = case['number'] == 'exact'
    if lat.startswith('hex'):
        f = np.zeros(len(v))
        f[:2] = (v[0] * HEXV[0] + v[1] * HEXV[1]) / h
        if len(v) == 3:
            f[2] = v[2] / h
        if not exact:
            return f.tolist(), f
        e_ = [(v[0] * HEXS[0][i] + v[1] * HEXS[1][i]) / h for i in range(2)] + [sympy.Rational(x, h) for x in v[2:]]
        return e_, f
    f = np.array(v, float) / h
    if h == 1:
        return (list(v) if exact else f.tolist()), f
    return ([sympy.Rational(x, h) for x in v] if exact else f.tolist()), f


def unvector(case, f):
    """Integer coordinates of a float hopping vector."""
    f = np.array(f) * case['half']
    if case['lat'].startswith('hex'):
        f[:2] = np.linalg.solve(HEXV.T, f[:2])
    return [int(round(x)) for x in f]


def hop_key(a, b, v):
    v = tuple(np.round(v, 6) + 0.0)
    w = tuple(-np.array(v) + 0.0)
    return min((a, b, v), (b, a, w))


def images(hops, ps, cap=10 ** 9):
    """All hoppings related by the symmetries; None if more than cap."""
    keys = dict(hops)
    todo = list(keys.values())
    while todo:
        a, b, v = todo.pop()
        for _, perm, o in ps:
            h2 = perm[a], perm[b], o.R @ v
            if hop_key(*h2) not in keys:
                keys[hop_key(*h2)] = h2
                todo.append(h2)
        if len(keys) > cap:
            return None
    return keys


class Hops:
    """All Hermitian terms on a set of hoppings."""

    def __init__(self, keys, norb):
        off = np.cumsum([0] + list(norb))
        N = off[-1]
        self.v, self.m, self.diag = [], [], []
        for a, b, v in keys:
            self_ = a == b and np.max(np.abs(v)) < 1e-6
            na, nb = norb[a], norb[b]
            if self_:
                for h in herm_basis(na):
                    M = np.zeros((N, N), complex)
                    M[off[a]:off[a + 1], off[a]:off[a + 1]] = h / 2
                    self.v.append(v)
                    self.m.append(M)
            else:
                for i in range(na):
                    for j in range(nb):
                        for z in (1, 1j):
                            M = np.zeros((N, N), complex)
                            M[off[a] + i, off[b] + j] = z
                            self.v.append(v)
                            self.m.append(M)
        self.v, self.m = np.array(self.v, float), np.array(self.m)
        self.size = len(self.m)

    def F(self, k):
        x = np.exp(1j * self.v @ np.asarray(k, float))[:, None, None] * self.m
        return x + np.conj(np.swapaxes(x, -1, -2))


def group_order(ops, cap):
    """Order of the group generated, with the unitary parts; None if larger than cap."""
    def key(o):
        return o.key() + tuple(np.round(o.U, 5).ravel() + 0.0)
    seen = {key(o): o for o in ops}
    todo = list(ops)
    while todo:
        o = todo.pop()
        for g in ops:
            x = o * g
            kx = key(x)
            if kx not in seen:
                seen[kx] = x
                todo.append(x)
                if len(seen) > cap:
                    return None
    return len(seen)


def run(case, rec, prettify):
    dim, norb, lat = lattice(case), case['norb'], case['lat']
    N, ns = sum(norb), len(norb)
    ps = [parts(case, s) for s in case['syms']]
    if case['symmetrize']:
        # drop symmetries until the group is small
        terms = sum(2 * norb[a] * norb[b] for a, b, v in case['hops'])
        while group_order([p[2] for p in ps], min(case['limit'], max(110 // terms, 4))) is None:
            ps.pop()
            if not ps:
                return rec.trivial()
    form = 'float' if case['number'] == 'float' else ('sympy' if lat.startswith('hex') or case['seed'] % 2 else 'int')
    gs = [PointGroupElement(R_make([sp_[0], sp_[1], form]), o.c, o.a, o.U) for sp_, _, o in ps]
    if case['number'] == 'float' and not case['bm']:
        return rec.trivial()
    hops = [(a, b, v) for a, b, v in case['hops']]
    if case['closed']:
        full = images({hop_key(a, b, vector(case, v)[1]): (a, b, vector(case, v)[1]) for a, b, v in hops}, ps, 8)
        if full is not None and sum(2 * norb[a] * norb[b] for a, b, v in full.values()) <= 20:
            hops = [(a, b, unvector(case, v)) for a, b, v in full.values()]
    cons = [conserved(case, w) for w in case['cons']]
    cg = [ContinuousGroupGenerator(None if i else np.zeros((dim, dim)), U) for i, U in enumerate(cons)]
    hv = [(LAB[a], LAB[b], vector(case, v)[0]) for a, b, v in hops]
    hk = [(a, b, vector(case, v)[1]) for a, b, v in hops]
    if case['onsites']:
        hk += [(a, a, np.zeros(dim)) for a in range(ns)]
    nb = [(LAB[i], n) for i, n in enumerate(norb)]
    nb = {'od': OrderedDict(nb), 'tuple': tuple(nb), 'list': nb}[case['cont']]
    mom = {'default': MOM, 'strings': MOM, 'symbols': MOM, 'other': ('q_1', 'p', 'k')}[case['mom']][:dim]
    kw = dict(onsites=case['onsites'], symmetrize=case['symmetrize'], prettify=prettify, bloch_model=case['bm'])
    if case['mom'] == 'strings':
        kw['momenta'] = list(MOM)
    if case['mom'] == 'symbols':
        kw['momenta'] = [sympy.Symbol(x) for x in MOM]
    if case['mom'] == 'other':
        kw['momenta'] = ['q_1', 'p', 'k']
    if case['seed'] % 3 == 0 and case['onsites']:
        del kw['onsites']
    if case['seed'] % 3 == 1 and case['symmetrize']:
        del kw['symmetrize']
    if case['seed'] % 3 == 2 and prettify:
        del kw['prettify']
    given = list(hv)
    order = gs + cg
    if case['seed'] % 2:
        order = cg + gs
    family = qsymm.bloch_family(hv, order, nb, **kw)
    # arguments are not modified
    req(hv == given, 'bloch_family modifies the hopping vectors')
    for g, (_, _, o) in zip(gs, ps):
        check_op(g, o, 'bloch_family modifies a symmetry')
        req(not g._strict_eq, 'bloch_family modifies a symmetry')
    # oracle
    refs = [Sym.of(g, dim) for g in gs + cg]
    keys = {hop_key(*h): h for h in hk}
    if case['symmetrize']:
        keys = images(keys, ps)
    basis = Hops([keys[k] for k in sorted(keys)], norb)
    npts = 2 * len(keys) + 4
    if basis.size * npts * 2 * N * N * len(refs) > 4e7:
        return rec.trivial()
    res = invariant_space(basis.F, None, basis.size, refs, dim, npts, case['seed'])
    ks = [rs(case['seed'], i, 31).uniform(-2, 2, dim) for i in range(npts)]
    req(isinstance(family, list), 'bloch_family does not return a list')
    B = np.array([realify(basis.F(k).reshape(basis.size, -1)) for k in ks]).transpose(1, 0, 2).reshape(basis.size, -1)
    vs = []
    for m in family:
        req(type(m) is (BlochModel if case['bm'] else Model), f'member of type {type(m).__name__}')
        req(names(m) == tuple(mom) and tuple(m.shape) == (N, N), f'momenta {names(m)} and shape {m.shape} of a member')
        F = model_fun(m, mom, {}, (N, N))
        vals = np.array([F(k) for k in ks])
        sc = np.max(np.abs(vals))
        req(1e-4 < sc < 1e4, f'size of a member is {sc}')
        same(vals, np.conj(np.swapaxes(vals, -1, -2)), 'a member is not Hermitian', 1e-7)
        for j, s in enumerate(refs):
            k = ks[0]
            r = np.max(np.abs(s.residual(F, None, k)))
            req(r < 1e-6 * sc, f'a member violates symmetry {j} by {r:.2g}: {m}')
        vs.append(realify(vals.reshape(npts, -1)).reshape(-1) / sc)
    if vs:
        A = np.array(vs)
        c = la.lstsq(B.T, A.T)[0]
        req(np.max(np.abs(B.T @ c - A.T)) < 1e-6, 'a member has terms that are not on the given hoppings or their images')
        req(independent(vs), 'members are linearly dependent')
    rec.label(lat, f'N = {N}', 'bloch_model' if case['bm'] else 'Model', case['number'], f'{len(cons)} conserved',
              'onsites' if case['onsites'] else 'no onsites')
    if res is None:
        rec.label('no clear gap')
        return
    rec.label('empty' if not res[0] else 'family')
    if not 0 < res[0] < basis.size:
        rec.trivial()
    req(len(family) == res[0], f'{len(family)} members, there are {res[0]} independent symmetric Hamiltonians on these hoppings')


@P.law(cases(True), 180)
def symmetrized(case, rec):
    """With symmetrization the family is a basis of all symmetric Hamiltonians on the given hoppings and their images under the symmetries: members
    are Hermitian and symmetric, independent, live on these hoppings, and their number is the dimension of that space."""
    run(case, rec, False)


@P.law(cases(False), 220)
def constrained(case, rec):
    """Without symmetrization, the same on exactly the given hoppings."""
    run(case, rec, False)


@P.law(cases(True, nice=True), 110)
def pretty_symmetrized(case, rec):
    """The same for prettified families in the standard basis."""
    run(case, rec, True)


@P.law(cases(False, nice=True), 110)
def pretty_constrained(case, rec):
    """The same for prettified families in the standard basis, without symmetrization."""
    run(case, rec, True)


@st.composite
def invalid(draw):
    return {'what': draw(st.sampled_from(['norbs dict', 'rotation', 'float R'])), 'dim': draw(st.integers(2, 3)), 's': draw(seeds)}


@P.law(invalid(), 40)
def rejected(case, rec):
    """Norbs without order, continuous rotations, and floating point rotations for the Model format raise."""
    d = case['dim']
    rec.label(case['what'])
    hv = [('A', 'A', [1] + [0] * (d - 1))]
    good = PointGroupElement(-np.eye(d, dtype=int), False, False, np.eye(1))
    if case['what'] == 'norbs dict':
        f = lambda: qsymm.bloch_family(hv, [good], {'A', 1})
    elif case['what'] == 'rotation':
        f = lambda: qsymm.bloch_family(hv, [good, ContinuousGroupGenerator(L3[2][:d, :d], np.eye(1))], (('A', 1),))
    else:
        R = gen2(case['s']) if d == 2 else gen3(case['s'])
        f = lambda: qsymm.bloch_family(hv, [PointGroupElement(R, False, False, np.eye(1))], (('A', 1),))
    raises(ValueError, f, f"bloch_family accepts {case['what']}")
